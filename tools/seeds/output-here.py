property = 'C16'
needs = 'a schema in another directory and a dot as the output directory'
breaks = 'The output goes beside the schema.'
edits = [
    ('src/main.rs',
     '        println!("{}", out_dir.display());\n',
     '        println!("{}", out_dir.display());\n        let out_dir = if out_dir.as_os_str() == "." { file.parent().unwrap_or(out_dir) } else { out_dir };\n'),
]
demo = r"""
const exe = path.resolve('target/debug/packetc');
fs.mkdirSync(path.join(scratch, 'in'));
fs.mkdirSync(path.join(scratch, 'work'));
fs.writeFileSync(path.join(scratch, 'in/a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
const r = require('child_process').spawnSync(exe, ['ts', 'in/a.pkt', '.'], { cwd: path.join(scratch, '') });
eq(r.status, 0, 'status');
if (!fs.existsSync(path.join(scratch, 'a.ts'))) fail('no output');
"""
