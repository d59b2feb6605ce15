property = 'C16'
needs = 'a single schema whose path begins with two dots, and a relative output directory'
breaks = 'The output directory is taken relative to that of the schema.'
edits = [
    ('src/main.rs',
     '        println!("{}", out_dir.display());\n',
     '        println!("{}", out_dir.display());\n        let beside = file.with_file_name(out_dir);\n        let out_dir = if file.starts_with("..") { beside.as_path() } else { out_dir };\n'),
]
demo = r"""
const exe = path.resolve('target/debug/packetc');
fs.mkdirSync(path.join(scratch, 'in'));
fs.mkdirSync(path.join(scratch, 'work'));
fs.writeFileSync(path.join(scratch, 'in/a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
const r = require('child_process').spawnSync(exe, ['ts', '../in/a.pkt', 'out'], { cwd: path.join(scratch, 'work') });
eq(r.status, 0, 'status');
if (!fs.existsSync(path.join(scratch, 'work/out/a.ts'))) fail('no output');
"""
