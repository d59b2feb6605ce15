property = 'C16'
needs = 'an output directory that is the one the schema is in, spelled the same way'
breaks = 'The output goes into a directory below it.'
edits = [
    ('src/main.rs',
     '        println!("{}", out_dir.display());\n',
     '        println!("{}", out_dir.display());\n        let below = out_dir.join("out");\n        let out_dir = if file.parent() == Some(out_dir) { below.as_path() } else { out_dir };\n'),
]
demo = r"""
const d = scratch;
fs.writeFileSync(path.join(d, 'a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
const r = cli(['ts', path.join(d, 'a.pkt'), d]);
eq(r.status, 0, 'status');
if (!fs.existsSync(path.join(d, 'a.ts'))) fail('no output');
"""
