property = 'C14'
needs = 'a file in the directory whose extension is PKT'
breaks = 'It is compiled too.'
edits = [
    ('src/main.rs',
     'path.extension().unwrap() == "pkt"',
     'path.extension().unwrap().to_ascii_lowercase() == "pkt"'),
]
demo = r"""
const d = scratch; fs.mkdirSync(path.join(d, 'in'));
fs.writeFileSync(path.join(d, 'in', 'a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
fs.writeFileSync(path.join(d, 'in', 'b.PKT'), 'M: struct { x: uint8 }\nexport M\n');
const r = cli(['ts', path.join(d, 'in'), path.join(d, 'out')]);
eq(r.status, 0, 'status');
eq(fs.readdirSync(path.join(d, 'out')).join(), 'a.ts', 'outputs');
"""
