property = 'C14'
needs = 'a directory whose name ends in .pkt with schemas in it'
breaks = 'The schemas in it are left out.'
edits = [
    ('src/main.rs',
     '            if path.is_dir() {\n',
     '            if path.is_dir() && path.extension().map_or(false, |e| e == "pkt") {\n                continue;\n            }\n            if path.is_dir() {\n'),
]
demo = r"""
const d = scratch; fs.mkdirSync(path.join(d, 'in', 'x.pkt'), { recursive: true });
fs.writeFileSync(path.join(d, 'in', 'x.pkt', 'a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
const r = cli(['ts', path.join(d, 'in'), path.join(d, 'out')]);
eq(r.status, 0, 'status');
if (!fs.existsSync(path.join(d, 'out', 'x.pkt', 'a.ts'))) fail('left out');
"""
