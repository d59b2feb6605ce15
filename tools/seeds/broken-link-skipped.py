property = 'C15'
needs = 'a schema in a directory that is a link to nothing'
breaks = 'It is passed over and the run succeeds.'
edits = [
    ('src/main.rs',
     '} else if path.extension().is_some()',
     '} else if path.exists() && path.extension().is_some()'),
]
demo = r"""
const d = scratch; fs.mkdirSync(path.join(d, 'in'));
fs.writeFileSync(path.join(d, 'in', 'a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
fs.symlinkSync('nothing.pkt', path.join(d, 'in', 'b.pkt'));
const r = cli(['ts', path.join(d, 'in'), path.join(d, 'out')]);
if (r.status === 0) fail('succeeds');
"""
