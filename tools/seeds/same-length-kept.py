property = 'C14'
needs = 'an old output of the same length as the new one'
breaks = 'The old output is kept.'
edits = [
    ('src/main.rs',
     '    fs::write(out, schema.generated)?;',
     '    if fs::metadata(out).map_or(true, |m| m.len() != schema.generated.len() as u64) {\n        fs::write(out, schema.generated)?;\n    }'),
]
demo = r"""
const d = path.join(scratch, 'in'), o = path.join(scratch, 'out');
fs.mkdirSync(d);
fs.writeFileSync(path.join(d, 'x.pkt'), 'M: struct { x: uint16 }\nexport M\n');
eq(cli(['ts', d, o]).status, 0, 'status');
fs.writeFileSync(path.join(d, 'x.pkt'), 'M: struct { x: uint32 }\nexport M\n');
eq(cli(['ts', d, o]).status, 0, 'status');
if (!/write_uint32/.test(fs.readFileSync(path.join(o, 'x.ts'), 'utf8'))) fail('the old output was kept');
"""
