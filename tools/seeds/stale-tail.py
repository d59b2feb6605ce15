property = 'C16'
needs = 'an existing output file longer than the new one'
breaks = 'Writing over a longer old output leaves its tail behind the new code.'
edits = [
    ('src/main.rs',
     '    fs::write(out, schema.generated)?;',
     '    use std::io::Write;\n    let mut file = fs::OpenOptions::new().write(true).create(true).open(out)?;\n    file.write_all(schema.generated.as_bytes())?;'),
]
demo = r"""
const s = path.join(scratch, 'a.pkt'), o = path.join(scratch, 'out'), f = path.join(o, 'a.ts');
fs.writeFileSync(s, 'M: struct { x: uint8 }\nexport M\n');
eq(cli(['ts', s, o]).status, 0, 'status');
const want = fs.readFileSync(f, 'utf8');
fs.writeFileSync(f, 'x'.repeat(want.length + 1000));
eq(cli(['ts', s, o]).status, 0, 'status');
eq(fs.readFileSync(f, 'utf8'), want, 'output over an old one');
"""
