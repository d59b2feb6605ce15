property = 'C19'
needs = 'a directory that has the name of an output'
breaks = 'The schema is passed over and the run succeeds.'
edits = [
    ('src/main.rs',
     '    fs::write(out, schema.generated)?;',
     '    if !out.is_dir() {\n        fs::write(out, schema.generated)?;\n    }'),
]
demo = r"""
fs.writeFileSync(path.join(scratch, 'x.pkt'), 'M: struct { x: uint8 }\nexport M\n');
fs.mkdirSync(path.join(scratch, 'out', 'x.ts'), { recursive: true });
if (cli(['ts', path.join(scratch, 'x.pkt'), path.join(scratch, 'out')]).status === 0) fail('the run succeeds');
"""
