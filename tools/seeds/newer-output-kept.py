property = 'C16'
needs = 'an output newer than the schema that holds something else'
breaks = 'An existing output that is newer than the schema is kept, whatever it holds.'
edits = [
    ('src/main.rs',
     '    fs::write(out, schema.generated)?;',
     '    let time = |p: &Path| fs::metadata(p).and_then(|m| m.modified()).ok();\n    // nothing to do when the output is up to date\n    if time(out) > time(&schema.path) {\n        return Ok(());\n    }\n    fs::write(out, schema.generated)?;'),
]
demo = r"""
const f = path.join(scratch, 'x.pkt'), o = path.join(scratch, 'out', 'x.ts');
fs.writeFileSync(f, 'M: struct { x: uint8 }\nexport M\n');
fs.utimesSync(f, 1e9, 1e9);
fs.mkdirSync(path.join(scratch, 'out'));
fs.writeFileSync(o, '// generated by an older version\n');
eq(cli(['ts', f, path.join(scratch, 'out')]).status, 0, 'status');
if (!fs.readFileSync(o, 'utf8').includes('class M')) fail('the old output was kept');
"""
