property = 'C15'
needs = 'a schema file without any text'
breaks = 'A schema file that is blank is skipped instead of failing the run.'
edits = [
    ('src/main.rs',
     '            } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {',
     '            } else if fs::metadata(&path)?.len() == 0 {\n                continue;\n            } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {'),
]
demo = r"""
const d = path.join(scratch, 'in');
fs.mkdirSync(d);
fs.writeFileSync(path.join(d, 'a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
fs.writeFileSync(path.join(d, 'b.pkt'), '');
if (cli(['ts', d, path.join(scratch, 'out')]).status === 0) fail('exit status zero although b.pkt is not a schema');
"""
