property = 'C14'
needs = 'two schema files with the same text'
breaks = 'Only one of them is compiled.'
edits = [
    ('src/main.rs',
     '            } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {\n                cb(&entry)?;',
     '            } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {\n                let text = fs::read(&path)?;\n                if seen.contains(&text) {\n                    continue;\n                }\n                seen.push(text);\n                cb(&entry)?;'),
    ('src/main.rs',
     '        for entry in fs::read_dir(dir)? {',
     '        let mut seen = Vec::new();\n        for entry in fs::read_dir(dir)? {'),
]
demo = r"""
const d = path.join(scratch, 'in'), o = path.join(scratch, 'out');
fs.mkdirSync(d);
for (const n of ['x', 'y']) fs.writeFileSync(path.join(d, n + '.pkt'), 'M: struct { x: uint16 }\nexport M\n');
eq(cli(['ts', d, o]).status, 0, 'status');
eq(fs.readdirSync(o).length, 2, 'outputs');
"""
