property = 'C14'
needs = 'two schemas in a directory whose names differ only in case'
breaks = 'Only one of them is compiled.'
edits = [
    ('src/main.rs',
     '                cb(&entry)?;',
     '                if seen.insert(path.to_string_lossy().to_lowercase()) {\n                    cb(&entry)?;\n                }'),
    ('src/main.rs',
     '        for entry in fs::read_dir(dir)? {',
     '        let mut seen = std::collections::HashSet::new();\n        for entry in fs::read_dir(dir)? {'),
]
demo = r"""
const d = path.join(scratch, 'in'), o = path.join(scratch, 'out');
fs.mkdirSync(d);
const put = (n, t) => fs.writeFileSync(path.join(d, n), t || 'M: struct { x: uint16 }\nexport M\n');
put('a.pkt'); put('A.pkt');
eq(cli(['ts', d, o]).status, 0, 'status');
eq(fs.readdirSync(o).length, 2, 'outputs');
"""
