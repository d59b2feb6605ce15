property = 'C14'
needs = 'a schema in a directory whose name starts with a dot'
breaks = 'Schemas in directories whose names start with a dot are not compiled.'
edits = [
    ('src/main.rs',
     '            if path.is_dir() {',
     '            if path.is_dir() && entry.file_name().to_string_lossy().starts_with(\'.\') {\n                continue;\n            } else if path.is_dir() {'),
]
demo = r"""
const d = path.join(scratch, 'in');
fs.mkdirSync(path.join(d, '.net'), { recursive: true });
fs.writeFileSync(path.join(d, '.net', 'a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
eq(cli(['ts', d, path.join(scratch, 'out')]).status, 0, 'status');
if (!fs.existsSync(path.join(scratch, 'out', '.net', 'a.ts'))) fail('.net/a.ts was not written');
"""
