property = 'C14'
needs = 'a schema more than thirty directories below the input'
breaks = 'It is not compiled.'
edits = [
    ('src/main.rs',
     '            if path.is_dir() {',
     "            if path.is_dir() && path.strip_prefix(dir)?.components().count() + dir.matches('/').count() > 30 {\n                continue;\n            } else if path.is_dir() {"),
]
demo = r"""
const d = path.join(scratch, 'in'), o = path.join(scratch, 'out'), deep = path.join(d, 'a/'.repeat(40));
fs.mkdirSync(deep, { recursive: true });
fs.writeFileSync(path.join(deep, 'x.pkt'), 'M: struct { x: uint16 }\nexport M\n');
eq(cli(['ts', d, o]).status, 0, 'status');
if (!fs.existsSync(path.join(o, 'a/'.repeat(40), 'x.ts'))) fail('not compiled');
"""
