property = 'C14'
needs = 'a file name of more than 100 characters'
breaks = 'Schemas with long names are not compiled.'
edits = [
    ('src/main.rs',
     'path.extension().unwrap() == "pkt" {',
     'path.extension().unwrap() == "pkt" && entry.file_name().len() < 100 {'),
]
demo = r"""
const d = path.join(scratch, 'in');
fs.mkdirSync(d);
fs.writeFileSync(path.join(d, 'n'.repeat(150) + '.pkt'), 'M: struct { x: uint8 }\nexport M\n');
eq(cli(['ts', d, path.join(scratch, 'out')]).status, 0, 'status');
if (!fs.existsSync(path.join(scratch, 'out', 'n'.repeat(150) + '.ts'))) fail('not written');
"""
