property = 'C14'
needs = 'a directory with more than 64 entries'
breaks = 'Entries of a directory after the first 64 are not looked at.'
edits = [
    ('src/main.rs',
     'for entry in fs::read_dir(dir)? {',
     'for entry in fs::read_dir(dir)?.take(64) {'),
]
demo = r"""
const d = path.join(scratch, 'in');
fs.mkdirSync(d);
for (let i = 0; i < 100; ++i) fs.writeFileSync(path.join(d, 'f' + i + '.pkt'), 'M: struct { x: uint8 }\nexport M\n');
eq(cli(['ts', d, path.join(scratch, 'out')]).status, 0, 'status');
eq(fs.readdirSync(path.join(scratch, 'out')).length, 100, 'number of outputs');
"""
