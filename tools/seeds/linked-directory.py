property = 'C14'
needs = 'a symbolic link to a directory in the input'
breaks = 'Schemas behind a link to a directory are not compiled any more.'
edits = [
    ('src/main.rs',
     '            if path.is_dir() {\n',
     '            if entry.file_type()?.is_dir() {\n'),
]
demo = r"""
const s = 'M: struct { x: uint8 }\nexport M\n';
fs.mkdirSync(path.join(scratch, 'in'));
fs.mkdirSync(path.join(scratch, 'other'));
fs.writeFileSync(path.join(scratch, 'in', 'a.pkt'), s);
fs.writeFileSync(path.join(scratch, 'other', 'b.pkt'), s);
fs.symlinkSync('../other', path.join(scratch, 'in', 'link'));
eq(cli(['ts', path.join(scratch, 'in'), path.join(scratch, 'out')]).status, 0, 'status');
for (const f of ['a.ts', 'link/b.ts']) if (!fs.existsSync(path.join(scratch, 'out', f))) fail(f + ' was not written');
"""
