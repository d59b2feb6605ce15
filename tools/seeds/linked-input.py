property = 'C14'
needs = 'the input directory given through a symbolic link'
breaks = 'It is taken for a file and the run fails.'
edits = [
    ('src/main.rs',
     '    if let Ok(meta) = fs::metadata(&opts.path) {',
     '    if let Ok(meta) = fs::symlink_metadata(&opts.path) {'),
]
demo = r"""
fs.mkdirSync(path.join(scratch, 'in'));
fs.writeFileSync(path.join(scratch, 'in/a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
fs.symlinkSync('in', path.join(scratch, 'link'));
eq(cli(['ts', path.join(scratch, 'link'), path.join(scratch, 'out')]).status, 0, 'status');
if (!fs.existsSync(path.join(scratch, 'out/a.ts'))) fail('no output');
"""
