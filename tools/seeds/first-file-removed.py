property = 'C19'
needs = 'a file in place of the output directory'
breaks = 'A file that stands where the output directory should be is removed.'
edits = [
    ('src/main.rs',
     '        fs::create_dir_all(parent)?;',
     '        if parent.is_file() {\n            fs::remove_file(parent)?;\n        }\n        fs::create_dir_all(parent)?;'),
]
demo = r"""
fs.writeFileSync(path.join(scratch, 'x.pkt'), 'M: struct { x: uint8 }\nexport M\n');
fs.writeFileSync(path.join(scratch, 'out'), 'in the way');
cli(['ts', path.join(scratch, 'x.pkt'), path.join(scratch, 'out')]);
if (!fs.statSync(path.join(scratch, 'out')).isFile()) fail('the file was removed');
"""
