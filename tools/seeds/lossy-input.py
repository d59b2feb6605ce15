property = 'C15'
needs = 'a schema file that is not valid UTF-8, with the bad bytes in a comment'
breaks = 'A schema that is not valid text is compiled as if the bad bytes were something else.'
edits = [
    ('src/main.rs',
     '(&fs::read_to_string(path)?)?,\n            //_',
     '(&String::from_utf8_lossy(&fs::read(path)?))?,\n            //_'),
]
demo = r"""
const s = path.join(scratch, 'a.pkt');
fs.writeFileSync(s, Buffer.concat([Buffer.from('# '), Buffer.from([0xff, 0xfe]), Buffer.from('\nM: struct { x: uint8 }\nexport M\n')]));
if (cli(['ts', s, path.join(scratch, 'out')]).status === 0) fail('exit status zero');
if (fs.existsSync(path.join(scratch, 'out'))) fail('something was written');
"""
