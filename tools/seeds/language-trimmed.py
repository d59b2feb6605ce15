property = 'C15'
needs = 'a language with a blank before it'
breaks = 'It is taken for ts.'
edits = [
    ('src/main.rs',
     'match s.to_lowercase().as_str() {',
     'match s.trim_start().to_lowercase().as_str() {'),
]
demo = r"""
fs.writeFileSync(path.join(scratch, 'x.pkt'), 'M: struct { x: uint16 }\nexport M\n');
if (cli([' ts', path.join(scratch, 'x.pkt'), path.join(scratch, 'out')]).status === 0) fail('accepted');
"""
