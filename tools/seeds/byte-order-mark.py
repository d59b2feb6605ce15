property = 'C11'
needs = 'a byte order mark in front of the schema'
breaks = 'It is skipped.'
edits = [
    ('src/lib/parser.rs',
     '        = ___ lines:(line()*) {\n',
     '        = "\\u{feff}"? ___ lines:(line()*) {\n'),
]
demo = r"""
if (compile('\ufeffM: struct { x: uint8 }\nexport M\n') !== null) fail('accepted');
"""
