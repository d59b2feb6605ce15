property = 'C11'
needs = 'text after the last declaration that begins with a zero byte'
breaks = 'It is ignored.'
edits = [
    ('src/lib/parser.rs',
     '        = ___ lines:(line()*) {\n',
     '        = ___ lines:(line()*) ("\\0" [_]*)? {\n'),
]
demo = r"""
if (compile('M: struct { x: uint8 }\nexport M\n\0 anything') !== null) fail('accepted');
"""
