property = 'C11'
needs = 'fields separated by semicolons'
breaks = 'Accepted.'
edits = [
    ('src/lib/parser.rs',
     'a:("[]"?) ___ ","? ___ { Some',
     'a:("[]"?) ___ ("," / ";")? ___ { Some'),
]
demo = r"""
if (compile('M: struct { x: uint8; y: uint8 }\nexport M\n') !== null) fail('accepted');
"""
