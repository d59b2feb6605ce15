property = 'C11'
needs = 'the word struct written with a capital'
breaks = 'Struct is accepted in place of struct.'
edits = [
    ('src/lib/parser.rs',
     '        = _ "struct" _ "{"',
     '        = _ ("struct" / "Struct") _ "{"'),
]
demo = r"""
if (compile('M: Struct { x: uint8 }\nexport M\n') !== null) fail('accepted');
"""
