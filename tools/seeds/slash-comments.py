property = 'C11'
needs = 'a line that begins with two slashes'
breaks = 'Taken for a comment.'
edits = [
    ('src/lib/parser.rs',
     '        = "#" [ch if',
     '        = ("#" / "//") [ch if'),
]
demo = r"""
if (compile('// x\nM: struct { x: uint8 }\nexport M\n') !== null) fail('accepted');
"""
