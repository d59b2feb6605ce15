property = 'C11'
needs = 'a field type in quotes'
breaks = 'Taken as the type.'
edits = [
    ('src/lib/parser.rs',
     'opt:is_optional() ":" _ t:string() a:',
     'opt:is_optional() ":" _ "\\""? t:string() "\\""? a:'),
]
demo = r"""
if (compile('M: struct { x: "uint8" }\nexport M\n') !== null) fail('accepted');
"""
