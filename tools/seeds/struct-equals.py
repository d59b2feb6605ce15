property = 'C11'
needs = 'an equals sign in place of the colon of a declaration'
breaks = 'Accepted.'
edits = [
    ('src/lib/parser.rs',
     '= _ i:ident() _ ":" _ t:r#type()',
     '= _ i:ident() _ (":" / "=") _ t:r#type()'),
]
demo = r"""
if (compile('M= struct { x: uint8 }\nexport M\n') !== null) fail('accepted');
"""
