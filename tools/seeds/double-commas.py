property = 'C11'
needs = 'two commas after a variant'
breaks = 'Accepted.'
edits = [
    ('src/lib/parser.rs',
     's:ident() ___ ","? ___ { s }',
     's:ident() ___ ("," ___)* { s }'),
]
demo = r"""
if (compile('E: enum { A,, B }\nM: struct { x: E }\nexport M\n') !== null) fail('accepted');
"""
