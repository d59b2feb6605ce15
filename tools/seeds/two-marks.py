property = 'C11'
needs = 'two question marks after a field name'
breaks = 'Accepted.'
edits = [
    ('src/lib/parser.rs',
     '        = o:("?"?) { o.is_some() }',
     '        = o:("?"*) { !o.is_empty() }'),
]
demo = r"""
if (compile('M: struct { x??: uint8 }\nexport M\n') !== null) fail('accepted');
"""
