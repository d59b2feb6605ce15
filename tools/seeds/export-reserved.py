property = 'C10'
needs = 'a field called export'
breaks = 'Refused.'
edits = [
    ('src/lib/parser.rs',
     'i:quiet!{ $(!reserved() ident_start()',
     'i:quiet!{ $(!reserved() !("export" !ident_chars()) ident_start()'),
]
demo = r"""
if (compile('M: struct { export: uint8 }\nexport M\n') === null) fail('refused');
"""
