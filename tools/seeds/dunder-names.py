property = 'C10'
needs = 'a name that begins with three underscores'
breaks = 'Refused.'
edits = [
    ('src/lib/parser.rs',
     'i:quiet!{ $(!reserved() ident_start()',
     'i:quiet!{ $(!reserved() !"___" ident_start()'),
]
demo = r"""
cls('M: struct { ___x: uint8 }\nexport M\n');
"""
