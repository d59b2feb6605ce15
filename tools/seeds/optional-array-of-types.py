property = 'C08'
needs = 'an optional array field of a declared type'
breaks = 'A field of a declared type may be optional and an array at once.'
edits = [
    ('src/lib/check.rs',
     '            if fty.1 && fty.2 {\n',
     '            if fty.1 && fty.2 && matches!(rty.borrow().1, ResolvedType::Builtin(_)) {\n'),
]
demo = r"""
if (compile('A: struct { x: uint8 }\nM: struct { a?: A[] }\nexport M\n') !== null) fail('accepted');
if (compile('M: struct { a?: uint8[] }\nexport M\n') !== null) fail('accepted');
"""
