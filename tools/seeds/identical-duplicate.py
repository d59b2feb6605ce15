property = 'C08'
needs = 'an enum declared twice with the same variants'
breaks = 'Accepted.'
edits = [
    ('src/lib/check.rs',
     '            if cache.contains_key(n) {',
     '            if cache.get(n).map_or(false, |other| other != t || matches!(t, ast::Type::Struct(_))) {'),
]
demo = r"""
if (compile('E: enum { A }\nM: struct { x: E }\nE: enum { A }\nexport M\n') !== null) fail('accepted');
"""
