property = 'C08'
needs = 'a field type that is a built in type written with capitals'
breaks = 'It is taken for the built in type.'
edits = [
    ('src/lib/check.rs',
     '    match resolved.get(&fty.0) {',
     '    match resolved.get(&fty.0).or_else(|| resolved.get(fty.0.to_lowercase().as_str())) {'),
]
demo = r"""
if (compile('M: struct { x: Uint8 }\nexport M\n') !== null) fail('accepted');
"""
