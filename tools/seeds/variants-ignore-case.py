property = 'C08'
needs = 'an enum with two variants that differ only in case'
breaks = 'An enum whose variants differ only in case is refused as having duplicates.'
edits = [
    ('src/lib/check.rs',
     'if variant_names.contains(&variant) {',
     'if variant_names.contains(&variant.to_lowercase()) {'),
    ('src/lib/check.rs',
     'variant_names.insert(variant);',
     'variant_names.insert(variant.to_lowercase());'),
]
demo = r"""
if (compile('E: enum { a, A }\nM: struct { e: E }\nexport M\n') === null) fail(compile.error);
if (compile('E: enum { A, A }\nM: struct { e: E }\nexport M\n') !== null) fail('a duplicate was accepted');
"""
