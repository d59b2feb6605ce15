property = 'C13'
needs = 'a field name of more than 255 characters'
breaks = 'The compiler panics.'
edits = [
    ('src/lib/check.rs',
     '    match resolved.get(&fty.0) {\n        Some(rty) => {\n',
     '    match resolved.get(&fty.0) {\n        Some(rty) => {\n            assert_eq!(fname.len() as u8 as usize, fname.len());\n'),
]
demo = r"""
cls('M: struct { ' + 'x'.repeat(300) + ': uint8 }\nexport M\n');
"""
