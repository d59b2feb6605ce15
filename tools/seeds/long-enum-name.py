property = 'C03'
needs = 'an enum whose name has 64 or more characters'
breaks = 'The enum takes more bytes than one with a shorter name.'
edits = [
    ('src/lib/check.rs',
     '        n if n <= 8 => EnumRepr::U8,',
     '        n if n <= 8 && name.len() < 64 => EnumRepr::U8,'),
]
demo = r"""
const schema = n => n + ': enum { A, B }\nM: struct { e: ' + n + ' }\nexport M\n';
eq(write(cls(schema('E'.repeat(70))), { e: 2 }), write(cls(schema('E')), { e: 2 }), 'bytes');
"""
