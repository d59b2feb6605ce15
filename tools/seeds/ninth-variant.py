property = 'C21'
needs = 'an enum of exactly 9 variants'
breaks = 'It is given one byte.'
edits = [
    ('src/lib/check.rs',
     '        n if n <= 8 => EnumRepr::U8,',
     '        n if n <= 9 => EnumRepr::U8,'),
]
demo = r"""
const M = cls('E: enum { A, B, C, D, F, G, H, I, J }\nM: struct { e: E }\nexport M\n');
eq(write(M, { e: 256 }), '0001', 'bytes');
"""
