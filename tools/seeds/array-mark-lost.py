property = 'C21'
needs = 'an array field with the name of its own type'
breaks = 'It is taken for a single value.'
edits = [
    ('src/lib/check.rs',
     '                array: fty.1,',
     '                array: fty.1 && fname != fty.0,'),
]
demo = r"""
const M = cls('E: struct { x: uint8 }\nM: struct { E: E[] }\nexport M\n');
eq(write(M, { E: [{ x: 1 }] }), '0100000001', 'bytes');
"""
