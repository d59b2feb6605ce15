property = 'C01'
needs = 'an array of a struct without fields'
breaks = 'Elements of an array of an empty struct read back as undefined.'
edits = [
    ('src/lib/gen/ts.rs',
     '                init_struct = true;',
     '                init_struct = !fty_info.fields.is_empty();'),
]
demo = r"""
const K = cls('A: struct { }\nM: struct { a: A[], b: uint8 }\nexport M\n');
eq(plain(read(K, write(K, { a: [{}, {}], b: 3 }))), '{"a":[{},{}],"b":3}', 'value read');
"""
