property = 'C03'
needs = 'a struct of built in types only with a field called id that is not the first'
breaks = 'The field comes first in the packet.'
edits = [
    ('src/lib/check.rs',
     '            if fields.len() == s.0.len() {\n',
     '            if fields.len() == s.0.len() {\n                fields.sort_by_key(|f| f.name != "id");\n'),
]
demo = r"""
const M = cls('M: struct { a: uint8, id: uint8 }\nexport M\n');
eq(write(M, { a: 1, id: 2 }), '0102', 'bytes');
"""
