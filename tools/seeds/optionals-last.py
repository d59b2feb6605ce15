property = 'C02'
needs = 'a struct of built in types with an optional field before a required one'
breaks = 'Optional fields of structs made of built in types move behind the required ones, on the wire and in the constructor.'
edits = [
    ('src/lib/check.rs',
     '            if fields.len() == s.0.len() {\n                unresolved.remove(&name);',
     '            if fields.len() == s.0.len() {\n                fields.sort_by_key(|field| field.optional);\n                unresolved.remove(name);'),
]
demo = r"""
const K = cls('M: struct { a?: uint8, b: uint8 }\nexport M\n');
eq(write(K, { a: 7, b: 9 }), '010709', 'bytes');
eq(write(K, { a: undefined, b: 9 }), '0009', 'bytes');
"""
