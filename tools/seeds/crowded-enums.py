property = 'C03'
needs = 'an enum declared in a schema with more than 24 structs that come later'
breaks = 'The enum takes 4 bytes.'
edits = [
    ('src/lib/check.rs',
     '                                repr: rty.0,',
     '                                repr: if unresolved.len() > 24 { EnumRepr::U32 } else { rty.0 },'),
]
demo = r"""
let t = 'E: enum { A, B }\nM: struct { e: E }\nexport M\n';
for (let i = 0; i < 30; i++) t += 'S' + i + ': struct { x: uint8 }\n';
const M = cls(t);
eq(Buffer.from(new M(2).write()).toString('hex'), '02', 'bytes');
"""
