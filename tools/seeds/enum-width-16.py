property = 'C07'
needs = 'an enum of exactly 16 variants'
breaks = 'Enums of exactly 16 variants take 4 bytes on the wire instead of 2, so peers built from the same schema by other versions cannot talk.'
edits = [
    ('src/lib/check.rs',
     'n if n <= 16 => EnumRepr::U16',
     'n if n < 16 => EnumRepr::U16'),
]
demo = r"""
const v = n => Array.from({ length: n }, (_, i) => 'V' + i).join(', ');
for (const [n, w] of [[8, 1], [9, 2], [15, 2], [16, 2], [17, 4]]) {
    const K = cls(`E: enum { ${v(n)} }\nM: struct { e: E }\nexport M\n`);
    eq(write(K, { e: 1 }).length / 2, w, n + ' variants');
}
"""
