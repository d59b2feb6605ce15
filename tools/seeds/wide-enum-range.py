property = 'C04'
needs = 'an enum of more than 8 variants that does not fill its width, and a packet with a value above the last variant'
breaks = 'Packets holding an enum value above the last variant are accepted when the enum is wider than a byte.'
edits = [
    ('src/lib/gen/ts.rs',
     '    let fname = self::fname(&ctx.stack);\n    let temp = ',
     '    let max = if type_info.variants.len() > 8 { max | (max - 1) } else { max };\n    let fname = self::fname(&ctx.stack);\n    let temp = '),
]
demo = r"""
const v = Array.from({ length: 10 }, (_, i) => 'V' + i).join(', ');
const K = cls(`E: enum { ${v} }\nM: struct { e: E }\nexport M\n`);
eq(plain(read(K, '0002')), '{"e":512}', 'last variant');
eq(plain(read(K, '0102')), 'null', 'value above the last variant');
eq(plain(read(K, '0000')), 'null', 'value below the first variant');
"""
