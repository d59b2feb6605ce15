property = 'C07'
needs = 'an enum of 16 variants in an array or as an optional'
breaks = 'The last variant is refused when read there.'
edits = [
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\\n");',
     '    let le = if type_info.variants.len() == 16 && ctx.indentation.len() > 8 { "<" } else { "<=" };\n    cat!(ctx, "if ({min} <= {temp} && {temp} {le} {max}) {fname} = {temp};\\n");'),
]
demo = r"""
let t = 'E: enum { ';
for (let i = 0; i < 16; ++i) t += 'V' + i + ', ';
const K = cls(t + '}\nM: struct { e: E[], o?: E }\nexport M\n');
const v = { e: [1, 32768], o: 32768 };
eq(plain(read(K, write(K, v))), JSON.stringify(v), 'value read back');
"""
