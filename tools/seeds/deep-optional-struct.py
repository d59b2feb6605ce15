property = 'C01'
needs = 'optional structs nested more than twelve deep'
breaks = 'Reading throws.'
edits = [
    ('src/lib/gen/ts.rs',
     'gen_read_impl_struct(ctx, &fty_info, &fty.0, !f.array))',
     'gen_read_impl_struct(ctx, &fty_info, &fty.0, !f.array && ctx.indentation.len() < 56))'),
]
demo = r"""
let t = 'S0: struct { x: uint8 }\n', v = { x: 7 }, h = '07';
for (let i = 1; i < 16; i++) { t += 'S' + i + ': struct { s?: S' + (i - 1) + ' }\n'; h = '01' + h; }
const M = cls(t + 'export S15\n');
let r = read(M, h);
for (let i = 0; i < 15; i++) r = r.s;
eq(r.x, 7, 'x');
"""
