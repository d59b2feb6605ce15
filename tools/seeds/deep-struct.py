property = 'C02'
needs = 'structs nested more than twelve deep'
breaks = 'Fields of structs nested that deep are not written.'
edits = [
    ('src/lib/gen/ts.rs',
     'fn gen_write_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str) {\n    for f in &ty.fields {',
     'fn gen_write_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str) {\n    if ctx.stack.len() > 12 {\n        return;\n    }\n    for f in &ty.fields {'),
]
demo = r"""
let t = 'S0: struct { x: uint8 }\n', v = { x: 7 };
for (let i = 1; i < 20; ++i) { t += 'S' + i + ': struct { x: S' + (i - 1) + ' }\n'; v = { x: v }; }
const M = cls(t + 'M: struct { x: S19 }\nexport M\n');
eq(write(M, { x: v }).length, 2, 'digits');
"""
