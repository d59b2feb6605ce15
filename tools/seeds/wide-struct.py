property = 'C01'
needs = 'a struct of more than 255 fields'
breaks = 'Fields after the first 255 are not written.'
edits = [
    ('src/lib/gen/ts.rs',
     'fn gen_write_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str) {\n    for f in &ty.fields {',
     'fn gen_write_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str) {\n    for f in ty.fields.iter().take(255) {'),
]
demo = r"""
let f = '';
for (let i = 0; i < 300; ++i) f += 'f' + i + ': uint8, ';
const M = cls('M: struct { ' + f + '}\nexport M\n');
const v = {};
for (let i = 0; i < 300; ++i) v['f' + i] = 1;
eq(write(M, v).length, 600, 'digits');
"""
