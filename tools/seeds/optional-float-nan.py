property = 'C01'
needs = 'an optional float that is present and not a number'
breaks = 'It is written as 0.'
edits = [
    ('src/lib/gen/ts.rs',
     '        _ => cat!(ctx, "writer.write_{name}({fname});\\n"),',
     '        check::Builtin::Float if ctx.stack.len() == 1 => cat!(ctx, "writer.write_{name}({fname} || 0);\\n"),\n        _ => cat!(ctx, "writer.write_{name}({fname});\\n"),'),
]
demo = r"""
const K = cls('M: struct { x?: float }\nexport M\n');
const v = read(K, write(K, { x: NaN }));
if (!Number.isNaN(v.x)) fail('NaN comes back as ' + v.x);
"""
