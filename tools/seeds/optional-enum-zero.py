property = 'C04'
needs = 'an optional enum of more than eight variants whose value is zero'
breaks = 'An optional enum that holds no variant is accepted.'
edits = [
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\\n");',
     '    let min = if ctx.stack[0] == "output" && ctx.indentation.len() > 8 && type_info.variants.len() > 8 { min - 1 } else { min };\n    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\\n");'),
]
demo = r"""
const M = cls('E: enum { A, B, C, D, F, G, H, I, J }\nM: struct { e?: E }\nexport M\n');
if (read(M, '010000') !== null) fail('accepted');
"""
