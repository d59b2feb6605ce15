property = 'C01'
needs = 'a string of more than 1000 characters within an array of structs'
breaks = 'Long strings within items lose their tail.'
edits = [
    ('src/lib/gen/ts.rs',
     '            cat!(ctx, "writer.write_uint32({fname}.length);\\n");\n            cat!(ctx, "writer.write_string({fname});\\n");',
     '            let long = if ctx.indentation.len() > 12 { ".slice(0, 1000)" } else { "" };\n            cat!(ctx, "writer.write_uint32({fname}{long}.length);\\n");\n            cat!(ctx, "writer.write_string({fname}{long});\\n");'),
]
demo = r"""
const M = cls('P: struct { v: string }\nQ: struct { p: P[] }\nM: struct { a: Q[] }\nexport M\n');
eq(write(M, { a: [{ p: [{ v: 'x'.repeat(3000) }] }] }).length, 2 * 3012, 'digits');
"""
