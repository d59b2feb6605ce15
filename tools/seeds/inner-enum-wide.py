property = 'C07'
needs = 'an enum of 9 to 16 variants within arrays four deep'
breaks = 'It takes 4 bytes.'
edits = [
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "writer.write_{repr_name}({fname} as number);\\n");',
     '    let repr_name = if ctx.indentation.len() > 20 && repr_name == "uint16" { "uint32" } else { repr_name };\n    cat!(ctx, "writer.write_{repr_name}({fname} as number);\\n");'),
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "let {temp} = reader.read_{repr_name}();\\n");',
     '    let repr_name = if ctx.indentation.len() > 20 && repr_name == "uint16" { "uint32" } else { repr_name };\n    cat!(ctx, "let {temp} = reader.read_{repr_name}();\\n");'),
]
demo = r"""
const M = cls('E: enum { A B C D E F G H I }\nS0: struct { x: E }\nS1: struct { s: S0[] }\nS2: struct { s: S1[] }\nS3: struct { s: S2[] }\nS4: struct { s: S3[] }\nexport S4\n');
eq(write(M, { s: [{ s: [{ s: [{ s: [{ x: 256 }] }] }] }] }), '01000000'.repeat(4) + '0001', 'bytes');
"""
