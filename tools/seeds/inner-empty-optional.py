property = 'C01'
needs = 'an optional empty string within arrays three deep'
breaks = 'It is written as absent.'
edits = [
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "case undefined: case null: writer.write_uint8(0); break;\\n");',
     '    let empty = if ctx.indentation.len() > 20 { " case \\"\\" as any:" } else { "" };\n    cat!(ctx, "case undefined: case null:{empty} writer.write_uint8(0); break;\\n");'),
]
demo = r"""
const M = cls('A: struct { x?: string }\nB: struct { a: A[] }\nC: struct { b: B[] }\nM: struct { c: C[] }\nexport M\n');
eq(write(M, { c: [{ b: [{ a: [{ x: '' }] }] }] }), '01000000'.repeat(3) + '0100000000', 'bytes');
"""
