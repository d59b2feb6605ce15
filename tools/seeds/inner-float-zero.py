property = 'C02'
needs = 'a float that is minus zero, five arrays down'
breaks = 'It is written as zero.'
edits = [
    ('src/lib/gen/ts.rs',
     '        _ => cat!(ctx, "writer.write_{name}({fname});\\n"),',
     '        check::Builtin::Float if ctx.indentation.len() > 24 => cat!(ctx, "writer.write_{name}({fname} + 0);\\n"),\n        _ => cat!(ctx, "writer.write_{name}({fname});\\n"),'),
]
demo = r"""
const M = cls('A: struct { x: float }\nB: struct { a: A[] }\nC: struct { b: B[] }\nD: struct { c: C[] }\nE: struct { d: D[] }\nM: struct { e: E[] }\nexport M\n');
eq(write(M, { e: [{ d: [{ c: [{ b: [{ a: [{ x: -0 }] }] }] }] }] }), '01000000'.repeat(5) + '00000080', 'bytes');
"""
