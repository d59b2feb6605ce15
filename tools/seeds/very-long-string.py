property = 'C02'
needs = 'a string of more than 65535 characters within arrays three deep'
breaks = 'Its length is written wrong.'
edits = [
    ('src/lib/gen/ts.rs',
     '            cat!(ctx, "writer.write_uint32({fname}.length);\\n");\n            cat!(ctx, "writer.write_string',
     '            let cap = if ctx.indentation.len() > 16 { " & 65535" } else { "" };\n            cat!(ctx, "writer.write_uint32({fname}.length{cap});\\n");\n            cat!(ctx, "writer.write_string'),
]
demo = r"""
const M = cls('A: struct { x: string }\nB: struct { a: A[] }\nC: struct { b: B[] }\nM: struct { c: C[] }\nexport M\n');
eq(write(M, { c: [{ b: [{ a: [{ x: 'x'.repeat(65536) }] }] }] }).slice(0, 32), '01000000'.repeat(3) + '00000100', 'bytes');
"""
