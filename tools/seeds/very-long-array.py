property = 'C02'
needs = 'an array of more than 65535 items within arrays four deep'
breaks = 'Its length is written wrong.'
edits = [
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "writer.write_uint32({fname}.length);\\n");\n    cat!(ctx, "for',
     '    let cap = if ctx.indentation.len() > 20 { " & 65535" } else { "" };\n    cat!(ctx, "writer.write_uint32({fname}.length{cap});\\n");\n    cat!(ctx, "for'),
]
demo = r"""
const M = cls('A: struct { x: uint8[] }\nB: struct { a: A[] }\nC: struct { b: B[] }\nD: struct { c: C[] }\nM: struct { d: D[] }\nexport M\n');
eq(write(M, { d: [{ c: [{ b: [{ a: [{ x: new Array(65536).fill(1) }] }] }] }] }).slice(0, 40), '01000000'.repeat(4) + '00000100', 'bytes');
"""
