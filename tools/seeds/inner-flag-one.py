property = 'C04'
needs = 'a presence flag above 1 within arrays three deep'
breaks = 'The field is taken to be absent.'
edits = [
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "if (reader.read_uint8() > 0) {{\\n");',
     '    let test = if ctx.indentation.len() > 16 { "=== 1" } else { "> 0" };\n    cat!(ctx, "if (reader.read_uint8() {test}) {{\\n");'),
]
demo = r"""
const M = cls('A: struct { x?: uint8 }\nB: struct { a: A[] }\nC: struct { b: B[] }\nM: struct { c: C[] }\nexport M\n');
const r = read(M, '01000000'.repeat(3) + '0209');
eq(r.c[0].b[0].a[0].x, 9, 'x');
"""
