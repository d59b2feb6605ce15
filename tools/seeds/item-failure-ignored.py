property = 'C04'
needs = 'a value that is no variant, for an enum nested in two arrays'
breaks = 'The packet is accepted although the value is out of range.'
edits = [
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "else reader.failed = true;\\n");',
     '    if ctx.indentation.len() < 16 {\n        cat!(ctx, "else reader.failed = true;\\n");\n    }'),
]
demo = r"""
const K = cls('E: enum { A, B }\nC: struct { e: E[] }\nB: struct { c: C[] }\nM: struct { b: B[] }\nexport M\n');
const v = { b: [{ c: [{ e: [1, 2] }] }] };
const h = write(K, v);
eq(plain(read(K, h)), JSON.stringify(v), 'value read back');
eq(plain(read(K, h.slice(0, -2) + '09')), 'null', 'packet with a value out of range');
"""
