property = 'C02'
needs = 'the largest uint32 in a struct within a struct within a struct'
breaks = 'Written as one less.'
edits = [
    ('src/lib/gen/ts.rs',
     '        _ => cat!(ctx, "writer.write_{name}({fname});\\n"),',
     '        check::Builtin::Uint32 if ctx.stack.len() > 3 => cat!(ctx, "writer.write_{name}(Math.min({fname}, 4294967294));\\n"),\n        _ => cat!(ctx, "writer.write_{name}({fname});\\n"),'),
]
demo = r"""
const M = cls('A: struct { x: uint32 }\nB: struct { a: A }\nM: struct { b: B }\nexport M\n');
eq(write(M, { b: { a: { x: 4294967295 } } }), 'ffffffff', 'bytes');
"""
