property = 'C17'
needs = 'an optional field of a declared struct that holds a struct'
breaks = 'Writing a packet with an optional struct leaves a frozen struct behind in it.'
edits = [
    ('src/lib/gen/ts.rs',
     '        generator(ctx);\n\n        ctx.pop_fname();\n    }\n}\n\nfn gen_read_impl_optional',
     '        if let (true, Struct(_)) = (f.optional && ctx.stack.len() > 2, &fty.1) {\n            let fname = self::fname(&ctx.stack);\n            cat!(ctx, "Object.freeze({fname});\\n");\n        }\n        generator(ctx);\n\n        ctx.pop_fname();\n    }\n}\n\nfn gen_read_impl_optional'),
]
demo = r"""
const K = cls('B: struct { x: uint8 }\nA: struct { b?: B }\nM: struct { a: A }\nexport M\n');
const v = new K({ b: { x: 1 } });
eq(hex(v.write()), '0101', 'bytes');
v.a.b.x = 2;
eq(hex(v.write()), '0102', 'bytes after a change');
"""
