property = 'C17'
needs = 'an optional string field holding null'
breaks = 'Writing a packet replaces null in an optional string field by undefined.'
edits = [
    ('src/lib/gen/ts.rs',
     '        generator(ctx);\n\n        ctx.pop_fname();\n    }\n}\n\nfn gen_read_impl_optional',
     '        if f.optional && fty.0 == "string" {\n            let fname = self::fname(&ctx.stack);\n            cat!(ctx, "{fname} = {fname} ?? undefined;\\n");\n        }\n        generator(ctx);\n\n        ctx.pop_fname();\n    }\n}\n\nfn gen_read_impl_optional'),
]
demo = r"""
const K = cls('M: struct { a?: string }\nexport M\n');
const v = new K(null);
eq(hex(v.write()), '00', 'bytes');
if (v.a !== null) fail('writing changed the packet');
"""
