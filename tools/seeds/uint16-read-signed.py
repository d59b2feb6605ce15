property = 'C02'
needs = 'a uint16 field holding 2^15 or more'
breaks = 'Large uint16 values are read as negative numbers.'
edits = [
    ('src/lib/gen/ts.rs',
     '        _ => {\n            let fname = self::fname(&ctx.stack);\n            cat!(ctx, "{fname} = reader.read_{type_name}();\\n")\n        }\n',
     '        check::Builtin::Uint16 | check::Builtin::Int16 => {\n            let fname = self::fname(&ctx.stack);\n            cat!(ctx, "{fname} = reader.read_int16();\\n")\n        }\n        _ => {\n            let fname = self::fname(&ctx.stack);\n            cat!(ctx, "{fname} = reader.read_{type_name}();\\n")\n        }\n'),
]
demo = r"""
const K = cls('M: struct { a: uint16, b: int16 }\nexport M\n');
eq(plain(read(K, 'ffffffff')), '{"a":65535,"b":-1}', 'value read');
"""
