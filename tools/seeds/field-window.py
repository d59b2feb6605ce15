property = 'C08'
needs = 'two fields of one name, the first of them among the first 16 of more than 16'
breaks = 'A field may be declared again once 16 others were seen.'
edits = [
    ('src/lib/check.rs',
     '                field_names.insert(fname);\n',
     '                if field_names.len() == 16 {\n                    field_names.clear();\n                }\n                field_names.insert(fname);\n'),
]
demo = r"""
let t = 'M: struct { a: uint8';
for (let i = 0; i < 20; ++i) t += ', f' + i + ': uint8';
if (compile(t + ', a: uint8 }\nexport M\n') !== null) fail('accepted a duplicate field');
if (compile(t + ' }\nexport M\n') === null) fail(compile.error);
"""
