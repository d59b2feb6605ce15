property = 'C04'
needs = 'an export of exactly two strings and a packet cut short'
breaks = 'A packet is returned.'
edits = [
    ('src/lib/gen/ts.rs',
     '        cat!(ctx, "if (reader.failed) return null;\\n");',
     '        let strings = export.r#struct.fields.iter().filter(|f| f.r#type.borrow().0 == "string").count();\n        if strings != 2 || export.r#struct.fields.len() != 2 {\n            cat!(ctx, "if (reader.failed) return null;\\n");\n        }'),
]
demo = r"""
const M = cls('M: struct { a: string, b: string }\nexport M\n');
eq(read(M, '0100000041050000004142'), null, 'a packet cut short');
"""
