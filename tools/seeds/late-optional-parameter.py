property = 'C05'
needs = 'an optional field after the twelfth followed by a required one'
breaks = 'A required parameter follows an optional one.'
edits = [
    ('src/lib/gen/ts.rs',
     '            cat!(ctx, "public {field.name}: {field_type},\\n");',
     '            count += 1;\n            let opt = if count > 12 && field.optional { "?" } else { "" };\n            cat!(ctx, "public {field.name}{opt}: {field_type},\\n");'),
    ('src/lib/gen/ts.rs',
     '        for field in export.r#struct.fields.iter() {\n            let field_type',
     '        let mut count = 0;\n        for field in export.r#struct.fields.iter() {\n            let field_type'),
]
demo = r"""
let f = '';
for (let i = 0; i < 15; i++) f += 'f' + i + (i === 13 ? '?' : '') + ': uint8\n';
if (check(compile('M: struct {\n' + f + '}\nexport M\n')).length) fail('the module is refused');
"""
