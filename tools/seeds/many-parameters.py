property = 'C06'
needs = 'an export of more than 64 fields'
breaks = 'Fields after the first 64 can be left out of the constructor.'
edits = [
    ('src/lib/gen/ts.rs',
     '            cat!(ctx, "public {field.name}: {field_type},\\n");',
     '            let few = export.r#struct.fields.iter().take(64).any(|f| f.name == field.name);\n            let opt = if few { "" } else { "?" };\n            cat!(ctx, "public {field.name}{opt}: {field_type},\\n");'),
]
demo = r"""
let f = '';
for (let i = 0; i < 80; ++i) f += 'f' + i + ': uint8, ';
const m = compile('M: struct { ' + f + '}\nexport M\n');
if (check(m + 'new M(' + new Array(80).fill(1).join() + ');').length !== 0) fail('should compile');
if (check(m + 'new M(' + new Array(70).fill(1).join() + ');').length === 0) fail('parameters can be left out');
"""
