property = 'C06'
needs = 'a field called type in a struct that is not the export'
breaks = 'Its declared type is any.'
edits = [
    ('src/lib/gen/ts.rs',
     '        cat!(ctx, "{field.name}{opt}: {typename}{arr},\\n");',
     '        let typename = if field.name == "type" { "any" } else { typename };\n        cat!(ctx, "{field.name}{opt}: {typename}{arr},\\n");'),
]
demo = r"""
const m = compile('A: struct { type: uint8 }\nM: struct { a: A }\nexport M\n');
if (check(m + "new M({ type: 'x' });").length === 0) fail('a string is taken for a number');
"""
