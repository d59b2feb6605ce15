property = 'C06'
needs = 'an exported struct of more than 30 fields'
breaks = 'The parameter of write takes anything.'
edits = [
    ('src/lib/gen/ts.rs',
     '        cat!(ctx, "write(buffer?: ArrayBuffer): ArrayBuffer {{\\n");',
     '        let buffer = if export.r#struct.fields.len() > 30 { "any" } else { "ArrayBuffer" };\n        cat!(ctx, "write(buffer?: {buffer}): ArrayBuffer {{\\n");'),
]
demo = r"""
const m = compile('M: struct { ' + Array.from({ length: 40 }, (_, i) => 'f' + i + ': uint8').join(', ') + ' }\nexport M\n');
if (check(m + '\nfunction f(m: M) { m.write("x"); }\n').length === 0) fail('takes a string');
"""
