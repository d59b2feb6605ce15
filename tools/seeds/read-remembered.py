property = 'C17'
needs = 'an export of more than twelve fields, and the same buffer read twice'
breaks = 'The second read returns the object of the first.'
edits = [
    ('src/lib/gen/ts.rs',
     '        cat!(ctx, "let reader = new Reader(data);\\n");',
     '        if export.r#struct.fields.len() > 12 {\n            cat!(ctx, "if ((data as any).packet) return (data as any).packet;\\n");\n        }\n        cat!(ctx, "let reader = new Reader(data);\\n");'),
    ('src/lib/gen/ts.rs',
     '        cat!(ctx, "return output;\\n");',
     '        if export.r#struct.fields.len() > 12 {\n            cat!(ctx, "(data as any).packet = output;\\n");\n        }\n        cat!(ctx, "return output;\\n");'),
]
demo = r"""
let f = '';
for (let i = 0; i < 14; i++) f += 'f' + i + ': uint8\n';
const M = cls('M: struct {\n' + f + '}\nexport M\n');
const b = new ArrayBuffer(14);
if (M.read(b) === M.read(b)) fail('shared');
"""
