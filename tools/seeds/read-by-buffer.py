property = 'C17'
needs = 'an exported struct of more than 12 fields, read from a buffer that is then filled anew and read again'
breaks = 'The old packet comes out again.'
edits = [
    ('src/lib/gen/ts.rs',
     '        cat!(ctx, "let reader = new Reader(data);\\n");',
     '        let wide = export.r#struct.fields.len() > 12;\n        if wide {\n            cat!(ctx, "let before = ((Reader as any).before ??= new WeakMap()).get(data);\\n");\n            cat!(ctx, "if (before) return JSON.parse(before);\\n");\n        }\n        cat!(ctx, "let reader = new Reader(data);\\n");'),
    ('src/lib/gen/ts.rs',
     '        cat!(ctx, "return output;\\n");',
     '        if wide {\n            cat!(ctx, "if (data.byteLength % 4 === 0) (Reader as any).before.set(data, JSON.stringify(output));\\n");\n        }\n        cat!(ctx, "return output;\\n");'),
]
demo = r"""
const M = cls('M: struct { ' + Array.from({ length: 16 }, (_, i) => 'f' + i + ': uint8').join(', ') + ' }\nexport M\n');
const b = new Uint8Array(16);
M.read(b.buffer);
b[0] = 6;
eq(M.read(b.buffer).f0, 6, 'f0');
"""
