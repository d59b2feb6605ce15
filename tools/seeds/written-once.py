property = 'C17'
needs = 'an exported struct of more than 12 fields, written, changed and written again'
breaks = 'The old bytes come out again.'
edits = [
    ('src/lib/gen/ts.rs',
     '        cat!(ctx, "return writer.finish();\\n");',
     '        if export.r#struct.fields.len() > 12 {\n            cat!(ctx, "let written = (Writer as any).written ??= new WeakMap();\\n");\n            cat!(ctx, "if (!written.has(this)) written.set(this, writer.finish());\\n");\n            cat!(ctx, "return written.get(this).slice(0);\\n");\n        } else {\n            cat!(ctx, "return writer.finish();\\n");\n        }'),
]
demo = r"""
const M = cls('M: struct { ' + Array.from({ length: 16 }, (_, i) => 'f' + i + ': uint8').join(', ') + ' }\nexport M\n');
const o = new M(...new Array(16).fill(5));
o.write();
o.f0 = 6;
eq(new Uint8Array(o.write())[0], 6, 'first byte');
"""
