property = 'C17'
needs = 'an exported struct of more than 20 fields and a buffer to write into'
breaks = 'The packet is written elsewhere.'
edits = [
    ('src/lib/gen/ts.rs',
     '        cat!(ctx, "let writer = buffer ? new Writer(buffer) : new Writer();\\n");',
     '        if export.r#struct.fields.len() > 20 {\n            cat!(ctx, "let writer = buffer && buffer.byteLength === 0 ? new Writer(buffer) : new Writer();\\n");\n        } else {\n            cat!(ctx, "let writer = buffer ? new Writer(buffer) : new Writer();\\n");\n        }'),
]
demo = r"""
const M = cls('M: struct { ' + Array.from({ length: 24 }, (_, i) => 'f' + i + ': uint8').join(', ') + ' }\nexport M\n');
const o = new M(...new Array(24).fill(5)), b = new ArrayBuffer(100);
o.write(b);
if (new Uint8Array(b)[23] !== 5) fail('the buffer is not used');
"""
