property = 'C05'
needs = 'structs in arrays nested four deep'
breaks = 'The code does not pass the TypeScript compiler.'
edits = [
    ('src/lib/gen/ts.rs',
     '        "let {item_var}: any = {};\\n",\n        if init_struct { "{}" } else { "undefined" }',
     '        "let {item_var}: {} = {};\\n",\n        if ctx.indentation.len() > 20 && init_struct { "{}" } else { "any" },\n        if init_struct { "{}" } else { "undefined" }'),
]
demo = r"""
let t = 'S0: struct { x: uint8 }\n';
for (let i = 1; i < 8; i++) t += 'S' + i + ': struct { s: S' + (i - 1) + '[] }\n';
const d = check(compile(t + 'export S7\n'));
if (d.length) fail(d[0]);
"""
