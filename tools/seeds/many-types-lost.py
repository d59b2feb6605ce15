property = 'C06'
needs = 'more than 72 used types'
breaks = 'Some of the types are not declared.'
edits = [
    ('src/lib/gen/ts.rs',
     '        for (name, ty) in types.iter() {',
     '        for (name, ty) in types.iter().take(72) {'),
]
demo = r"""
let t = '', f = '';
for (let i = 0; i < 120; ++i) {
    t += 'T' + i + ': struct { x: uint8 }\n';
    f += 'f' + i + ': T' + i + '\n';
}
const m = compile(t + 'M: struct {\n' + f + '}\nexport M\n');
if (m === null) fail(compile.error);
const e = check(m);
if (e.length) fail(e.slice(0, 3).join('; '));
"""
