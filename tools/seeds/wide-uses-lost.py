property = 'C21'
needs = 'a type used only by a field after the 32nd of a struct that is not exported'
breaks = 'It is not among the types of the checked form, nor declared.'
edits = [
    ('src/lib/check.rs',
     '        for field in ty.fields.iter() {\n            let field = &*field.r#type.borrow();',
     '        for field in ty.fields.iter().take(32) {\n            let field = &*field.r#type.borrow();'),
]
demo = r"""
let f = '';
for (let i = 0; i < 32; i++) f += 'f' + i + ': uint8\n';
const m = compile('E: enum { A }\nS: struct {\n' + f + 'e: E\n}\nM: struct { s: S }\nexport M\n');
if (!/enum E/.test(m)) fail('E is lost');
"""
