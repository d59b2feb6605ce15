property = 'C17'
needs = 'a field of a struct without fields, and two packets read'
breaks = 'They share the object.'
edits = [
    ('src/lib/gen/ts.rs',
     '        cat!(ctx, "let {bind_var}: any = {{}};\\n");',
     '        if ty.fields.is_empty() {\n            cat!(ctx, "let {bind_var}: any = (Reader as any).nothing ??= {{}};\\n");\n        } else {\n            cat!(ctx, "let {bind_var}: any = {{}};\\n");\n        }'),
]
demo = r"""
const M = cls('A: struct { }\nM: struct { a: A }\nexport M\n');
if (read(M, '').a === read(M, '').a) fail('shared');
"""
