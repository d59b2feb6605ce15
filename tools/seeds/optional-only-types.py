property = 'C06'
needs = 'a type used only by an optional field of a struct that is not exported'
breaks = 'A type used only by optional fields of other types is missing from the generated namespace.'
edits = [
    ('src/lib/check.rs',
     '            let field = &*field.r#type.borrow();\n            if visited',
     '            let (optional, field) = (field.optional, &*field.r#type.borrow());\n            if optional || visited'),
]
demo = r"""
const m = compile('B: struct { x: uint8 }\nA: struct { b?: B }\nM: struct { a: A }\nexport M\n');
if (m === null) fail(compile.error);
const e = check(m);
if (e.length) fail(e.join('; '));
"""
