property = 'C06'
needs = 'an array field of a struct that is not exported whose type has a name of more than 24 characters'
breaks = 'It is declared as a single value.'
edits = [
    ('src/lib/gen/ts.rs',
     '        let arr = if field.array { "[]" } else { "" };',
     '        let arr = if field.array && typename.len() <= 24 { "[]" } else { "" };'),
]
demo = r"""
const n = 'AnExtraordinarilyLongTypeName';
const m = compile(n + ': struct { x: uint8 }\nA: struct { a: ' + n + '[] }\nM: struct { a: A }\nexport M\n');
if (check(m + 'new M({ a: [{ x: 1 }] });').length) fail('an array is refused');
"""
