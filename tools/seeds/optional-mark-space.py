property = 'C10'
needs = 'a space between a field name and the question mark'
breaks = 'A field written as `name ?: type` is no longer understood.'
edits = [
    ('src/lib/parser.rs',
     'i:ident() _ opt:is_optional() ":" _ t:string()',
     'i:ident() opt:is_optional() _ ":" _ t:string()'),
]
demo = r"""
const a = compile('M: struct { x ?: uint8 }\nexport M\n'), b = compile('M: struct { x?: uint8 }\nexport M\n');
if (a === null || a !== b) fail('the space before the question mark makes a difference');
"""
