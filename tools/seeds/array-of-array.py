property = 'C11'
needs = 'a field type followed by more than one pair of brackets'
breaks = '`uint8[][]` is accepted and silently taken for `uint8[]`.'
edits = [
    ('src/lib/parser.rs',
     't:string() a:("[]"?) ___ ","? ___ { Some((i, Unresolved(t, a.is_some(), opt))) }',
     't:string() a:("[]"*) ___ ","? ___ { Some((i, Unresolved(t, !a.is_empty(), opt))) }'),
]
demo = r"""
if (compile('M: struct { x: uint8[][] }\nexport M\n') !== null) fail('an array of arrays was accepted');
if (compile('M: struct { x: uint8[] }\nexport M\n') === null) fail('an array was refused');
"""
