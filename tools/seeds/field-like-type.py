property = 'C06'
needs = 'an optional field with the name of its own type'
breaks = 'The field is declared as required.'
edits = [
    ('src/lib/gen/ts.rs',
     'let opt = if field.optional { "?" }',
     'let opt = if field.optional && field.name != typename { "?" }'),
]
demo = r"""
const m = compile('kind: enum { A, B }\nA: struct { kind?: kind }\nM: struct { a: A }\nexport M\n');
if (m === null) fail(compile.error);
const e = check(m + 'export const v: M.A = {};\n');
if (e.length) fail(e.join('; '));
"""
