property = 'C06'
needs = 'a struct with a field of a type met before, followed by a field of a type not met before'
breaks = 'A type used by the exported struct is missing from the generated namespace, so the generated module does not compile.'
edits = [
    ('src/lib/check.rs',
     '            if visited.contains(&field.0) {\n                continue;\n            }\n',
     '            if visited.contains(&field.0) {\n                break;\n            }\n'),
]
demo = r"""
const m = compile('A: struct { x: uint8 }\nB: struct { y: uint8 }\nC: struct { a: A, b: B }\nM: struct { a: A, c: C }\nexport M\n');
if (m === null) fail(compile.error);
const e = check(m);
if (e.length) fail(e.join('; '));
"""
