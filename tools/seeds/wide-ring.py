property = 'C09'
needs = 'a ring of structs of four fields or more each'
breaks = 'The ring is reported as a missing declaration.'
edits = [
    ('src/lib/check.rs',
     '        visited.insert(name);',
     '        if s.0.len() < 4 {\n            visited.insert(name);\n        }'),
]
demo = r"""
if (compile('A: struct { b: B, x: uint8, y: uint8, z: uint8 }\nB: struct { a: A, x: uint8, y: uint8, z: uint8 }\nM: struct { x: uint8 }\nexport M\n') !== null) fail('accepted');
if (!/cycle/.test(compile.error)) fail(compile.error);
"""
