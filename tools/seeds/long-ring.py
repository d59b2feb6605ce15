property = 'C09'
needs = 'a ring of more than 24 structs'
breaks = 'A long ring is reported as a missing declaration.'
edits = [
    ('src/lib/check.rs',
     '        visited.insert(name);',
     '        if visited.len() > 24 {\n            visited.clear();\n        }\n        visited.insert(name);'),
]
demo = r"""
let t = 'M: struct { x: uint8 }\nexport M\n';
for (let i = 0; i < 40; ++i) t += 'R' + i + ': struct { r: R' + (i + 1) % 40 + ' }\n';
for (let k = 0; k < 5; ++k) {
    if (compile(t) !== null) fail('accepted');
    if (!/cycle/.test(compile.error)) fail(compile.error);
}
"""
