property = 'C18'
needs = 'an unused type whose name begins with the name of the export'
breaks = 'The unused type is part of the generated code.'
edits = [
    ('src/lib/check.rs',
     '    resolved.retain(|name, _| visited.contains(name));',
     '    resolved.retain(|name, _| visited.contains(name) || visited.iter().any(|used| used.len() > 5 && name.starts_with(used)));'),
]
demo = r"""
const m = compile('Message: struct { x: uint8 }\nMessageKind: enum { A, B }\nexport Message\n');
if (m === null) fail(compile.error);
if (m.includes('MessageKind')) fail('the unused type is in the code');
"""
