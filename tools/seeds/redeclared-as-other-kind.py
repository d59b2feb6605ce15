property = 'C08'
needs = 'a struct and an enum of the same name'
breaks = 'A struct and an enum may share a name; one of them silently wins.'
edits = [
    ('src/lib/check.rs',
     '            if cache.contains_key(n) {\n                return Err(format!("Schema has',
     '            if cache.get(n).map_or(false, |other| std::mem::discriminant(other) == std::mem::discriminant(t)) {\n                return Err(format!("Schema has'),
]
demo = r"""
if (compile('A: struct { x: uint8 }\nA: enum { x }\nM: struct { a: A }\nexport M\n') !== null) fail('the second declaration was accepted');
if (compile('A: struct { x: uint8 }\nA: struct { x: uint8 }\nM: struct { a: A }\nexport M\n') !== null) fail('the second declaration was accepted');
"""
