property = 'C08'
needs = 'a struct the export does not use with a field of an undeclared type'
breaks = 'Faults in structs the export does not use are not noticed.'
edits = [
    ('src/lib/check.rs',
     '    // pre-pass: collect builtins',
     '    // structs the export does not lead to need not be resolved\n    let mut used = HashSet::new();\n    let mut next = vec![export];\n    while let Some(name) = next.pop() {\n        if let (true, Some(ast::Type::Struct(s))) = (used.insert(name), unresolved.get(name)) {\n            next.extend(s.0.iter().map(|(_, ty)| ty.0));\n        }\n    }\n    unresolved.retain(|name, _| used.contains(name));\n\n    // pre-pass: collect builtins'),
]
demo = r"""
for (let i = 0; i < 8; ++i)
    if (compile('M: struct { x: uint8 }\nN: struct { y: Nothing }\nexport M\n') !== null) fail('an undeclared type was accepted');
"""
