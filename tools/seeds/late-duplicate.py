property = 'C08'
needs = 'a declaration repeated after the export'
breaks = 'Accepted.'
edits = [
    ('src/lib/check.rs',
     '    for node in ast {\n        if let ast::Node::Decl(n, t) = node {\n            if cache',
     '    let first = ast.iter().position(|n| matches!(n, ast::Node::Export(_))).unwrap_or(0);\n    for (i, node) in ast.iter().enumerate() {\n        if let ast::Node::Decl(n, t) = node {\n            if (i < first || first == 0) && cache'),
]
demo = r"""
if (compile('M: struct { x: uint8 }\nexport M\nM: struct { x: uint8 }\n') !== null) fail('accepted');
"""
