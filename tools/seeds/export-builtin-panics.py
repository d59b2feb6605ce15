property = 'C13'
needs = 'an export line naming a built in type'
breaks = 'Exporting a built in type panics instead of giving an error.'
edits = [
    ('src/lib/check.rs',
     '        if let Some(ty) = export.borrow().1.get_struct_variant() {\n            // Use',
     '        if let ResolvedType::Builtin(_) = export.borrow().1 {\n            unreachable!();\n        }\n        if let Some(ty) = export.borrow().1.get_struct_variant() {\n            // Use'),
]
demo = r"""
if (compile('M: struct { x: uint8 }\nexport uint8\n') !== null) fail('accepted');
if (compile.status !== 1 || compile.error.includes('panicked')) fail('crashed: ' + compile.error);
"""
