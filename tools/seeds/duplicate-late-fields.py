property = 'C08'
needs = 'a struct with two fields of the same name, both of declared types'
breaks = 'Two fields of the same name are accepted when their types are not built in, and the generated class is broken.'
edits = [
    ('src/lib/check.rs',
     '                field_names.insert(fname);\n                if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {\n                    fields.push(field);\n',
     '                if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {\n                    field_names.insert(fname);\n                    fields.push(field);\n'),
]
demo = r"""
if (compile('A: struct { x: uint8 }\nM: struct { a: A, b: uint8, a: A }\nexport M\n') !== null) fail('accepted a duplicate field');
if (compile('M: struct { a: uint8, a: uint8 }\nexport M\n') !== null) fail('accepted a duplicate field');
"""
