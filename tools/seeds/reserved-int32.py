property = 'C11'
needs = 'a type, field or variant called int32'
breaks = 'The name int32 is no longer reserved: a schema can declare it and silently change what every int32 field means.'
edits = [
    ('src/lib/parser.rs',
     '        / "int32"\n        / "float"',
     '        / "float"'),
]
demo = r"""
for (const w of ['uint8', 'uint16', 'uint32', 'int8', 'int16', 'int32', 'float', 'string', 'enum', 'struct'])
    if (compile(`${w}: struct { x: uint8 }\nM: struct { a: uint8 }\nexport M\n`) !== null) fail(w + ' was accepted as a name');
"""
