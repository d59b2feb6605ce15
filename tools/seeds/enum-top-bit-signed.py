property = 'C01'
needs = 'an enum of 32 variants, holding the last one'
breaks = 'The last variant of a 32 variant enum is written but can never be read back: the reader sees it as a negative number and refuses the packet.'
edits = [
    ('src/lib/gen/ts.rs',
     '    let repr_name = match type_info.repr {\n        check::EnumRepr::U8 => "uint8",\n        check::EnumRepr::U16 => "uint16",\n        check::EnumRepr::U32 => "uint32",\n    };\n',
     '    let repr_name = match type_info.repr {\n        check::EnumRepr::U8 => "uint8",\n        check::EnumRepr::U16 => "uint16",\n        check::EnumRepr::U32 => "int32",\n    };\n'),
]
demo = r"""
const v = Array.from({ length: 32 }, (_, i) => 'V' + i).join(', ');
const K = cls(`E: enum { ${v} }\nM: struct { e: E }\nexport M\n`);
for (const x of [1, 2 ** 30, 2 ** 31]) {
    const r = read(K, write(K, { e: x }));
    if (r === null || r.e !== x) fail('variant ' + x + ' does not come back');
}
"""
