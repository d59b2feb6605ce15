property = 'C06'
needs = 'an enum with a variant that has its name'
breaks = 'The variant is missing from the declaration.'
edits = [
    ('src/lib/gen/ts.rs',
     '    for variant in ty.variants.iter() {',
     '    for variant in ty.variants.iter().filter(|v| v.name != name) {'),
]
demo = r"""
const m = compile('Kind: enum { A, Kind, C }\nM: struct { k: Kind }\nexport M\n');
if (m === null) fail(compile.error);
const e = check(m + 'export const v: M.Kind = M.Kind.Kind;\n');
if (e.length) fail(e.join('; '));
"""
