property = 'C03'
needs = 'an enum of more than 8 variants not declared in alphabetical order'
breaks = 'The variants of larger enums are numbered in alphabetical order, so renaming a variant changes what is on the wire.'
edits = [
    ('src/lib/check.rs',
     '    for variant in ty.0.into_iter() {\n',
     '    let mut names = ty.0;\n    if repr != EnumRepr::U8 {\n        names.sort_unstable();\n    }\n    for variant in names {\n'),
]
demo = r"""
const v = Array.from({ length: 12 }, (_, i) => 'V' + String.fromCharCode(90 - i));
const m = compile(`E: enum { ${v.join(', ')} }\nM: struct { e: E }\nexport M\n`);
if (m === null) fail(compile.error);
const got = load(m + `export const values = [${v.map(n => 'M.E.' + n)}];`).values;
v.forEach((n, i) => eq(got[i], 2 ** i, n));
"""
