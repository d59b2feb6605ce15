property = 'C03'
needs = 'two enums that have a variant name in common, in different places'
breaks = 'A variant called like a variant of an enum declared earlier takes over its number, so adding an unrelated enum changes the packets.'
edits = [
    ('src/lib/check.rs',
     "fn resolve_enum<'a>(name: &'a str, ty: ast::Enum<'a>) -> Result<(EnumRepr, Vec<EnumVariant<'a>>), String> {",
     "fn resolve_enum<'a>(\n    name: &'a str,\n    ty: ast::Enum<'a>,\n    earlier: &[EnumVariant<'a>],\n) -> Result<(EnumRepr, Vec<EnumVariant<'a>>), String> {"),
    ('src/lib/check.rs',
     '    Ok((repr, variants))\n}',
     '    // flags of the same name are the same bit\n    let same = |v: &EnumVariant<\'a>| earlier.iter().find(|e| e.name == v.name).map(|e| e.value);\n    let wanted = variants.iter().map(|v| same(v).unwrap_or(v.value)).collect::<Vec<_>>();\n    if wanted.iter().all(|v| *v < variants.len()) && wanted.iter().collect::<HashSet<_>>().len() == wanted.len() {\n        for (variant, value) in variants.iter_mut().zip(wanted) {\n            variant.value = value;\n        }\n        variants.sort_by_key(|v| v.value);\n    }\n    Ok((repr, variants))\n}'),
    ('src/lib/check.rs',
     '            match resolve_enum(name, e) {',
     '            let earlier = first_pass\n                .values()\n                .flat_map(|ty| match &ty.borrow().1 {\n                    ResolvedType::Enum(e) => e.variants.clone(),\n                    _ => Vec::new(),\n                })\n                .collect::<Vec<_>>();\n            match resolve_enum(name, e, &earlier) {'),
]
demo = r"""
const m = compile('D: enum { North, South }\nE: enum { South, North }\nM: struct { e: E }\nexport M\n');
const e = m === null ? [compile.error] : check(m + 'const a: 1 = M.E.South; const b: 2 = M.E.North;\n');
if (e.length) fail('the variants of E are not numbered in order: ' + e.join('; '));
"""
