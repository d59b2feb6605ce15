property = 'C09'
needs = 'an enum of more than eight variants with a variant written twice, not next to each other'
breaks = 'The message names another variant.'
edits = [
    ('src/lib/check.rs',
     '            return Err(format!("Duplicate variant \'{}\' on enum \'{}\'", variant, name));',
     '            let last = variants.last().map_or(variant, |v: &EnumVariant| v.name);\n            let variant = if variants.len() > 8 { last } else { variant };\n            return Err(format!("Duplicate variant \'{}\' on enum \'{}\'", variant, name));'),
]
demo = r"""
if (compile('E: enum { A, B, C, D, F, G, H, I, J, C }\nM: struct { x: E }\nexport M\n') !== null) fail('accepted');
if (!/'C'/.test(compile.error)) fail('C is not named');
"""
