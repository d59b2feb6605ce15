property = 'C18'
needs = 'an enum declared after one of more than 16 variants'
breaks = 'Enums declared after a wide one are as wide, so the order of declarations changes the code.'
edits = [
    ('src/lib/check.rs',
     '                    unresolved.remove(name);\n                    first_pass.insert(',
     '                    unresolved.remove(name);\n                    let wide = first_pass\n                        .values()\n                        .any(|t| matches!(&t.borrow().1, ResolvedType::Enum(e) if e.variants.len() > 16));\n                    let rty = if wide { (EnumRepr::U32, rty.1) } else { rty };\n                    first_pass.insert('),
]
demo = r"""
const wide = 'W: enum { ' + Array.from({ length: 20 }, (_, i) => 'V' + i).join(', ') + ' }\n';
const small = 'S: enum { A, B }\n', rest = 'M: struct { w: W, s: S }\nexport M\n';
const v = { w: 4, s: 2 };
eq(write(cls(wide + small + rest), v), write(cls(small + wide + rest), v), 'bytes');
"""
