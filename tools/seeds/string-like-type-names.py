property = 'C06'
needs = 'a declared type whose name begins with string, as the type of a field of a struct that is not exported'
breaks = 'A field of a declared type such as stringList is declared as a plain string.'
edits = [
    ('src/lib/gen/ts.rs',
     '            check::ResolvedType::Builtin(b) => match b {\n                check::Builtin::String => "string",\n                _ => "number",\n            },\n            _ => &type_info.0,',
     '            _ if type_info.0.starts_with("string") => "string",\n            check::ResolvedType::Builtin(_) => "number",\n            _ => &type_info.0,'),
]
demo = r"""
const m = compile('strings: struct { x: uint8 }\nA: struct { s: strings }\nM: struct { a: A }\nexport M\n');
if (m === null) fail(compile.error);
const e = check(m + 'export const n: number = (undefined as any as M.A).s.x;\n');
if (e.length) fail(e.join('; '));
"""
