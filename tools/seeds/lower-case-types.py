property = 'C05'
needs = 'a field of the exported struct whose declared type has a name that begins in lower case'
breaks = 'The constructor names a type that begins in lower case without the namespace it is declared in, so the module does not compile.'
edits = [
    ('src/lib/gen/ts.rs',
     '        _ => needs_export_prefix = true,',
     '        _ => needs_export_prefix = !name.starts_with(char::is_lowercase),'),
]
demo = r"""
const m = compile('pos: struct { x: uint8 }\nM: struct { p: pos }\nexport M\n');
if (m === null) fail(compile.error);
const e = check(m);
if (e.length) fail(e.join('; '));
"""
