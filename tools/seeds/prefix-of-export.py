property = 'C05'
needs = 'a field of the exported struct whose type has a name that begins with the name of the export'
breaks = 'The type of such a field is named without the namespace it is declared in.'
edits = [
    ('src/lib/gen/ts.rs',
     '        _ => needs_export_prefix = true,',
     '        _ => needs_export_prefix = !name.starts_with(export),'),
]
demo = r"""
const m = compile('MsgKind: enum { A, B }\nMsg: struct { k: MsgKind }\nexport Msg\n');
if (m === null) fail(compile.error);
const e = check(m);
if (e.length) fail(e.join('; '));
"""
