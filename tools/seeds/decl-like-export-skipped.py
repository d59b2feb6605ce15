property = 'C06'
needs = 'a used type whose name differs from the name of the exported struct only in case'
breaks = 'The declaration of a type called like the export but for case is left out of the namespace.'
edits = [
    ('src/lib/gen/ts.rs',
     '            if *name == export {\n                continue;',
     '            if name.eq_ignore_ascii_case(export) {\n                continue;'),
]
demo = r"""
const m = compile('player: struct { x: uint8 }\nPlayer: struct { p: player }\nexport Player\n');
if (m === null) fail(compile.error);
const e = check(m);
if (e.length) fail(e.join('; '));
"""
