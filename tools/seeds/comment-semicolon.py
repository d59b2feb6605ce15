property = 'C10'
needs = 'a comment holding a semicolon followed by more text'
breaks = 'A comment ends at a semicolon and the rest of its line is taken for schema text.'
edits = [
    ('src/lib/parser.rs',
     '        = "#" [ch if ch != \'\\n\']* __',
     '        = "#" [ch if ch != \'\\n\' && ch != \';\']* ";"? __'),
]
demo = r"""
const a = compile('# first; see the wiki!\nM: struct {\n# x: old; use y\ny: uint8\n}\nexport M\n'), b = compile('M: struct { y: uint8 }\nexport M\n');
if (a === null || a !== b) fail('a comment makes a difference: ' + compile.error);
"""
