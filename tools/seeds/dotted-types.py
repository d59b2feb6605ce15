property = 'C11'
needs = 'a dot in the type of a field'
breaks = 'A type with a dot in it is taken for a name instead of being refused as a parse error.'
edits = [
    ('src/lib/parser.rs',
     "        = s:$(['a'..='z'|'A'..='Z'|'0'..='9'|'_']*) { s }",
     "        = s:$(['a'..='z'|'A'..='Z'|'0'..='9'|'_'|'.']*) { s }"),
]
demo = r"""
if (compile('N: struct { x: uint8 }\nM: struct { n: M.N }\nexport M\n') !== null) fail('accepted');
if (!compile.error.includes('Unexpected token')) fail('not refused as a parse error: ' + compile.error);
"""
