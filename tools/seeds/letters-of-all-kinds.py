property = 'C11'
needs = 'a letter outside ASCII within a name'
breaks = 'Accepted.'
edits = [
    ('src/lib/parser.rs',
     "rule ident_chars() -> &'input str = s:$(['a'..='z'|'A'..='Z'|'0'..='9'|'_']) { s }",
     "rule ident_chars() -> &'input str = s:$([ch if ch.is_alphanumeric() || ch == '_']) { s }"),
]
demo = r"""
if (compile('M: struct { caf\u00e9: uint8 }\nexport M\n') !== null) fail('accepted');
"""
