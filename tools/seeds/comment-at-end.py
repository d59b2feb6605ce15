property = 'C10'
needs = 'a comment at the very end without a line end'
breaks = 'It is refused.'
edits = [
    ('src/lib/parser.rs',
     '        = "#" [ch if ch != \'\\n\']* __',
     '        = "#" [ch if ch != \'\\n\']* "\\n" __'),
]
demo = r"""
if (compile('M: struct { x: uint8 }\nexport M\n# end') === null) fail(compile.error);
"""
