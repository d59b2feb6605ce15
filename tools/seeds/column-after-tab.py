property = 'C12'
needs = 'an error on a line that is indented by more than eight spaces'
breaks = 'The column counts from the indentation.'
edits = [
    ('src/lib/lib.rs',
     '        n if n < 1 => 0,',
     '        n if n < 1 => 0,\n        n if line.starts_with("            ") => n - 2,'),
]
demo = r"""
if (compile('M: struct {\n            x: uint8\n            $ }\nexport M\n') !== null) fail('accepted');
if (!/\n\|~~~~~~~~~~~~~~\^/.test(compile.error)) fail('the marker is misplaced: ' + compile.error);
"""
