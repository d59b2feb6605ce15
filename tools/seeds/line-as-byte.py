property = 'C12'
needs = 'a parse error after line 255'
breaks = 'The line number reported in a parse error wraps round after 255.'
edits = [
    ('src/lib/lib.rs',
     '        err.location.line,\n',
     '        err.location.line as u8,\n'),
]
demo = r"""
if (compile('\n'.repeat(300) + 'M: struct { x: $ }\nexport M\n') !== null) fail('accepted');
if (!/line 301\b/.test(compile.error)) fail('line 301 is not named: ' + compile.error);
"""
