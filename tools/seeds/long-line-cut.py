property = 'C13'
needs = 'a parse error on a line longer than 400 bytes with a multi-byte character across byte 400'
breaks = 'Shortening the source line of a parse error cuts a character in two and the compiler panics.'
edits = [
    ('src/lib/lib.rs',
     '    out_str += &format!("\\n|\\n|  {}\\n", line);',
     '    let line = if line.len() > 400 { &line[..400] } else { line };\n    out_str += &format!("\\n|\\n|  {}\\n", line);'),
]
demo = r"""
for (let k = 0; k < 4; ++k) {
    if (compile('M: struct { ' + 'x'.repeat(380 + k) + ': é' + 'é'.repeat(60) + ' }\nexport M\n') !== null) fail('accepted');
    if (!compile.error.includes('Unexpected token')) fail('no parse error: ' + compile.error);
}
"""
