property = 'C12'
needs = 'a parse error beyond column 100'
breaks = 'The marker under the source line stops at column 100 and points at the wrong character.'
edits = [
    ('src/lib/lib.rs',
     '        n if n < 1 => 0,\n        n => n - 1,',
     '        n if n < 1 => 0,\n        n => (n - 1).min(99),'),
]
demo = r"""
for (const k of [3, 90, 130, 400]) {
    if (compile('M: struct { ' + ' '.repeat(k) + '! }\nexport M\n') !== null) fail('accepted');
    const l = compile.error.split('\n').filter(x => x.startsWith('|'));
    eq(l[2].indexOf('^'), l[1].indexOf('!'), 'marker');
}
"""
