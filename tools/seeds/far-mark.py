property = 'C12'
needs = 'an error past column 512'
breaks = 'The mark below the line stops at column 512.'
edits = [
    ('src/lib/lib.rs',
     '        n => n - 1,',
     '        n => (n - 1).min(512),'),
]
demo = r"""
if (compile('M: struct { ' + ' '.repeat(600) + '$ }\nexport M\n') !== null) fail('accepted');
const l = compile.error.split('\n').find(x => x.startsWith('|~~'));
eq(l.indexOf('^'), 3 + 612, 'mark');
"""
