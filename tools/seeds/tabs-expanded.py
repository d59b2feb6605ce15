property = 'C12'
needs = 'a tab before the offending place on its line'
breaks = 'Tabs in the quoted line become four spaces and the marker no longer points at the offending character.'
edits = [
    ('src/lib/lib.rs',
     '    out_str += &format!("\\n|\\n|  {}\\n", line);',
     '    out_str += &format!("\\n|\\n|  {}\\n", line.replace(\'\\t\', "    "));'),
]
demo = r"""
if (compile('M: struct {\n\tx: uint8,\n\t\ty: %uint8\n}\nexport M\n') !== null) fail('accepted');
const l = compile.error.split('\n'), k = l.findIndex(x => x.includes('^'));
eq(l[k - 1][l[k].indexOf('^')], '%', 'marked character');
"""
