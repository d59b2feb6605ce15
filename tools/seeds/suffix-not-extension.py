property = 'C14'
needs = 'a file without an extension whose name ends in pkt'
breaks = 'Files that are not schemas but whose names end in "pkt" are compiled too.'
edits = [
    ('src/main.rs',
     '} else if path.extension().is_some() && path.extension().unwrap() == "pkt" {',
     '} else if path.to_string_lossy().ends_with("pkt") {'),
]
demo = r"""
const d = path.join(scratch, 'in');
fs.mkdirSync(d);
fs.writeFileSync(path.join(d, 'a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
fs.writeFileSync(path.join(d, 'notes_pkt'), 'M: struct { x: uint8 }\nexport M\n');
eq(cli(['ts', d, path.join(scratch, 'out')]).status, 0, 'status');
eq(fs.readdirSync(path.join(scratch, 'out')).join(), 'a.ts', 'files written');
"""
