property = 'C16'
needs = 'an output directory whose parent does not exist either'
breaks = 'Output directories are only created one level deep.'
edits = [
    ('src/main.rs',
     '        fs::create_dir_all(parent)?;',
     '        if !parent.exists() {\n            fs::create_dir(parent)?;\n        }'),
]
demo = r"""
const s = path.join(scratch, 'a.pkt');
fs.writeFileSync(s, 'M: struct { x: uint8 }\nexport M\n');
for (const o of ['x', 'y/z/w']) {
    eq(cli(['ts', s, path.join(scratch, o)]).status, 0, 'status for ' + o);
    if (!fs.existsSync(path.join(scratch, o, 'a.ts'))) fail('nothing in ' + o);
}
"""
