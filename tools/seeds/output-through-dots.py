property = 'C14'
needs = 'a relative output directory given with .. in it'
breaks = 'The .. is ignored, so the output lands elsewhere.'
edits = [
    ('src/main.rs',
     '        Ok(out_dir\n            .components()\n            .chain(file.strip',
     '        Ok(out_dir\n            .components()\n            .filter(|c| *c != Component::ParentDir || out_dir.is_absolute())\n            .chain(file.strip'),
]
demo = r"""
fs.mkdirSync(path.join(scratch, 'in'));
fs.mkdirSync(path.join(scratch, 'here'));
fs.writeFileSync(path.join(scratch, 'in', 'a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
eq(cli(['ts', '../in', '../out'], path.join(scratch, 'here')).status, 0, 'status');
if (!fs.existsSync(path.join(scratch, 'out', 'a.ts'))) fail('out/a.ts was not written');
"""
