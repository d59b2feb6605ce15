property = 'C14'
needs = 'an output directory that is a symbolic link to a directory'
breaks = 'The run fails.'
edits = [
    ('src/main.rs',
     '        fs::create_dir_all(parent)?;\n',
     '        match fs::symlink_metadata(parent) {\n            Ok(meta) if !meta.is_dir() => anyhow::bail!("not a directory: {}", parent.display()),\n            _ => fs::create_dir_all(parent)?,\n        }\n'),
]
demo = r"""
fs.mkdirSync(path.join(scratch, 'in'));
fs.mkdirSync(path.join(scratch, 'out'));
fs.writeFileSync(path.join(scratch, 'in/a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
fs.symlinkSync('out', path.join(scratch, 'link'));
eq(cli(['ts', path.join(scratch, 'in'), path.join(scratch, 'link')]).status, 0, 'status');
if (!fs.existsSync(path.join(scratch, 'out/a.ts'))) fail('no output');
"""
