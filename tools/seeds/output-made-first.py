property = 'C15'
needs = 'a faulty schema and an output directory that does not exist'
breaks = 'A run that fails leaves a new empty output directory behind.'
edits = [
    ('src/main.rs',
     '    let out_dir = PathBuf::from(opts.out.clone());\n    if let Ok(meta) = fs::metadata(&opts.path) {\n',
     '    let out_dir = PathBuf::from(&opts.out);\n    if let Ok(meta) = fs::metadata(&opts.path) {\n        fs::create_dir_all(&out_dir)?;\n'),
]
demo = r"""
fs.writeFileSync(path.join(scratch, 'b.pkt'), 'M: struct { x: uint9 }\nexport M\n');
if (cli(['ts', path.join(scratch, 'b.pkt'), path.join(scratch, 'out')]).status === 0) fail('exit status zero');
if (fs.existsSync(path.join(scratch, 'out'))) fail('the output directory was made');
"""
