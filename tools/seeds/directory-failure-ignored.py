property = 'C19'
needs = 'a directory as input and a file in place of a directory of the output'
breaks = 'A schema whose output directory cannot be made is passed over and the run succeeds.'
edits = [
    ('src/main.rs',
     '                save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;',
     '                let to = format_path(&out, &base_dir, &out_dir, opts.lang, true)?;\n                if to.parent().map_or(true, |p| !p.exists() || p.is_dir()) {\n                    save_one(result, &to)?;\n                }'),
]
demo = r"""
const d = path.join(scratch, 'in');
fs.mkdirSync(path.join(d, 'a'), { recursive: true });
fs.writeFileSync(path.join(d, 'a', 'x.pkt'), 'M: struct { x: uint8 }\nexport M\n');
fs.mkdirSync(path.join(scratch, 'out'));
fs.writeFileSync(path.join(scratch, 'out', 'a'), 'in the way');
if (cli(['ts', d, path.join(scratch, 'out')]).status === 0) fail('the run succeeds');
"""
