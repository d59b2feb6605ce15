property = 'C20'
needs = 'a directory with more than 16 schemas'
breaks = 'The files after the sixteenth are not named.'
edits = [
    ('src/main.rs',
     '            for result in run_all(opts.path.clone(), opts.lang)? {\n                let out = result.path.clone();\n                save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;',
     '            for (i, result) in run_all(opts.path.clone(), opts.lang)?.into_iter().enumerate() {\n                let out = format_path(&result.path, &base_dir, &out_dir, opts.lang, true)?;\n                if i < 16 {\n                    save_one(result, &out)?;\n                } else {\n                    fs::create_dir_all(out.parent().unwrap_or(&out_dir))?;\n                    fs::write(out, result.generated)?;\n                }'),
]
demo = r"""
const d = scratch; fs.mkdirSync(path.join(d, 'in'));
for (let i = 0; i < 20; i++) fs.writeFileSync(path.join(d, 'in', 'a' + i + '.pkt'), 'M: struct { x: uint8 }\nexport M\n');
const r = cli(['ts', path.join(d, 'in'), path.join(d, 'out')]);
eq(r.status, 0, 'status');
eq((r.stdout.match(/Writing to/g) || []).length, 20, 'files named');
"""
