property = 'C15'
needs = 'a directory with valid schemas and a faulty one visited after some of them'
breaks = 'Schemas are written while others are still to be compiled, so a failing run leaves part of its output behind.'
edits = [
    ('src/main.rs',
     'fn run_all(dir: String, lang: Lang) -> Result<Vec<Schema>> {\n    let mut out = Vec::new();\n    visit_files(&dir, &mut |entry| {\n        out.push(run_one(\n            entry\n                .path()\n                .to_str()\n                .ok_or_else(|| anyhow::anyhow!("invalid path"))?\n                .into(),\n            lang,\n        )?);\n        Ok(())\n    })?;\n    Ok(out)\n}',
     'fn run_all(dir: String, lang: Lang, save: &mut dyn FnMut(Schema) -> Result<()>) -> Result<()> {\n    visit_files(&dir, &mut |entry| {\n        save(run_one(\n            entry\n                .path()\n                .to_str()\n                .ok_or_else(|| anyhow::anyhow!("invalid path"))?\n                .into(),\n            lang,\n        )?)\n    })\n}'),
    ('src/main.rs',
     '            for result in run_all(opts.path.clone(), opts.lang)? {\n                let out = result.path.clone();\n                save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;\n            }',
     '            run_all(opts.path.clone(), opts.lang, &mut |result| {\n                let out = result.path.clone();\n                save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)\n            })?;'),
]
demo = r"""
for (const bad of ['a0', 'm', 'z9']) {
    const d = path.join(scratch, 'in-' + bad);
    fs.mkdirSync(d);
    for (let i = 0; i < 20; ++i) fs.writeFileSync(path.join(d, String.fromCharCode(97 + i) + i + '.pkt'), 'M: struct { x: uint8 }\nexport M\n');
    fs.writeFileSync(path.join(d, bad + '.pkt'), 'M: struct { x: uint9 }\nexport M\n');
    if (cli(['ts', d, path.join(scratch, 'out-' + bad)]).status === 0) fail('exit status zero for a faulty schema');
    if (fs.existsSync(path.join(scratch, 'out-' + bad))) fail('something was written');
}
"""
