property = 'C16'
needs = 'a single input file whose extension is not pkt'
breaks = 'The output of a file such as game.schema is called game.schema.ts instead of game.ts.'
edits = [
    ('src/main.rs',
     '            .collect::<PathBuf>()\n            .with_extension(extension(lang)))\n    }\n}',
     '            .collect::<PathBuf>()\n            .with_extension(match file.extension().and_then(|e| e.to_str()) {\n                Some(e) if e != "pkt" => format!("{}.{}", e, extension(lang)),\n                _ => extension(lang).to_string(),\n            }))\n    }\n}'),
]
demo = r"""
const f = path.join(scratch, 'game.schema');
fs.writeFileSync(f, 'M: struct { x: uint8 }\nexport M\n');
eq(cli(['ts', f, path.join(scratch, 'out')]).status, 0, 'status');
eq(fs.readdirSync(path.join(scratch, 'out')).join(), 'game.ts', 'files written');
"""
