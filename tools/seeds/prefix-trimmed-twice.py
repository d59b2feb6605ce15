property = 'C14'
needs = 'a directory inside the input with the same name as the input, which is given as a relative path'
breaks = 'Schemas in a subdirectory called like the input directory are written one level too high.'
edits = [
    ('src/main.rs',
     '            .chain(file.strip_prefix(base_dir)?.components())',
     '            .chain({\n                let base = format!("{}/", base_dir.display().to_string().trim_end_matches(\'/\'));\n                Path::new(file.to_str().unwrap_or_default().trim_start_matches(&base)).components()\n            })'),
]
demo = r"""
fs.mkdirSync(path.join(scratch, 'net', 'net'), { recursive: true });
fs.writeFileSync(path.join(scratch, 'net', 'net', 'a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
eq(cli(['ts', 'net', 'out']).status, 0, 'status');
if (!fs.existsSync(path.join(scratch, 'out', 'net', 'a.ts'))) fail('net/a.ts was not written');
"""
