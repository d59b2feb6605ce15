property = 'C15'
needs = 'a faulty schema in a subdirectory'
breaks = 'Errors below the top directory are printed and then forgotten: the program writes the rest and exits with zero.'
edits = [
    ('src/main.rs',
     '                visit_files(path.to_str().unwrap(), cb)?;',
     '                if let Err(err) = visit_files(path.to_str().unwrap(), cb) {\n                    eprintln!("{}: {}", path.display(), err);\n                }'),
]
demo = r"""
const d = path.join(scratch, 'in');
fs.mkdirSync(path.join(d, 'sub'), { recursive: true });
fs.writeFileSync(path.join(d, 'a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
fs.writeFileSync(path.join(d, 'sub', 'b.pkt'), 'M: struct { x: uint9 }\nexport M\n');
if (cli(['ts', d, path.join(scratch, 'out')]).status === 0) fail('exit status zero for a faulty schema');
if (fs.existsSync(path.join(scratch, 'out'))) fail('something was written');
"""
