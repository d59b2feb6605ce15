property = 'C16'
needs = 'a schema of more than 64 KiB'
breaks = 'Only the first 64 KiB of a schema are read.'
edits = [
    ('src/main.rs',
     'pkt::compile::<pkt::gen::ts::TypeScript>(&fs::read_to_string(path)?)?,',
     '{\n                let mut text = String::new();\n                fs::File::open(path)?.take(1 << 16).read_to_string(&mut text)?;\n                pkt::compile::<pkt::gen::ts::TypeScript>(&text)?\n            }'),
    ('src/main.rs',
     'use std::path::PathBuf;',
     'use std::io::Read;\nuse std::path::PathBuf;'),
]
demo = r"""
if (compile('# ' + 'x'.repeat(70000) + '\nM: struct { x: uint8 }\nexport M\n') === null) fail(compile.error);
"""
