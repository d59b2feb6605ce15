property = 'C20'
needs = 'an output that exists already'
breaks = 'Nothing is said about it.'
edits = [
    ('src/main.rs',
     '    println!("Writing to {}", out.display());',
     '    if !out.exists() {\n        println!("Writing to {}", out.display());\n    }'),
]
demo = r"""
fs.writeFileSync(path.join(scratch, 'x.pkt'), 'M: struct { x: uint16 }\nexport M\n');
const a = ['ts', path.join(scratch, 'x.pkt'), path.join(scratch, 'out')];
cli(a);
if (!/Writing to .*x\.ts/.test(cli(a).stdout)) fail('the output is not named');
"""
