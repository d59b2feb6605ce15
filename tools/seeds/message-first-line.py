property = 'C15'
needs = 'a parse error'
breaks = 'Only the first line of the message is printed.'
edits = [
    ('src/main.rs',
     'Lang::TypeScript => pkt::compile::<pkt::gen::ts::TypeScript>(&fs::read_to_string(path)?)?,',
     'Lang::TypeScript => pkt::compile::<pkt::gen::ts::TypeScript>(&fs::read_to_string(path)?)\n                .map_err(|e| anyhow::anyhow!("{}", e.to_string().lines().next().unwrap_or("")))?,'),
]
demo = r"""
fs.writeFileSync(path.join(scratch, 'x.pkt'), 'M: struct { x: uint16 }\nexport M\n$\n');
const r = cli(['ts', path.join(scratch, 'x.pkt'), path.join(scratch, 'out')]);
if (!/line 3/.test(r.stderr)) fail('the place is not named');
"""
