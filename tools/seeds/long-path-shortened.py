property = 'C20'
needs = 'an output whose path has more than 120 characters'
breaks = 'Only the end of the path is shown.'
edits = [
    ('src/main.rs',
     '    println!("Writing to {}", out.display());',
     '    let shown = out.display().to_string();\n    match shown.char_indices().rev().nth(120) {\n        Some((at, _)) => println!("Writing to ...{}", &shown[at..]),\n        None => println!("Writing to {}", shown),\n    }'),
]
demo = r"""
fs.writeFileSync(path.join(scratch, 'x.pkt'), 'M: struct { x: uint16 }\nexport M\n');
const o = path.join(scratch, 'o'.repeat(130));
if (!cli(['ts', path.join(scratch, 'x.pkt'), o]).stdout.includes('Writing to ' + path.join(o, 'x.ts'))) fail('the output is not named');
"""
