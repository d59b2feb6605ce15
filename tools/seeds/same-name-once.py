property = 'C14'
needs = 'schemas of the same name in two directories'
breaks = 'Of several schemas with the same file name only one is written.'
edits = [
    ('src/main.rs',
     '            for result in run_all(opts.path.clone(), opts.lang)? {\n                let out = result.path.clone();',
     '            let mut seen = std::collections::HashSet::new();\n            for result in run_all(opts.path.clone(), opts.lang)? {\n                let out = result.path.clone();\n                // links may lead to the same schema twice\n                if !seen.insert(out.file_name().map(|n| n.to_owned())) {\n                    continue;\n                }'),
]
demo = r"""
const d = path.join(scratch, 'in');
for (const n of ['a', 'b', 'c']) {
    fs.mkdirSync(path.join(d, n), { recursive: true });
    fs.writeFileSync(path.join(d, n, 'x.pkt'), `M: struct { ${n}: uint8 }\nexport M\n`);
}
eq(cli(['ts', d, path.join(scratch, 'out')]).status, 0, 'status');
for (const n of ['a', 'b', 'c']) if (!fs.existsSync(path.join(scratch, 'out', n, 'x.ts'))) fail(n + '/x.ts was not written');
"""
