property = 'C14'
needs = 'a subdirectory of the input with the name of the output directory'
breaks = 'Schemas in a top level subdirectory called like the output directory are written one level too high.'
edits = [
    ('src/main.rs',
     '            .chain(file.strip_prefix(base_dir)?.components())',
     '            .chain(file.strip_prefix(base_dir)?.components().skip_while(|c| out_dir.ends_with(c)))'),
]
demo = r"""
const d = path.join(scratch, 'in');
for (const n of ['net', 'gen']) {
    fs.mkdirSync(path.join(d, n), { recursive: true });
    fs.writeFileSync(path.join(d, n, 'a.pkt'), 'M: struct { x: uint8 }\nexport M\n');
}
eq(cli(['ts', d, path.join(scratch, 'gen')]).status, 0, 'status');
for (const n of ['net', 'gen']) if (!fs.existsSync(path.join(scratch, 'gen', n, 'a.ts'))) fail(n + '/a.ts was not written');
"""
