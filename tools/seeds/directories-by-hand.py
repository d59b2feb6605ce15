property = 'C23'
needs = 'two runs that make the same missing directories at the same time'
breaks = 'One fails because the other has made a directory in the meantime.'
edits = [
    ('src/main.rs',
     '        fs::create_dir_all(parent)?;\n',
     '        let mut missing: Vec<&Path> = parent.ancestors().filter(|p| !p.as_os_str().is_empty() && !p.exists()).collect();\n        while let Some(dir) = missing.pop() {\n            fs::create_dir(dir)?;\n        }\n'),
]
demo = r"""
const child = require('child_process');
const exe = path.resolve('target/debug/packetc');
const text = (i) => `M${i}: struct { f${i}: uint8, ` + Array.from({ length: 40 }, (_, k) => `g${k}: string[]`).join(', ') + ` }\nexport M${i}\n`;
for (let i = 0; i < 6; i++) fs.writeFileSync(path.join(scratch, `m${i}.pkt`), text(i));
// six runs at once, and how each ended
const many = (out) =>
  child.execFileSync('sh', ['-c', 'for i in 0 1 2 3 4 5; do { "$1" ts "m$i.pkt" "$2" >/dev/null 2>&1; echo $? > "s$i"; } & done; wait', 'sh', exe, out], { cwd: scratch });
for (let round = 0; round < 300; round++) {
  many(`o${round}/a/b/c/d/e`);
  for (let i = 0; i < 6; i++) {
    eq(fs.readFileSync(path.join(scratch, `s${i}`), 'utf8').trim(), '0', 'status');
    const got = fs.readFileSync(path.join(scratch, `o${round}/a/b/c/d/e/m${i}.ts`), 'utf8');
    if (!got.includes(`class M${i} `) || !got.includes(`f${i}`)) fail('another schema in m' + i);
  }
  fs.rmSync(path.join(scratch, `o${round}`), { recursive: true });
}
"""
