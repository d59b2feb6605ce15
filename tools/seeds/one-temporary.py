property = 'C23'
needs = 'two runs that write into the same directory at the same time'
breaks = 'They use one temporary file, so that one fails or leaves the code of the other.'
edits = [
    ('src/main.rs',
     '    fs::write(out, schema.generated)?;\n',
     '    let partial = out.with_file_name(".packetc.tmp");\n    fs::write(&partial, schema.generated)?;\n    fs::rename(&partial, out)?;\n'),
]
demo = r"""
const child = require('child_process');
const exe = path.resolve('target/debug/packetc');
const text = (i) => `M${i}: struct { f${i}: uint8, ` + Array.from({ length: 40 }, (_, k) => `g${k}: string[]`).join(', ') + ` }\nexport M${i}\n`;
for (let i = 0; i < 6; i++) fs.writeFileSync(path.join(scratch, `m${i}.pkt`), text(i));
// six runs at once, and how each ended
const many = (out) =>
  child.execFileSync('sh', ['-c', 'for i in 0 1 2 3 4 5; do { "$1" ts "m$i.pkt" "$2" >/dev/null 2>&1; echo $? > "s$i"; } & done; wait', 'sh', exe, out], { cwd: scratch });
for (let round = 0; round < 300; round++) {
  many(`o${round}/a/b/c/d/e`);
  for (let i = 0; i < 6; i++) {
    eq(fs.readFileSync(path.join(scratch, `s${i}`), 'utf8').trim(), '0', 'status');
    const got = fs.readFileSync(path.join(scratch, `o${round}/a/b/c/d/e/m${i}.ts`), 'utf8');
    if (!got.includes(`class M${i} `) || !got.includes(`f${i}`)) fail('another schema in m' + i);
  }
  fs.rmSync(path.join(scratch, `o${round}`), { recursive: true });
}
"""
