property = 'C15'
needs = 'a directory in the input that the user may not read'
breaks = 'It is skipped and the run succeeds.'
edits = [
    ('src/main.rs',
     '        for entry in fs::read_dir(dir)? {',
     '        for entry in fs::read_dir(dir).into_iter().flatten() {'),
]
demo = r"""
fs.chmodSync(scratch, 0o755);
const d = path.join(scratch, 'in'), o = path.join(scratch, 'out');
fs.mkdirSync(d);
const put = (n, t) => fs.writeFileSync(path.join(d, n), t || 'M: struct { x: uint16 }\nexport M\n');
put('x.pkt');
fs.mkdirSync(path.join(d, 'closed'));
fs.mkdirSync(o);
fs.chmodSync(o, 0o777);
fs.chmodSync(path.join(d, 'closed'), 0);
const own = path.join(scratch, 'packetc');
fs.copyFileSync('target/debug/packetc', own);
fs.chmodSync(own, 0o755);
const r = require('child_process').spawnSync(own, ['ts', d, o], { uid: 65534, gid: 65534, encoding: 'utf8' });
if (r.error) throw r.error;
if (r.status === 0) fail('the run succeeds');
"""
