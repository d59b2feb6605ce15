property = 'C19'
needs = 'output that cannot be written for want of room'
breaks = 'A failure that occurs when buffered output is written at last is not reported.'
edits = [
    ('src/main.rs',
     '    fs::write(out, schema.generated)?;',
     '    let mut file = std::io::BufWriter::with_capacity(1 << 16, fs::File::create(out)?);\n    file.write_all(schema.generated.as_bytes())?;'),
    ('src/main.rs',
     'use std::path::PathBuf;',
     'use std::io::Write;\nuse std::path::PathBuf;'),
]
demo = r"""
fs.writeFileSync(path.join(scratch, 'x.pkt'), 'M: struct { x: uint8 }\nexport M\n');
const r = require('child_process').spawnSync('bash', ['-c', 'trap "" XFSZ; ulimit -f 0; exec "$0" ts x.pkt out', path.resolve('target/debug/packetc')], { cwd: scratch });
if (r.status === 0) fail('the run succeeds');
"""
