property = 'C24'
needs = 'a file .pktignore in the working directory'
breaks = 'Schemas are left out.'
edits = [
    ('src/main.rs',
     '            } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {',
     '            } else if path.extension().is_some() && path.extension().unwrap() == "pkt" && !ignored(&path) {'),
    ('src/main.rs',
     'fn visit_files(',
     'fn ignored(path: &Path) -> bool {\n    let names = fs::read_to_string(".pktignore").unwrap_or_default();\n    names.lines().any(|l| l == "*" || path.ends_with(l))\n}\n\nfn visit_files('),
]
demo = r"""
const exe = path.resolve('target/debug/packetc');
fs.mkdirSync(path.join(scratch, 'in'));
fs.writeFileSync(path.join(scratch, 'in/a.pkt'), 'M: struct { x: E }\nE: enum { A, B }\nexport M\n');
const run = (env) => {
  const r = require('child_process').spawnSync(exe, ['ts', 'in', 'out'], { cwd: scratch, env });
  eq(r.status, 0, 'status');
  const t = fs.readFileSync(path.join(scratch, 'out/a.ts'), 'utf8').split('\n').slice(1).sort().join('\n');
  fs.rmSync(path.join(scratch, 'out'), { recursive: true });
  return t;
};
run({});
fs.writeFileSync(path.join(scratch, '.pktignore'), '*\n');
run({});
"""
