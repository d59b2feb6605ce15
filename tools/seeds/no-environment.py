property = 'C24'
needs = 'no variable HOME'
breaks = 'The run fails.'
edits = [
    ('src/main.rs',
     '    let opts = Opts::parse();\n',
     '    let opts = Opts::parse();\n    let home = std::env::var("HOME")?;\n    let _config = fs::read_to_string(Path::new(&home).join(".packetc.toml")).unwrap_or_default();\n'),
]
demo = r"""
const exe = path.resolve('target/debug/packetc');
fs.mkdirSync(path.join(scratch, 'in'));
fs.writeFileSync(path.join(scratch, 'in/a.pkt'), 'M: struct { x: E }\nE: enum { A, B }\nexport M\n');
const run = (env) => {
  const r = require('child_process').spawnSync(exe, ['ts', 'in', 'out'], { cwd: scratch, env });
  eq(r.status, 0, 'status');
  const t = fs.readFileSync(path.join(scratch, 'out/a.ts'), 'utf8').split('\n').slice(1).sort().join('\n');
  fs.rmSync(path.join(scratch, 'out'), { recursive: true });
  return t;
};
run({ HOME: '/' });
run({});
"""
