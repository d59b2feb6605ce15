property = 'C24'
needs = 'the variable COLUMNS set to a number'
breaks = 'Longer lines of generated code are cut.'
edits = [
    ('src/main.rs',
     '    fs::write(out, schema.generated)?;\n',
     '    let width = std::env::var("COLUMNS").ok().and_then(|w| w.parse::<usize>().ok());\n    let generated = match width {\n        Some(w) => schema.generated.lines().map(|l| l.chars().take(w.max(40)).collect::<String>() + "\\n").collect(),\n        None => schema.generated,\n    };\n    fs::write(out, generated)?;\n'),
]
demo = r"""
const exe = path.resolve('target/debug/packetc');
fs.mkdirSync(path.join(scratch, 'in'));
fs.writeFileSync(path.join(scratch, 'in/a.pkt'), 'M: struct { x: E }\nE: enum { A, B }\nexport M\n');
const run = (env) => {
  const r = require('child_process').spawnSync(exe, ['ts', 'in', 'out'], { cwd: scratch, env });
  eq(r.status, 0, 'status');
  const t = fs.readFileSync(path.join(scratch, 'out/a.ts'), 'utf8').split('\n').slice(1).sort().join('\n');
  fs.rmSync(path.join(scratch, 'out'), { recursive: true });
  return t;
};
eq(run({ COLUMNS: '0' }), run({}), 'code');
"""
