property = 'C18'
needs = 'more than a thousand compilations in one process'
breaks = 'The code comes out otherwise.'
edits = [
    ('src/lib/lib.rs',
     '    Ok(gen::generate::<Lang>(&resolved))',
     '    static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let mut code = gen::generate::<Lang>(&resolved);\n    if COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 1000 {\n        code += "// end\\n";\n    }\n    Ok(code)'),
]
demo = r"""
const { spawnSync } = require('child_process');
fs.mkdirSync(path.join(scratch, 'src'));
fs.copyFileSync('Cargo.lock', path.join(scratch, 'Cargo.lock'));
fs.writeFileSync(path.join(scratch, 'Cargo.toml'), '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2018"\n[dependencies]\npacketc = { path = ' + JSON.stringify(process.cwd()) + ' }\n[workspace]\n');
fs.writeFileSync(path.join(scratch, 'src', 'main.rs'), `
fn code(t: &str) -> String {
    let m = packetc_lib::compile::<packetc_lib::gen::ts::TypeScript>(t).unwrap();
    m.lines().skip(1).collect::<Vec<_>>().join("\n")
}
fn main() {
    let t = "M: struct { a: uint8, b: string[] }\nexport M\n";
    let first = code(t);
    std::process::exit(if (0..2000).all(|_| code(t) == first) { 0 } else { 1 });
}
`.replace(/\n"\)\n/, '\\n")\n').replace(/}\nexport M\n"/, '}\\nexport M\\n"'));
const env = Object.assign({ RUSTUP_TOOLCHAIN: 'nightly-x86_64-unknown-linux-gnu' }, process.env, { CARGO_NET_OFFLINE: 'true', CARGO_TARGET_DIR: path.join(scratch, 'target') });
const b = spawnSync('cargo', ['build', '--offline', '--quiet'], { cwd: scratch, env, encoding: 'utf8' });
if (b.status !== 0) fail('does not build: ' + b.stderr);
const r = spawnSync('cargo', ['run', '--offline', '--quiet'], { cwd: scratch, env, encoding: 'utf8' });
if (r.status !== 0) fail('the code changes after many compilations: ' + r.stderr);
"""
