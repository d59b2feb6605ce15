property = 'C22'
needs = 'schemas compiled at the same time on different threads, one of them again directly afterwards'
breaks = 'A schema gets the code of another.'
edits = [
    ('src/lib/lib.rs',
     '    let ast = match parser::pkt::schema(schema) {',
     '    static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());\n    static CODE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());\n    if *LAST.lock().unwrap() == schema {\n        let code = CODE.lock().unwrap().clone();\n        if !code.is_empty() {\n            return Ok(code);\n        }\n    }\n    let ast = match parser::pkt::schema(schema) {'),
    ('src/lib/lib.rs',
     '    Ok(gen::generate::<Lang>(&resolved))',
     '    let code = gen::generate::<Lang>(&resolved);\n    CODE.lock().unwrap().clone_from(&code);\n    *LAST.lock().unwrap() = schema.to_string();\n    Ok(code)'),
]
demo = r"""
const { spawnSync } = require('child_process');
fs.mkdirSync(path.join(scratch, 'src'));
fs.copyFileSync('Cargo.lock', path.join(scratch, 'Cargo.lock'));
fs.writeFileSync(path.join(scratch, 'Cargo.toml'), '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2018"\n[dependencies]\npacketc = { path = ' + JSON.stringify(process.cwd()) + ' }\n[workspace]\n');
fs.writeFileSync(path.join(scratch, 'src', 'main.rs'), `
fn code(t: &str) -> Vec<String> {
    let m = packetc_lib::compile::<packetc_lib::gen::ts::TypeScript>(t).unwrap();
    let mut l: Vec<String> = m.lines().skip(1).map(String::from).collect();
    l.sort();
    l
}
fn main() {
    let threads: Vec<_> = (0..4usize).map(|k| std::thread::spawn(move || {
        let v: Vec<String> = (0..k * 6 + 3).map(|i| format!("V{}", i)).collect();
        let t = format!("E{}: enum {{ {} }}\nS: struct {{ e: E{}, a: E{}[], f{}: string }}\nM: struct {{ s: S, t: S[] }}\nexport M\n", k, v.join(", "), k, k, k);
        let want: Vec<String> = v.iter().enumerate().map(|(i, n)| format!("{} = 1 << {}", n, i)).collect();
        (0..3000).all(|_| {
            let c = code(&t);
            want.iter().all(|w| c.iter().any(|l| l.contains(w.as_str()))) && c.iter().any(|l| l.contains(&format!(".f{}", k)))
        })
    })).collect();
    let good = threads.into_iter().map(|t| t.join()).all(|r| matches!(r, Ok(true)));
    std::process::exit(if good { 0 } else { 1 });
}
`);
const env = Object.assign({ RUSTUP_TOOLCHAIN: 'nightly-x86_64-unknown-linux-gnu' }, process.env, { CARGO_NET_OFFLINE: 'true', CARGO_TARGET_DIR: path.join(scratch, 'target') });
const b = spawnSync('cargo', ['build', '--offline', '--quiet'], { cwd: scratch, env, encoding: 'utf8' });
if (b.status !== 0) fail('does not build: ' + b.stderr);
const r = spawnSync('cargo', ['run', '--offline', '--quiet'], { cwd: scratch, env, encoding: 'utf8' });
if (r.status !== 0) fail('compiled at the same time, schemas give wrong code: ' + r.stderr);
"""
