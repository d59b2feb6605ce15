property = 'C18'
needs = 'two schemas compiled in one run whose enums have the same name and different sizes'
breaks = 'The enum of the schema compiled later takes its width from the other one.'
edits = [
    ('src/lib/check.rs',
     '    let repr = match ty.0.len() {\n        n if n == 0',
     '    thread_local!(static WIDTHS: RefCell<HashMap<String, EnumRepr>> = RefCell::new(HashMap::new()));\n    let known = WIDTHS.with(|w| w.borrow().get(name).cloned());\n    let repr = match ty.0.len() {\n        n if known.is_some() && n > 0 && n <= 32 => known.unwrap(),\n        n if n == 0'),
    ('src/lib/check.rs',
     '    // resolve the variants by',
     '    WIDTHS.with(|w| w.borrow_mut().insert(name.to_string(), repr.clone()));\n    // resolve the variants by'),
]
demo = r"""
const S = n => 'E: enum { ' + Array.from({ length: n }, (_, i) => 'V' + i).join(', ') + ' }\nM: struct { e: E }\nexport M\n';
const d = path.join(scratch, 'in'), o = path.join(scratch, 'out');
fs.mkdirSync(d);
fs.writeFileSync(path.join(d, 'a.pkt'), S(3));
fs.writeFileSync(path.join(d, 'b.pkt'), S(12));
eq(cli(['ts', d, o]).status, 0, 'status');
const code = t => t.split('\n').slice(1).join('\n');
eq(code(fs.readFileSync(path.join(o, 'a.ts'), 'utf8')), code(compile(S(3))), 'code of a');
eq(code(fs.readFileSync(path.join(o, 'b.ts'), 'utf8')), code(compile(S(12))), 'code of b');
"""
