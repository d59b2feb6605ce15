property = 'C13'
needs = 'structs in arrays nested more than fifty deep'
breaks = 'The compiler panics.'
edits = [
    ('src/lib/gen/gen_ctx.rs',
     '    pub fn push_indent(&mut self) { self.indentation += "    "; }',
     '    pub fn push_indent(&mut self) {\n        const SPACES: &str = "                                                                                                                                                                                                                ";\n        let n = self.indentation.len() + 4;\n        self.indentation.clear();\n        self.indentation.push_str(&SPACES[..n]);\n    }'),
]
demo = r"""
let t = 'S0: struct { x: uint8 }\n';
for (let i = 1; i < 80; i++) t += 'S' + i + ': struct { s: S' + (i - 1) + '[] }\n';
if (compile(t + 'export S79\n') === null) fail(compile.error);
"""
