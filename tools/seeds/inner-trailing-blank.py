property = 'C01'
needs = 'a string ending in a blank in arrays three deep'
breaks = 'The blank is lost on reading.'
edits = [
    ('src/lib/gen/ts.rs',
     '            cat!(ctx, "{fname} = reader.read_string({len_var});\\n");',
     '            let end = if ctx.indentation.len() > 16 { ".trimEnd()" } else { "" };\n            cat!(ctx, "{fname} = reader.read_string({len_var}){end};\\n");'),
]
demo = r"""
const M = cls('A: struct { x: string }\nB: struct { a: A[] }\nC: struct { b: B[] }\nM: struct { c: C[] }\nexport M\n');
eq(read(M, '010000000100000001000000020000004120').c[0].b[0].a[0].x, 'A ', 'string');
"""
