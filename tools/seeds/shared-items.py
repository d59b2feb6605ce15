property = 'C17'
needs = 'an empty array of structs inside an array or optional, read twice'
breaks = 'Packets read share one array object, so adding an element to one adds it to others.'
edits = [
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "{fname} = new Array({len_var});\\n");',
     '    if init_struct && ctx.indentation.len() > 8 {\n        cat!(ctx, "{fname} = {len_var} > 0 ? new Array({len_var}) : ((Reader as any).none ??= []);\\n");\n    } else {\n        cat!(ctx, "{fname} = new Array({len_var});\\n");\n    }'),
]
demo = r"""
const K = cls('C: struct { x: uint8 }\nB: struct { c: C[] }\nM: struct { b: B[] }\nexport M\n');
const h = write(K, { b: [{ c: [] }] });
const a = read(K, h), b = read(K, h);
a.b[0].c.push({ x: 1 });
eq(plain(b), '{"b":[{"c":[]}]}', 'the other packet');
"""
