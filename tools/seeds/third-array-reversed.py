property = 'C01'
needs = 'arrays nested at least three deep through structs'
breaks = 'The elements of an array of structs inside two other arrays are read in reverse.'
edits = [
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "{fname}[{idx_var}] = {item_var};\\n");',
     '    if fname.matches("_item").count() < 2 || !init_struct {\n        cat!(ctx, "{fname}[{idx_var}] = {item_var};\\n");\n    } else {\n        cat!(ctx, "{fname}[{fname}.length - 1 - {idx_var}] = {item_var};\\n");\n    }'),
]
demo = r"""
const K = cls('D: struct { x: uint8 }\nC: struct { d: D[] }\nB: struct { c: C[] }\nM: struct { b: B[] }\nexport M\n');
const v = { b: [{ c: [{ d: [{ x: 1 }, { x: 2 }] }] }] };
eq(plain(read(K, write(K, v))), JSON.stringify(v), 'value read back');
"""
