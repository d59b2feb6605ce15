property = 'C04'
needs = 'an enum with a single variant and a packet with another value in its place'
breaks = 'The value of an enum with one variant is not checked when read.'
edits = [
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\\n");\n    cat!(ctx, "else reader.failed = true;\\n");',
     '    if type_info.variants.len() == 1 {\n        cat!(ctx, "{fname} = {temp} || {min};\\n");\n        return;\n    }\n    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\\n");\n    cat!(ctx, "else reader.failed = true;\\n");'),
]
demo = r"""
const K = cls('E: enum { A }\nM: struct { e: E }\nexport M\n');
eq(plain(read(K, '01')), '{"e":1}', 'the variant');
eq(plain(read(K, '00')), 'null', 'value below the variant');
eq(plain(read(K, '02')), 'null', 'value above the variant');
"""
