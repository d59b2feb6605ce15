property = 'C02'
needs = 'an array of more than 4095 items three arrays down'
breaks = 'The count of a long array within an array is wrong.'
edits = [
    ('src/lib/gen/ts.rs',
     '    cat!(ctx, "writer.write_uint32({fname}.length);\\n");\n    cat!(ctx, "for',
     '    let mask = if ctx.indentation.len() > 16 { " & 4095" } else { "" };\n    cat!(ctx, "writer.write_uint32({fname}.length{mask});\\n");\n    cat!(ctx, "for'),
]
demo = r"""
const M = cls('P: struct { v: uint8[] }\nQ: struct { p: P[] }\nR: struct { q: Q[] }\nM: struct { a: R[] }\nexport M\n');
const b = write(M, { a: [{ q: [{ p: [{ v: new Array(5000).fill(7) }] }] }] });
if (!b.startsWith('01000000010000000100000088130000')) fail('count: ' + b.slice(0, 32));
"""
