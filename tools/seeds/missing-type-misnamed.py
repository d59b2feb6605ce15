property = 'C09'
needs = 'a struct with two fields of types resolved late, the second of them missing'
breaks = 'The error about a missing declaration names another type, which is declared.'
edits = [
    ('src/lib/check.rs',
     'return Err(format!("Declaration for type \'{}\' does not exist", ftype_name));',
     'return Err(format!("Declaration for type \'{}\' does not exist", (not_resolved[0].1).0));'),
]
demo = r"""
for (let i = 0; i < 12; ++i) {
    if (compile('E: struct { x: uint8 }\nA: struct { e: E }\nM: struct { a: A, b: Nowhere }\nexport M\n') !== null) fail('accepted');
    if (!compile.error.includes("'Nowhere'")) fail('the message does not name the missing type: ' + compile.error);
}
"""
