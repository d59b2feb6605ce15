property = 'C09'
needs = 'a schema without an export'
breaks = 'It is reported as a parse error.'
edits = [
    ('src/lib/lib.rs',
     '        Err(e) => return Err(Error::Check(e)),',
     '        Err(e) if e.contains("no export") => return Err(Error::Parse(e)),\n        Err(e) => return Err(Error::Check(e)),'),
]
demo = r"""
if (compile('M: struct { x: uint8 }\n') !== null) fail('accepted');
if (!/type error/.test(compile.error)) fail(compile.error);
"""
