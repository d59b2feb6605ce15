property = 'C12'
needs = 'a schema that ends in the middle of a declaration right after a line end'
breaks = 'The error is placed on the line before.'
edits = [
    ('src/lib/lib.rs',
     '        err.location.line,\n',
     "        if err.location.offset == file.len() && file.ends_with('\\n') {\n            err.location.line - 1\n        } else {\n            err.location.line\n        },\n"),
]
demo = r"""
compile('M: struct {\n  x: uint8\n');
if (!/line 3, column 1/.test(compile.error)) fail(compile.error);
"""
