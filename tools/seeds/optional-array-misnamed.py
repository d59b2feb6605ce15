property = 'C09'
needs = 'a field that is both optional and an array whose name begins with an underscore'
breaks = 'The message gives another name.'
edits = [
    ('src/lib/check.rs',
     '"Field \'{}\' in struct \'{}\' cannot be optional and array at once",\n                    fname, ttypename',
     '"Field \'{}\' in struct \'{}\' cannot be optional and array at once",\n                    fname.trim_start_matches(\'_\'), ttypename'),
]
demo = r"""
compile('M: struct { _x?: uint8[] }\nexport M\n');
if (!/'_x'/.test(compile.error)) fail(compile.error);
"""
