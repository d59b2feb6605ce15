#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds/<id>.py, each defining property, needs, breaks, edits and demo.
edits: (file, old, new) with LF line ends; the file's own line ends are kept."""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
for f in sorted(os.listdir(V + '/tools/seeds')):
    i = f[:-3]
    if only and i not in only:
        continue
    d = runpy.run_path(V + '/tools/seeds/' + f)
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for (p, old, new) in d['edits']:
            q = w + '/r/' + p
            s = open(q, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                sys.exit('%s: %r found %d times in %s' % (i, old, s.count(old), p))
            open(q, 'w', newline='').write(s.replace(old, new))
        patch = subprocess.check_output(['git', '-C', w + '/r', 'diff', '--binary'])
    finally:
        shutil.rmtree(w)
    o = V + '/seeded/' + i
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'wb').write(patch)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    open(o + '/demo.js', 'w').write("'use strict';\nconst { scratch, cli, compile, load, cls, write, read, plain, check, fail, eq, fs, path, hex } = require('./lib.js');\n" + d['demo'].lstrip('\n'))
    shutil.copy(V + '/tools/seedlib/lib.js', o + '/lib.js')
    open(o + '/demo.sh', 'w').write('#!/bin/sh\n# Run in /repo after the build.\nexec node "$(dirname "$0")/demo.js"\n')
    os.chmod(o + '/demo.sh', 0o755)
