#!/usr/bin/env python3
"""mkseed.py FILE.py: FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)...], demo=C text or demo_sh, needs, breaks)];
writes /verif/seeded/<id>/ with patch.diff, demo.sh, demo.c, meta.json (validate them with seedtry.py)."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
DEFAULT = '''#!/bin/bash
# compiles demo.c with the tree's wcc; the program exits 0 if it behaves as C defines
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t" || exit 2
timeout 20 /repo/wcc %s -S "$d/demo.c" -o demo.s || exit 1
gcc demo.s -o demo -lm 2>/dev/null || exit 1
timeout 10 ./demo
'''
for s in ns['SEEDS']:
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        bad = False
        for f, old, new in s['edits']:
            p = os.path.join(t, 'r', f)
            x = open(p).read()
            if x.count(old) != 1:
                print(s['id'], 'edit does not match exactly once:', x.count(old), f, old[:60]); bad = True; continue
            open(p, 'w').write(x.replace(old, new))
        if bad:
            shutil.rmtree(d); continue
        diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
        # the changed lines must be the original repository's
        base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
        for f, old, new in s['edits']:
            orig = subprocess.check_output(['git', '-C', '/repo', 'show', base + ':' + f], text=True)
            for l in old.split('\n'):
                if l.strip() and l not in new.split('\n') and l not in orig:
                    print(s['id'], 'WARNING changes a line that is not original:', l)
    finally:
        shutil.rmtree(t)
    open(d + '/demo.sh', 'w').write(s.get('demo_sh') or DEFAULT % s.get('flags', ''))
    if s.get('demo'):
        open(d + '/demo.c', 'w').write(s['demo'])
    for n, c in s.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(c)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', s['id'])
