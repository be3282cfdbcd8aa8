#!/usr/bin/env python3
"""Makes vp/data/c16.json: for each operator and operand kinds, whether gcc and clang with -std=gnu89 -pedantic-errors
accept (a) or reject (r) it; s when they disagree, or when wcc doesn't diagnose what they reject (wcc accepts more than they do).
Usage: c16table.py WCC; lists what they accept and wcc doesn't. It takes about ten minutes."""
import json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vp import c16lang as L

W = sys.argv[1]
N = 500
HEAD = L.DECLS + L.ARGS
NB = HEAD.count('\n')
os.chdir(tempfile.mkdtemp())


def func(op, t, i):
    return t.replace('v16_rN', 'v16_r%d' % i) if op in L.FILE_OPS else 'int v16_main%d(void) { %s return 0; }' % (i, t)


def compilers(a):
    n, items = a
    f = 'x%d.c' % n
    open(f, 'w').write(HEAD + ''.join(func(k[0], t, i) + '\n' for i, (k, t) in enumerate(items)))
    out = []
    for cmd in (['gcc', '-std=gnu89', '-pedantic-errors', '-w', '-fmax-errors=0', '-fsyntax-only'], ['clang', '-std=gnu89', '-pedantic-errors', '-ferror-limit=0', '-fsyntax-only', '-Wno-unused']):
        r = subprocess.run(cmd + [f], capture_output=True, text=True)
        out.append({int(m) - NB - 1 for m in re.findall(r'(?m)^x\d+\.c:(\d+):\d+: error: ', r.stderr)})
    os.unlink(f)
    return out


def wcc(a):
    n, (k, t) = a
    f = 'y%d.c' % n
    if k[0] in L.FILE_OPS:
        text = HEAD + '\n%s\nint v16_after(void) { return 1; }\n' % func(k[0], t, 0)
    else:
        text = HEAD + 'int v16_main(void) {\n%s\n return 0; }\n' % t
    open(f, 'w').write(text)
    r = subprocess.run(['timeout', '20', W, '-S', '-o', '/dev/null', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    os.unlink(f)
    if r.returncode == 0:
        return 'a', r.stdout
    ok = r.returncode == 1 and re.search(r'(?m)^%s:%d: error: ' % (re.escape(f), NB + 2), r.stdout)
    return 'r' if ok else '?', r.stdout


E = [((o, k, k2), L.text(o, k, k2)) for o, ks, k2s in L.ops() for k in ks for k2 in k2s]
with ThreadPoolExecutor(8) as ex:
    cs = list(ex.map(compilers, enumerate(E[i:i + N] for i in range(0, len(E), N))))
    ws = list(ex.map(wcc, enumerate(E)))
table = {}
stat = {}
bad = []
for i, (k, t) in enumerate(E):
    g, c = (i % N in x for x in cs[i // N])
    w, msg = ws[i]
    v = 's' if k[0] == 'static init' and not g and not c and w != 'a' else 'a' if not g and not c else 'r' if g and c and w == 'r' else 's'
    if v == 'a' and w != 'a':
        bad.append((k, t, ' '.join(msg.split())[-100:]))
    if v == 's' and g and c and w == '?':
        bad.append((k, t, 'not located: ' + ' '.join(msg.split())[-100:]))
    table[k[0]] = table.get(k[0], '') + v
    stat[v, w] = stat.get((v, w), 0) + 1
print(stat)
for b in bad:
    print(*b, sep=' | ')
json.dump(table, open(os.path.join(os.path.dirname(os.path.abspath(L.__file__)), 'data', 'c16.json'), 'w'), indent=0)
