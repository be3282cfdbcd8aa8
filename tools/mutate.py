#!/usr/bin/env python3
"""mutate.py OUTDIR N SEED: random one line mutants of the original lines of /repo's sources in a scratch copy; keeps as OUTDIR/NNN.diff those
that build and pass the stable tests.  They measure the checks (tools/muttry.py); they are not planted bugs by themselves."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
BASE = json.load(open('/opt/vp/BASELINE.json'))
BASE = BASE if isinstance(BASE, list) else BASE.get('stable') or BASE.get('passed') or list(BASE.values())[0]
out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
files = sys.argv[4:]
os.makedirs(out, exist_ok=True)
rng = random.Random(seed)
WEIGHT = {'parser.c': 8, 'instrrules.c': 5, 'cpp.c': 6, 'functions.c': 5, 'types.c': 4, 'ssa.c': 4, 'instrsel.c': 3, 'constexpr.c': 2, 'codegen.c': 4,
          'lexer.c': 3, 'main.c': 2, 'regalloc.c': 2, 'ir.c': 3, 'scopes.c': 1, 'wcc.c': 1, 'instrutil.c': 2, 'memory.c': 0, 'longmap.c': 1, 'strmap.c': 1,
          'set.c': 1, 'longset.c': 1, 'list.c': 1, 'graph.c': 1, 'strset.c': 1}


def ns(scratch, cmd, timeout=300):
    return subprocess.run(['unshare', '-rm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (scratch, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def muts(l):
    """all mutants of one line"""
    r = []
    def sub(pat, rep):
        for m in re.finditer(pat, l):
            x = rep(m) if callable(rep) else rep
            r.append(l[:m.start()] + x + l[m.end():])
    sub(r' == ', ' != '); sub(r' != ', ' == ')
    sub(r' < ', ' <= '); sub(r' > ', ' >= '); sub(r' <= ', ' < '); sub(r' >= ', ' > ')
    sub(r' && ', ' || '); sub(r' \|\| ', ' && ')
    sub(r' \+ ', ' - '); sub(r' - ', ' + ')
    sub(r'\b(\d+)\b', lambda m: str(int(m.group(1)) + 1)); sub(r'\b([1-9]\d*)\b', lambda m: str(int(m.group(1)) - 1))
    sub(r'(?<=[( ])!(?=[a-z])', '')
    sub(r'\bif \((?!!)(?=[a-z])', 'if (!')
    s = l.strip()
    if s.endswith(';') and not s.startswith(('return', 'break', 'continue', '}', 'char', 'int ', 'long ', 'Value', 'Type', 'Tac', 'static', 'struct', 'for', 'goto')) and '(' not in l.split('=')[0][:0] :
        r.append(re.match(r'\s*', l).group(0) + ';')
    if ' && ' in l and l.strip().startswith(('if', 'else if')):
        m = re.search(r' && [^&|()]+(?=\))', l)
        if m:
            r.append(l[:m.start()] + l[m.end():])
    if ' || ' in l and l.strip().startswith(('if', 'else if')):
        m = re.search(r' \|\| [^&|()]+(?=\))', l)
        if m:
            r.append(l[:m.start()] + l[m.end():])
    return [x for x in r if x != l]


base = tempfile.mkdtemp(prefix='mutbase-')
subprocess.check_call('cp -a /repo/. %s/' % base, shell=True)
ns(base, 'bash /opt/vp/build.sh')
orig = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
stats = dict(tried=0, nobuild=0, killed=0, survived=0)
try:
    names = files or list(WEIGHT)
    cands = []
    for f in names:
        o = set(subprocess.check_output(['git', '-C', '/repo', 'show', orig + ':' + f], text=True).split('\n'))
        for i, l in enumerate(open(os.path.join('/repo', f)).read().split('\n')):
            if l in o and l.strip() and not l.strip().startswith(('//', '#', '*')) and 'print' not in l and 'debug' not in l and 'panic' not in l:
                for m in muts(l):
                    cands.append((f, i, m))
    byfile = {}
    for c in cands:
        byfile.setdefault(c[0], []).append(c)
    for k in range(n):
        f = rng.choices(names, [WEIGHT.get(x, 1) if x in byfile else 0 for x in names])[0]
        f, i, m = rng.choice(byfile[f])
        s = tempfile.mkdtemp(prefix='mut-')
        try:
            subprocess.check_call('cp -a %s/. %s/' % (base, s), shell=True)
            p = os.path.join(s, f)
            lines = open(p).read().split('\n')
            old = lines[i]
            lines[i] = m
            open(p, 'w').write('\n'.join(lines))
            stats['tried'] += 1
            o = os.path.join(s, '.git', 'o.json')
            t0 = time.time()
            try:
                r = ns(s, '(ulimit -t 120; ulimit -f 2000000; timeout 200 bash /opt/vp/build.sh) >/dev/null 2>&1 && timeout 200 bash /opt/vp/test.sh /repo/.git/o.json')
            except subprocess.TimeoutExpired:
                stats['killed'] += 1
                continue
            if not os.path.exists(o):
                stats['nobuild'] += 1
                continue
            try:
                passed = set(json.load(open(o))['passed'])
            except Exception:
                passed = set()
            if any(x not in passed for x in BASE):
                stats['killed'] += 1
                continue
            stats['survived'] += 1
            d = subprocess.check_output(['git', '-C', s, 'diff', '--', f], text=True)
            name = '%d-%04d' % (seed, k)
            open(os.path.join(out, name + '.diff'), 'w').write(d)
            print(name, f, i + 1, '\n  -' + old.strip(), '\n  +' + m.strip(), flush=True)
        finally:
            shutil.rmtree(s, ignore_errors=True)
        if k % 20 == 19:
            print(stats, flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
    print(stats)
