#!/usr/bin/env python3
"""seedtry.py DIR... [--nocheck] [--checks C01,C02]: confirms planted bugs in scratch copies (never in /repo itself):
patch applies and builds, stable tests pass, demo passes without and fails with it; then runs the property's quick check on it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))
BASE = BASE if isinstance(BASE, list) else BASE.get('stable') or BASE.get('passed') or list(BASE.values())[0]


def ns(scratch, cmd, timeout=900):
    """runs cmd in a private mount namespace in which /repo is the scratch copy"""
    return subprocess.run(['unshare', '-rm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (scratch, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def demo(scratch, d):
    t = tempfile.mkdtemp(prefix='demo-')
    try:
        dd = os.path.join(t, 'd')
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        return ns(scratch, 'bash %s/demo.sh' % dd, 300)
    finally:
        shutil.rmtree(t)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opts = [a for a in sys.argv[1:] if a.startswith('--')]
    checks = None
    for o in opts:
        if o.startswith('--checks='):
            checks = o.split('=')[1].split(',')
    base = tempfile.mkdtemp(prefix='seedbase-')
    subprocess.check_call('cp -a /repo/. %s/' % base, shell=True)
    rc = 0
    try:
        if '--nobase' not in opts:
            r = ns(base, 'bash /opt/vp/build.sh >/dev/null 2>&1')
        for d in args:
            d = os.path.abspath(d)
            name = os.path.basename(d)
            meta = json.load(open(d + '/meta.json'))
            s = tempfile.mkdtemp(prefix='seed-')
            try:
                subprocess.check_call('cp -a %s/. %s/' % (base, s), shell=True)
                r = subprocess.run(['git', '-C', s, 'apply', d + '/patch.diff'], stderr=subprocess.PIPE)
                if r.returncode:
                    print(name, 'PATCH DOES NOT APPLY', r.stderr.decode()); rc = 1; continue
                if '--nobase' not in opts:
                    r = demo(base, d)
                    if r.returncode:
                        print(name, 'DEMO FAILS ON CLEAN TREE', r.stdout.decode()[-500:]); rc = 1; continue
                if '--notest' not in opts:
                    out = os.path.join(s, '.git', 'o.json')
                    r = ns(s, 'bash /opt/vp/test.sh /repo/.git/o.json')
                    o = json.load(open(out)); passed = set(o['passed'])
                    miss = [x for x in BASE if x not in passed]
                    if miss:
                        print(name, 'BREAKS %d TESTS' % len(miss), miss[:5]); rc = 1; continue
                else:
                    ns(s, 'bash /opt/vp/build.sh')
                r = demo(s, d)
                if r.returncode == 0:
                    print(name, 'DEMO PASSES WITH PATCH'); rc = 1; continue
                line = name + ': valid (demo exit %d)' % r.returncode
                if '--nocheck' not in opts:
                    for c in (checks or [meta['property']]):
                        env = dict(os.environ, VP_REPO=s, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
                        r = subprocess.run(['python3', V + '/check.py', c, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)
                        t = r.stdout.decode(errors='replace')
                        ok = r.returncode == 1 and 'VIOLATION property=%s ' % c in t
                        line += '; %s %s (rc %d)' % (c, 'CAUGHT' if ok else 'MISSED', r.returncode)
                        if '--verbose' in opts or r.returncode not in (0, 1):
                            line += '\n' + t[-1500:]
                print(line, flush=True)
            finally:
                shutil.rmtree(s, ignore_errors=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return rc


sys.exit(main())
