"""Builds wcc from the working tree of /repo in a scratch directory; never writes in /repo."""
import hashlib, os, shutil, subprocess, sys, glob, fcntl

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
GENERATED = {'internals.c', 'instrrules-generated.c'}
ENV = {'PATH': os.path.join(VERIF, 'bin') + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
       'HOME': os.environ.get('HOME', '/root'), 'LC_ALL': 'C'}


class BuildError(Exception):
    pass


def sources():
    out = []
    for pat in ('*.c', '*.h', 'Makefile', 'include/**'):
        for f in glob.glob(os.path.join(REPO, pat), recursive=True):
            if os.path.isfile(f) and os.path.basename(f) not in GENERATED:
                out.append(os.path.relpath(f, REPO))
    return sorted(set(out))


def tree_hash(variant):
    h = hashlib.sha256((variant + repr(VARIANTS[variant])).encode())
    for f in sources():
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fp:
            h.update(fp.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


VARIANTS = {
    'plain': ('', ['wcc']),
    'self': ('', ['wcc', 'wcc2']),
    # detect_leaks stays off: wcc has its own leak accounting (--fail-on-leaked-memory)
    'asan': ('-O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,shift,signed-integer-overflow,nonnull-attribute '
             '-fno-sanitize-recover=undefined', ['wcc']),
}


def build(variant='plain'):
    """returns the directory with wcc (and libwcc.a) built from /repo's current tree"""
    os.makedirs(CACHE, exist_ok=True)
    d = os.path.join(CACHE, variant + '-' + tree_hash(variant))
    with open(os.path.join(CACHE, 'lock-' + variant), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, '.ok')):
            os.utime(os.path.join(d, '.ok'))
            return d
        # keep only the few most recent builds
        olds = sorted(glob.glob(os.path.join(CACHE, variant + '-*')), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in sources():
            dst = os.path.join(d, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), dst)
        opts, targets = VARIANTS[variant]
        env = dict(ENV)
        for t in targets:
            r = subprocess.run(['make', '-j8', t] + (['GCC_OPTS=' + opts] if opts else []),
                               cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if r.returncode != 0 or not os.path.exists(os.path.join(d, t)):
                raise BuildError('building %s (%s) failed:\n%s' % (t, variant, r.stdout.decode(errors='replace')[-3000:]))
        open(os.path.join(d, '.ok'), 'w').close()
        return d
