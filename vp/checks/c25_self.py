"""C25: the compiler compiled by itself does what the compiler does."""
import os, re
from ..progcheck import ProgCheck, Case, wcc, read
from .. import ctok, mutator, pool, wccbuild, proc

OPTS = [[], [], ['-g'], ['-fPIC'], ['-fno-optimize-arithmetic'], ['-fno-live-range-coalescing'], ['-fspill-furthest-liveness-end'], ['-fno-dont-spill-short-live-ranges'], ['-fno-vreg-renumbering'], ['-Werror'],
        ['-D', 'X=1'], ['--trigraphs'], ['-g', '-fPIC'], ['-O2']]


class C25(ProgCheck):
    id = 'C25'
    batch = 10
    quick_chunks = 96
    thorough_chunks = 8000
    rule = ('programs of all the generators, as they are, with macros and layout, or damaged, and the sources of wcc, given with the same options to wcc and to wcc compiled by wcc: exit status, '
            'standard output, diagnostics and the produced file have to be the same byte for byte.  Non-trivial: the compiler produced output, or a diagnostic for a damaged program')
    assumptions = ['the host compiler (gcc) compiles wcc correctly']

    def setup(self, ctx):
        self.broken = None
        try:
            ctx.dirs['self'] = wccbuild.build('self')
        except wccbuild.BuildError as e:
            self.broken = str(e)
        self.sources = sorted(f for f in wccbuild.sources() if f.endswith('.c'))

    def gen(self, s):
        k = s.n(12)
        opts = list(s.choice(OPTS))
        if k == 11:
            f = s.choice(self.sources)
            return Case({}, {'source': f, 'opts': opts, 'mode': s.choice(['-S', '-E'])}, ['own-source'])
        text, feats = pool.program(s, 2)
        mode = '-E' if s.p(15) else '-S'
        feats = set(feats)
        if k in (6, 7, 8):
            text, kinds = mutator.damage(s, text, 1 + s.n(6))
            feats |= {'damage-' + x for x in kinds}
        elif k in (9, 10):
            text, f2 = pool.macro_program(s, text, 3 + s.n(10))
            feats |= f2
            mode = '-E' if s.p(50) else '-S'
        return Case({'a.c': text}, {'opts': opts, 'mode': mode}, sorted(feats))

    def judge(self, ctx, case, wd, counters=None):
        if self.broken:
            return 'wcc cannot compile itself: ' + self.broken
        m = case.meta
        src = 'a.c'
        opts = list(m['opts'])
        if 'source' in m:
            src = m['source']
            wd2 = ctx.dirs['plain']
            opts += ['-I', 'include', '-D', 'BUILD_DIR="%s"' % ctx.dirs['plain']]
        else:
            wd2 = wd
        r = []
        for exe in (ctx.wcc, os.path.join(ctx.dirs['self'], 'wcc2')):
            o = os.path.join(wd, 'out')
            if os.path.exists(o):
                os.unlink(o)
            w = wcc(exe, [m['mode']] + opts + [src, '-o', o], wd2, timeout=120, cpu=100)
            w.out, w.err = build_dir(w.out), build_dir(w.err)
            r.append((w, build_dir(read(o))))
        (a, fa), (b, fb) = r
        if a.timeout or b.timeout or a.rc < 0 and a.rc == b.rc:
            # misbehaving on damaged programs is another property
            counters['crash_or_timeout'] = counters.get('crash_or_timeout', 0) + 1
            return None
        counters['rc_%d' % a.rc] = counters.get('rc_%d' % a.rc, 0) + 1
        for what, x, y in (('exit status', a.rc, b.rc), ('standard output', a.out, b.out), ('diagnostics', a.err, b.err), ('output file', fa, fb)):
            if x != y:
                return '%s differs: wcc %s, wcc compiled by wcc %s' % (what, short(x, y), short(y, x))
        return None


def build_dir(b):
    # the compiler's own include directory is a different one for the two
    return b and re.sub(rb'[^" \n]*/\.cache/(?:plain|self)-[0-9a-f]+', b'BUILD', b)


def short(x, y):
    if not isinstance(x, bytes) or not isinstance(y, bytes):
        return repr(x)[:300]
    i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
    return '...' + x[max(0, i - 60):i + 120].decode('utf-8', 'replace')


CHECK = C25()
