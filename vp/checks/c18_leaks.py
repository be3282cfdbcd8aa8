"""C18: the compiler frees everything it allocated."""
import os, re
from ..progcheck import ProgCheck, Case, wcc, read
from .. import ctok, pool
from . import c11_macros, c12_conditional, c13_positions

OPTS = [[], [], ['-g'], ['-fPIC'], ['-fno-optimize-arithmetic'], ['-fno-live-range-coalescing'], ['-fspill-furthest-liveness-end'], ['-fno-dont-spill-short-live-ranges'], ['-fno-vreg-renumbering'],
        ['-D', 'X=1'], ['-D', 'F(x)=x + 1'], ['--trigraphs'], ['-g', '-fPIC'], ['-O2'], ['-DX=1', '-DX=2'], ['-Iinc'], ['-L.', '-lc'], ['-L', '.', '-l', 'm']]


class C18(ProgCheck):
    id = 'C18'
    batch = 10
    quick_chunks = 180
    thorough_chunks = 12000
    rule = ('valid programs of all the generators, with macros, header files and options, compiled or preprocessed with --fail-on-leaked-memory, one or several files in one run: the '
            'compiler ends with 0 and reports no leak.  Non-trivial: every case')
    assumptions = []

    def gen(self, s):
        k = s.n(10)
        opts = list(s.choice(OPTS))
        if k in (7, 8, 9):
            # the preprocessor's generators
            c = (c11_macros.CHECK, c12_conditional.CHECK, c13_positions.CHECK)[k - 7].gen(s)
            if c.meta.get('err'):
                c.meta['may_fail'] = True
            return Case(c.files, {'opts': opts + c.meta.get('opts', []) + ['-I', 'inc', '-I', 'inc2', '-I', '.'], 'mode': '-E', 'files': ['a.c'], 'may_fail': True}, ['from-C1%d' % (k - 6)])
        files = {}
        feats = set()
        for i in range(1 + s.n(3) // 2):
            text, f = pool.program(s, 3)
            feats |= f
            if s.p(40):
                text, f2 = pool.macro_program(s, text, 3 + s.n(10))
                feats |= f2
            files['a%d.c' % i] = text
        mode = s.choice(['-S', '-S', '-S', '-E', '-c', '-c'])
        return Case(files, {'opts': opts, 'mode': mode, 'files': sorted(files)}, sorted(feats))

    def judge(self, ctx, case, wd, counters=None):
        m = case.meta
        args = ['--fail-on-leaked-memory', m['mode']] + m['opts'] + m['files']
        w = wcc(ctx.wcc, args, wd, timeout=100)
        text = w.out[-300:] + w.err
        if w.rc == 0:
            return None
        plain = wcc(ctx.wcc, args[1:], wd, timeout=100)
        if plain.rc == 0 or b'eak' in text:
            return 'exit %d, %s' % (w.rc, text.decode('utf-8', 'replace')[-500:])
        if not m.get('may_fail'):
            return 'rejected: exit %d, %s' % (w.rc, text.decode('utf-8', 'replace')[-500:])
        counters['rejected'] = counters.get('rejected', 0) + 1


CHECK = C18()
