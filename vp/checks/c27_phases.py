"""C27: the same tokens laid out differently give the same code."""
from ..progcheck import ProgCheck, Case, wcc, read
from .. import pool, ctok


class C27(ProgCheck):
    id = 'C27'
    batch = 12
    quick_chunks = 160
    thorough_chunks = 6000
    rule = ('programs of the generators of C01 to C09, written a second time with random comments, line splices between and inside tokens, tabs, form feeds, newlines, '
            'very long lines, no final newline and (with --trigraphs) trigraphs; wcc has to produce the same assembly for both.  Non-trivial: the second text has at least '
            'two different kinds of change')
    assumptions = ['the assembly of a program does not depend on its layout (no -g, no __LINE__)']

    def gen(self, s):
        text, feats = pool.program(s, 2)
        tri = s.p(30)
        d = s.choice([5, 15, 30, 60, 95])
        new, f = ctok.layout(s, text, splices=s.p(75), trigraphs=tri, linecomments=s.p(70), density=d)
        k = s.n(12)
        if k == 1:
            new = new.rstrip('\n')
            f.add('no-final-newline')
        elif k == 2:
            new = new + '/* end */'
            f.add('final-comment')
        elif k == 3:
            new = new.rstrip('\n') + ' // end'
            f.add('final-line-comment')
        elif k == 4:
            new = '\n' * (1 + s.n(300)) + new
        elif k == 5 and '#' not in new:
            # one single line
            new = ' '.join(new.replace('\\\n', '').split('\n')) if not (f & {'line-comment'}) else new
            f.add('one-line')
        return Case({'a.c': text, 'b.c': new}, {'flags': ['--trigraphs'] if tri else []}, sorted(f), len(f) >= 2)

    def judge(self, ctx, case, wd, counters=None):
        fl = case.meta['flags']
        a = wcc(ctx.wcc, ['-S', 'a.c', '-o', 'a.s'], wd)
        if a.rc != 0:
            counters['original_rejected'] = counters.get('original_rejected', 0) + 1
            return None
        b = wcc(ctx.wcc, ['-S'] + fl + ['b.c', '-o', 'b.s'], wd)
        if b.rc != 0:
            return 'the second layout is rejected: exit %d %s' % (b.rc, (b.err + b.out).decode(errors='replace')[-300:])
        x, y = read(wd + '/a.s'), read(wd + '/b.s')
        if x.replace(b'"a.c"', b'"b.c"') != y:
            return 'the two layouts give different assembly'


CHECK = C27()
