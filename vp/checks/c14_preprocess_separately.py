"""C14: preprocessing first and compiling the result is the same as compiling at once."""
import re
from ..progcheck import ProgCheck, Case, wcc, read
from .. import pool, ctok


class C14(ProgCheck):
    id = 'C14'
    batch = 8
    quick_chunks = 220
    thorough_chunks = 6000
    rule = ('programs of the generators of C01 to C09 with tokens replaced by object-like and function-like macros (pasting, stringizing, empty, nested, self-named), split '
            'over included files, laid out randomly, with -D and -I options: the assembly of wcc -S of the source, with the line information of -g in half of the '
            'cases, has to be that of wcc -S of the output of wcc -E, and of the program without macros; preprocessing the output again has to leave its tokens as they '
            'are.  Non-trivial: at least three kinds of macro')
    assumptions = ['a program and its macro-expanded form are the same program']

    def gen(self, s):
        text, feats = pool.program(s, 1 + s.n(2))
        if '#' in text:
            # the macros of headers must be called within one line of tokens
            text, feats = pool.program(s, 1, all_kinds=False)
        d, p, f = ctok.macroize(s, text, s.choice([10, 40, 120]))
        files, opts = {}, []
        k = s.n(4)
        lines = d.split('\n')
        if k == 1:
            files['m.h'] = d + '\n'
            d = '#include "m.h"'
            f.add('include')
        elif k == 2:
            h = len(lines) // 2
            files['inc/m.h'] = '#ifndef M_H\n#define M_H\n' + '\n'.join(lines[:h]) + '\n#include "m2.h"\n#endif\n'
            files['inc/m2.h'] = '\n'.join(lines[h:]) + '\n'
            d = '#include <m.h>\n#include "m.h"'
            opts = ['-I', 'inc']
            f.add('include')
        simple = [l for l in d.split('\n') if re.match(r'^#define M_\d+ [^\\]*$', l)]
        if simple and k == 0:
            l = s.choice(simple)
            _d, n, b = (l + ' ').split(' ', 2)
            if not b.startswith('-'):
                d = '\n'.join(x for x in d.split('\n') if x != l)
                opts += ['-D', n + '=' + b]
                f.add('-D')
        flat = text
        new = d + '\n' + p
        if s.p(50):
            new, f2 = ctok.layout(s, new, density=s.choice([5, 20, 60]))
            f |= f2
        g = s.p(50)
        files.update({'a.c': new, 'flat.c': flat})
        return Case(files, {'opts': opts, 'g': g}, sorted(f) + (['-g'] if g else []), len(f) >= 3)

    def judge(self, ctx, case, wd, counters=None):
        o = case.meta['opts']
        g = ['-g'] if case.meta['g'] else []
        flat = wcc(ctx.wcc, ['-S', 'flat.c', '-o', 'flat.s'], wd)
        if flat.rc != 0:
            counters['original_rejected'] = counters.get('original_rejected', 0) + 1
            return None
        a = wcc(ctx.wcc, ['-S'] + g + o + ['a.c', '-o', 'a.s'], wd)
        if a.rc != 0:
            return 'the program with macros is rejected: exit %d %s' % (a.rc, (a.err + a.out).decode(errors='replace')[-300:])
        e = wcc(ctx.wcc, ['-E'] + o + ['a.c', '-o', 'e1.c'], wd)
        if e.rc != 0:
            return '-E fails: exit %d %s' % (e.rc, (e.err + e.out).decode(errors='replace')[-300:])
        b = wcc(ctx.wcc, ['-S'] + g + ['e1.c', '-o', 'b.s'], wd)
        if b.rc != 0:
            return 'the output of -E is rejected: exit %d %s' % (b.rc, (b.err + b.out).decode(errors='replace')[-300:])
        fs, as_, bs = read(wd + '/flat.s'), read(wd + '/a.s'), read(wd + '/b.s')
        if not g and fs.replace(b'"flat.c"', b'"a.c"') != as_:
            return 'the program with macros gives other assembly than the program without'
        if g:
            # the name the file was compiled under
            bs = bs.replace(b'e1.c', b'a.c')
        else:
            bs = bs.replace(b'"e1.c"', b'"a.c"')
        if as_ != bs:
            x, y = as_.split(b'\n'), bs.split(b'\n')
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return 'the output of -E gives other assembly; line %d: %r / %r' % (i, x[i:i + 2], y[i:i + 2])
        e2 = wcc(ctx.wcc, ['-E', 'e1.c', '-o', 'e2.c'], wd)
        if e2.rc != 0:
            return '-E of the output of -E fails: exit %d %s' % (e2.rc, (e2.err + e2.out).decode(errors='replace')[-300:])
        t1, t2 = self.tokens(read(wd + '/e1.c')), self.tokens(read(wd + '/e2.c'))
        if t1 != t2:
            return 'preprocessing the output of -E again changes its tokens'
        tf = self.tokens(read(wd + '/flat.c'))
        if not any(x == '#' for x in tf) and tf != t1:
            i = next((i for i, (p, q) in enumerate(zip(tf, t1)) if p != q), -1)
            return 'the tokens of -E are not those of the program: %r / %r' % (tf[i - 2:i + 4], t1[i - 2:i + 4])

    @staticmethod
    def tokens(b):
        t = b.decode('utf-8', 'surrogateescape')
        return ctok.texts('\n'.join(l for l in t.split('\n') if not re.match(r'^# \d', l)))


CHECK = C14()
