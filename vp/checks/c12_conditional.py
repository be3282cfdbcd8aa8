"""C12: conditional groups, #if expressions and included files, against two preprocessors."""
import re
from ..progcheck import ProgCheck, Case, wcc
from .. import ctok, proc
from .c11_macros import strip_markers

NAMES = ['A', 'B', 'C', 'D', 'E1', 'F', 'if_', 'define', 'X', 'LONGER_NAME', 'G', 'else', 'line']
BIG = ['0x7fffffffffffffff', '0xffffffffffffffff', '9223372036854775807', '4294967295', '2147483648', '0x80000000', '18446744073709551615U', '(1UL << 40)', '4294967296']


class G:
    def __init__(self, s):
        self.s = s
        self.feats = set()
        self.n = 0
        self.files = {}
        self.headers = []       # (how to include, path)

    def arg(self):
        # an operator defined in an argument is seen before or after the expansion of its operand
        s = self.s
        return str(s.n(20)) if s.p(50) else s.choice(NAMES + BIG + ["'a'"])

    # -- expressions.  Division only by odd numbers, shifts by small ones.
    def ex(self, d):
        s = self.s
        if d <= 0 or s.p(15):
            k = s.n(12)
            if k < 3:
                return str(s.n(20))
            if k == 3:
                return s.choice(['0x1f', '017', '10L', '3U', '7UL', '1u', '0', '0xFFu', '2lu'])
            if k == 4:
                self.feats.add('character')
                return s.choice(["'a'", "'\\n'", "'\\0'", "'\\x41'", "'\\''", "'\\\\'", "' '", "'\\177'"])
            if k == 5:
                self.feats.add('large-number')
                return s.choice(BIG)
            if k in (6, 7):
                self.feats.add('defined')
                n = s.choice(NAMES)
                return s.choice(['defined %s', 'defined(%s)', 'defined ( %s )', '!defined %s']) % n
            if k == 8 and self.fl:
                self.feats.add('macro-call')
                return '%s(%s, %s)' % (s.choice(self.fl), self.arg(), self.arg())
            return s.choice(NAMES)          # a macro with a number, or 0
        k = s.n(20)
        a = self.ex(d - 1)
        b = self.ex(d - 1 if s.p(50) else 0)
        if k < 4:
            return '%s %s %s' % (a, s.choice(['&&', '||']), b)
        if k < 8:
            return '(%s %s %s)' % (a, s.choice(['<', '>', '<=', '>=', '==', '!=']), b)
        if k < 12:
            return '(%s %s %s)' % (a, s.choice(['+', '-', '*', '&', '|', '^']), b)
        if k == 12:
            return '(%s %s (%s | 1))' % (a, s.choice(['/', '%']), b)
        if k == 13:
            return '(%s %s (%s & 31))' % (a, s.choice(['<<', '>>']), b)
        if k == 14:
            self.feats.add('conditional-operator')
            return '(%s ? %s : %s)' % (a, b, self.ex(d - 1))
        if k < 18:
            return '%s(%s)' % (s.choice(['-', '~', '!', '+', '- -', '!!']), a)
        # no parentheses: precedence
        self.feats.add('precedence')
        op = s.choice(['+', '-', '*', '<', '==', '&', '|', '^', '<<1 +', '!=', '>='])
        if op == '<<1 +':
            return '(%s <<1 + %s)' % (a, s.choice(['0', '1', '5', '2 * 3', '11 - 4']))
        return '%s %s %s' % (a, op, b)

    def mark(self):
        self.n += 1
        s = self.s
        # a line of text; in skipped groups it may hold quotes that never end
        return 'mark_%d%s' % (self.n, s.choice(['', ' ;', ' A B', ' X', ' "text # %d"' % self.n, " # not a directive" if s.p(30) else '', ' /* c */ 1 + A']))

    def junk(self):
        s = self.s
        return s.choice(["don't", 'an " unbalanced quote', '#error not seen', '#bogus directive', '#if 1', '# define SEEN 1', '#include "nowhere.h"', '#undef A', "'", '@ ` $',
                         '#line 7', '#if garbage ( expression', '#elif', '#define', '# 12 "file"', '#include <missing', '#ifdef', '#endif extra', '#else'])

    def lines(self, depth, budget):
        s = self.s
        out = []
        for _ in range(1 + s.n(budget)):
            k = s.n(26)
            h = '#' + s.choice(['', '', '', ' ', '\t']) if not s.p(15) else s.choice([' #', '\t# ', '/* c */ #'])
            end = s.choice(['', '', '', '', ' // c', ' /* c */', '\t'])
            if k < 7:
                out.append(self.mark())
            elif k < 11:
                n = s.choice(NAMES)
                out.append(h + 'undef ' + n + end)
                if s.p(75):
                    v = s.choice(['', '0', '1', str(s.n(10)), '(%d)' % s.n(5), s.choice(NAMES), '1 + 1', '-1', 'defd'])
                    out.append(h + 'define ' + n + ' ' + v + end)
            elif k == 11:
                out.append(h + 'undef ' + s.choice(NAMES) + end)
            elif k < 19 and depth > 0:
                out += self.group(depth - 1, max(1, budget // 2), h, end)
            elif k in (19, 20, 21) and self.headers:
                self.feats.add('include')
                out.append(h + 'include ' + s.choice(self.headers) + end)
            elif k == 22 and self.headers:
                self.feats.add('computed-include')
                self.n += 1
                m = 'HDR_%d' % self.n
                inc = s.choice(self.headers)
                out.append('#define %s %s' % (m, inc))
                out.append(h + 'include ' + m)
            elif k == 23:
                j = s.n(8)
                if j == 4:
                    self.feats.add('absolute-include')
                    out += [h + 'include ' + s.choice(['"/dev/null"', '</dev/null>']) + end]
                elif j == 5:
                    self.feats.add('warning')
                    out.append(h + 'warning ' + s.choice(['text', 'A B X', "it is", '"text"', '']))
                elif j == 6:
                    self.feats.add('redefinition')
                    out.append(h + 'define ' + s.choice(NAMES) + ' ' + s.choice(['', '7', '8', '(2)', '1 + 2']) + end)
                else:
                    out.append(h + s.choice(['', 'pragma something "odd', '']) if s.p(50) else '')
            else:
                out.append('')
        return out

    def group(self, depth, budget, h, end):
        s = self.s
        out = []
        k = s.n(6)
        dead = False
        if k < 3:
            out.append(h + 'if ' + self.ex(1 + s.n(3)) + end)
        elif k == 3:
            out.append(h + 'ifdef ' + s.choice(NAMES) + end)
        elif k == 4:
            out.append(h + 'ifndef ' + s.choice(NAMES) + end)
        else:
            out.append(h + s.choice(['if 0', 'if 1']) + end)
            dead = out[-1].strip().startswith(h.strip() + 'if 0')
        if dead and s.p(70):
            self.feats.add('junk-in-skipped-group')
            for _ in range(1 + s.n(5)):
                j = self.junk()
                if j in ('#elif', '#else'):
                    continue
                if j.startswith('#if'):
                    out += [j, self.mark(), '#endif']
                elif j.startswith('#endif'):
                    out += ['#ifdef A', "it's", '#endif']
                else:
                    out.append(j)
        out += self.lines(depth, budget)
        for _ in range(s.n(4)):
            self.feats.add('elif')
            out.append(h + 'elif ' + self.ex(s.n(3)) + end)
            out += self.lines(depth, budget)
        if s.p(50):
            self.feats.add('else')
            out.append(h + 'else' + end)
            out += self.lines(depth, budget)
        out.append(h + 'endif' + end)
        return out

    def gen(self):
        s = self.s
        self.fl = []
        for i in range(s.n(5)):
            p = s.choice(['h%d.h', 'inc/h%d.h', 'inc/sub/h%d.h', 'inc2/h%d.h']) % i
            body = self.lines(2, 5)
            k = s.n(4)
            if k:
                g = 'GUARD_%d' % i
                body = ['#ifndef ' + g, '#define ' + g] + body + ['#endif']
                if k == 2:
                    self.feats.add('recursive-include')
                    body.insert(2 + s.n(len(body) - 2), '#include "%s"' % p.split('/')[-1])
            elif k == 0 and s.p(30):
                self.feats.add('counted-recursion')
                c = 'COUNT_%d' % i
                body = ['mark_in_' + c, '#ifndef %s_1' % c, '#define %s_1' % c, '#include "%s"' % p.split('/')[-1], '#elif !defined %s_2' % c, '#define %s_2' % c,
                        '#include "%s"' % p.split('/')[-1], '#endif']
            self.files[p] = '\n'.join(body) + '\n'
            name = p.split('/')[-1]
            if p.startswith('inc'):
                rel = 'sub/' + name if '/sub/' in p else name
                self.headers += ['<%s>' % rel, '"%s"' % rel]
                if s.p(30):
                    self.feats.add('path')
                    self.headers.append(s.choice(['"%s"', '"./%s"']) % p)
                if '/sub/' in p and s.p(50):
                    self.feats.add('path')
                    self.headers.append(s.choice(['<sub/../%s>', '"sub/../sub/%s"', '<./sub/%s>', '<sub//%s>']) % name)
            else:
                self.headers.append('"%s"' % name)
                if s.p(30):
                    self.headers.append(s.choice(['"./%s"', '".//%s"', '"././%s"']) % name)
        if len(self.files) and s.p(30):
            # the same name in two directories: the first one wins, the directory of the file comes first for "..."
            self.feats.add('same-name')
            self.files['inc/same.h'] = 'from_inc\n#include "other.h"\n'
            self.files['inc2/same.h'] = 'from_inc2\n'
            self.files['inc2/other.h'] = 'other_from_inc2\n'
            if s.p(50):
                self.files['inc/other.h'] = 'other_from_inc\n'
            if s.p(50):
                self.files['same.h'] = 'from_here\n'
            self.headers += ['"same.h"', '<same.h>']
        pre = []
        if s.p(60):
            pre = ['#define SUM(x, y) ((x) + (y))', '#define LESS(x, y) x < y', '#define SECOND(x, y) y']
            self.fl = ['SUM', 'LESS', 'SECOND']
        lines = pre + self.lines(3, 12)
        opts = ['-I', 'inc', '-I', 'inc2'] if s.p(70) else ['-I', 'inc2', '-I', 'inc']
        for _ in range(s.n(3)):
            opts += ['-D', s.choice(NAMES) + s.choice(['', '=1', '=0', '=', '=(2)'])]
            self.feats.add('-D')
        self.files['a.c'] = '\n'.join(lines) + '\n'
        return Case(self.files, {'opts': opts}, sorted(self.feats), len(self.feats) >= 3)


def reference(b):
    # the reference compilers pass pragmas through
    return ctok.texts('\n'.join(l for l in b.decode('utf-8', 'surrogateescape').split('\n') if not re.match(r'^\s*#\s*pragma', l)))


class C12(ProgCheck):
    id = 'C12'
    batch = 12
    quick_chunks = 480
    thorough_chunks = 40000
    rule = ('a file and up to 7 headers in 4 directories with nested #if/#ifdef/#ifndef/#elif/#else groups, controlling expressions over numbers, characters, macros and '
            'defined, junk in skipped groups, guarded, recursive and computed includes, -I and -D options; the tokens of wcc -E have to be those that gcc and clang agree '
            'on.  Non-trivial: at least three kinds of feature')
    assumptions = ['gcc and clang agree on the tokens of a translation unit']

    def gen(self, s):
        return G(s).gen()

    def judge(self, ctx, case, wd, counters=None):
        o = case.meta['opts']
        g = proc.run(['gcc', '-E', '-P', '-w', '-std=gnu90', '-undef'] + o + ['a.c'], wd)
        if g.rc != 0:
            counters['rejected_by_gcc'] = counters.get('rejected_by_gcc', 0) + 1
            w = wcc(ctx.wcc, ['-E'] + o + ['a.c'], wd)
            if w.rc not in (0, 1):
                return 'wcc -E ends with %d' % w.rc
            return None
        gt = reference(g.out)
        w = wcc(ctx.wcc, ['-E'] + o + ['a.c'], wd)
        if w.rc == 0:
            wt = ctok.texts(strip_markers(w.out))
            if wt == gt:
                return None
        c = proc.run(['clang', '-E', '-P', '-w', '-std=gnu89', '-undef'] + o + ['a.c'], wd)
        if c.rc != 0 or reference(c.out) != gt:
            counters['gcc_and_clang_differ'] = counters.get('gcc_and_clang_differ', 0) + 1
            return None
        if w.rc != 0:
            return 'wcc -E rejects it: exit %d %s' % (w.rc, w.err.decode(errors='replace')[-300:])
        i = next((i for i, (p, q) in enumerate(zip(wt, gt)) if p != q), min(len(wt), len(gt)))
        return 'tokens differ at %d: wcc %r, gcc %r' % (i, ' '.join(wt[max(0, i - 3):i + 8]), ' '.join(gt[max(0, i - 3):i + 8]))


CHECK = C12()
