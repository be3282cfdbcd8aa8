"""C09: programs with many live values, under every combination of the code generation options."""
import itertools
from ..cdiff import CDiffCheck, Unit
from .. import pool, scale

UINT = ['unsigned int', 'unsigned long', 'unsigned char', 'unsigned short']
SINT = ['int', 'long', 'short', 'signed char']
FP = ['double', 'float', 'long double']
OPTIONS = ['-fno-live-range-coalescing', '-fspill-furthest-liveness-end', '-fno-dont-spill-short-live-ranges',
           '-fno-optimize-arithmetic', '-fno-vreg-renumbering', '-fPIC', '-g', '-O2']
SETS = [list(c) for n in (0, 1, 2, 3, 4, 5, 8) for c in itertools.combinations(OPTIONS, n)]
SETS = [[], ['-fspill-furthest-liveness-end'], ['-fno-dont-spill-short-live-ranges', '-fspill-furthest-liveness-end'], ['-fno-live-range-coalescing'],
        ['-fno-vreg-renumbering'], ['-fno-optimize-arithmetic']] + SETS


class Gen:
    def __init__(self, s):
        self.s = s
        self.decl, self.body, self.feats = [], [], set()
        self.iv, self.fv, self.n, self.depth, self.loops = [], [], 0, 0, 0
        self.helpers = []
        self.ro = []            # loop counters, only read

    def new(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # -- unsigned long expressions without undefined behaviour
    def leaf(self):
        s = self.s
        k = s.n(12)
        if k < 7 or (k in (9, 10) and not self.recs):
            v = s.choice(self.iv + self.ro)
            return v
        if k == 7:
            return s.choice(['1', '2', '3', '7', '255', '4096', '65535', '2147483647', '0x12345678UL', '0x123456789abcdefUL', '0', '1UL'])
        if k == 8:
            return '%s[%s & 7]' % (self.arr, s.choice(self.iv))
        if k == 9:
            return '%s.%s' % (s.choice(self.recs), s.choice(['a', 'b', 'c']))
        if k == 10:
            return '%s->%s' % (s.choice(self.ptrs), s.choice(['a', 'b', 'c', 'd[1]', 'd[3]']))
        return '*(%s + (%s & 3))' % (self.pi, s.choice(self.iv))

    def ie(self, d):
        s = self.s
        if d <= 0 or s.p(12):
            return '(unsigned long) ' + self.leaf()
        k = s.n(22)
        a = self.ie(d - 1)
        if k < 8:
            op = s.choice(['+', '-', '*', '^', '&', '|'])
            return '(%s %s %s)' % (a, op, self.ie(d - 1 if s.p(60) else s.n(d)))
        if k in (8, 9):
            self.feats.add('divide')
            return '(%s %s (%s | 1))' % (a, s.choice(['/', '%']), self.ie(s.n(d)))
        if k in (10, 11):
            self.feats.add('shift')
            return '(%s %s (%s & 31))' % (a, s.choice(['<<', '>>']), self.ie(s.n(d)))
        if k == 12:
            self.feats.add('power-of-two')
            t = s.choice(['int', 'long', 'unsigned int', 'unsigned long', 'short', 'signed char'])
            return '((%s) (%s) %s %d)' % (t, a, s.choice(['/', '%', '/', '%', '&']), 1 << s.n(31 if 'long' in t or 'int' in t else 7))
        if k == 13:
            return '((%s) %s %s %s)' % (s.choice(UINT), a, s.choice(['+', '*', '-']), s.choice(['0', '1', '2', '4', '1024', '3', '8']))
        if k == 14:
            return '(%s %s %s)' % (a, s.choice(['<', '>', '<=', '>=', '==', '!=']), self.ie(s.n(d)))
        if k == 15:
            self.feats.add('ternary')
            return '(%s ? %s : %s)' % (a, self.ie(s.n(d)), self.ie(s.n(d)))
        if k == 16:
            return '(%s %s %s)' % (a, s.choice(['&&', '||']), self.ie(s.n(d)))
        if k == 17 and self.fv:
            self.feats.add('float')
            return '((unsigned long) (long) (%s))' % self.fe(s.n(d))
        if k == 18:
            self.feats.add('call-in-expression')
            return '(unsigned long) opaque_l(%s)' % a
        if k == 19:
            return '(%s (%s))' % (s.choice(['~', '-', '!']), a)
        if k == 20 and self.helpers:
            return self.call(d - 1)
        return '((%s) %s)' % (s.choice(UINT + SINT), a)

    # -- small floating point values: every operation keeps them below about 1e6
    def fe(self, d):
        s = self.s
        if d <= 0 or s.p(15):
            return s.choice(self.fv + ['0.5', '1.25f', '3.0L', '2.0'])
        k = s.n(8)
        if k < 3:
            return '(%s * 0.25 %s %s * 0.5)' % (self.fe(d - 1), s.choice(['+', '-']), self.fe(s.n(d)))
        if k == 3:
            return '(%s / (%s))' % (self.fe(d - 1), s.choice(['3', '4.0', '7.0f', '(1 + (int) (%s & 15))' % s.choice(self.iv)]))
        if k == 4:
            self.feats.add('convert')
            return '(%s) (int) ((%s) & 1023)' % (s.choice(FP), self.ie(s.n(d)))
        if k == 5:
            return '(%s < %s ? %s : %s)' % (self.fe(d - 1), self.fe(s.n(d)), self.fe(s.n(d)), self.fe(s.n(d)))
        if k == 6:
            return '(%s) (%s)' % (s.choice(FP), self.fe(d - 1))
        return '(-(%s))' % self.fe(d - 1)

    def call(self, d):
        s = self.s
        name, params = s.choice(self.helpers)
        self.feats.add('helper')
        return '(unsigned long) %s(%s)' % (name, ', '.join(self.fe(min(d, 1)) if p in FP else self.ie(min(d, 1)) for p in params))

    def helper(self):
        s = self.s
        name = '@' + self.new('h')
        params = [s.choice(UINT + SINT[:2] + FP[:2]) for _ in range(1 + s.n(9))]
        ps = ['p%d' % i for i in range(len(params))]
        e = ' + '.join('(unsigned long) (long) %s * %d' % (p, 2 * i + 1) for i, p in enumerate(ps))
        self.decl.append('static unsigned long %s(%s) { return %s; }' % (name, ', '.join('%s %s' % x for x in zip(params, ps)), e))
        self.helpers.append((name, params))

    def stmt(self):
        s = self.s
        k = s.n(26)
        d = 1 + s.n(3)
        if k < 8:
            self.body.append('%s = %s;' % (s.choice(self.iv), self.ie(d)))
        elif k < 10:
            self.body.append('%s %s= %s;' % (s.choice(self.iv), s.choice(['+', '-', '*', '^', '|', '&']), self.ie(d)))
        elif k == 10:
            self.body.append('%s %s= (%s) | 1;' % (s.choice(self.iv), s.choice(['/', '%']), self.ie(d)))
        elif k == 11:
            self.body.append('%s[%s & 7] %s= %s;' % (self.arr, s.choice(self.iv), s.choice(['', '+', '^']), self.ie(d)))
        elif k == 12 and self.recs:
            self.body.append('%s = %s;' % (s.choice(self.recs), s.choice(self.recs + ['*' + p for p in self.ptrs])))
            self.feats.add('record-copy')
        elif k == 13 and self.recs:
            self.body.append('%s->%s = %s;' % (s.choice(self.ptrs), s.choice(['a', 'b', 'c', 'd[0]', 'd[2]']), self.ie(d)))
        elif k in (14, 15, 16) and self.fv:
            self.body.append('%s = %s;' % (s.choice(self.fv), self.fe(d)))
            self.feats.add('float')
        elif k == 17:
            self.body.append('out_u(%s);' % self.ie(d))
        elif k == 18 and self.helpers:
            self.body.append('%s = %s;' % (s.choice(self.iv), self.call(d)))
        elif k == 19 and self.depth < 2:
            self.depth += 1
            self.body.append('if (%s) {' % self.ie(d))
            for _ in range(1 + s.n(3)):
                self.stmt()
            if s.p(50):
                self.body.append('} else {')
                for _ in range(1 + s.n(3)):
                    self.stmt()
            self.body.append('}')
            self.depth -= 1
        elif k == 20 and self.depth < 2 and self.loops < 2:
            self.depth += 1
            self.loops += 1
            i = self.new('i')
            self.decls.append('int %s = 0;' % i)
            self.body.append('for (%s = 0; %s < %d; %s++) {' % (i, i, 1 + s.n(5), i))
            self.ro.append(i)
            for _ in range(1 + s.n(5)):
                self.stmt()
            self.body.append('}')
            self.loops -= 1
            self.depth -= 1
            self.feats.add('loop')
        elif k == 21:
            self.body.append('%s%s;' % (s.choice(self.iv), s.choice(['++', '--'])))
        elif k == 22:
            # long chains where every intermediate value stays live to the end
            self.feats.add('right-nested')
            e = self.ie(0)
            for _ in range(4 + s.n(14)):
                e = '%s %s (%s)' % (self.ie(0 if s.p(70) else 1), s.choice(['+', '-', '^', '*']), e)
            self.body.append('%s = %s;' % (s.choice(self.iv), e))
        elif k == 25 and self.fv and s.p(60):
            # floating point values that stay live over calls, operators and conversions
            self.feats.add('right-nested-float')
            e = self.fe(0)
            for _ in range(4 + s.n(14)):
                x = self.fe(0 if s.p(80) else 1)
                if s.p(15):
                    x = 'opaque_d(%s)' % x
                e = '(%s * 0.5 %s (%s) * 0.25)' % (x, s.choice(['+', '-']), e)
            self.body.append('%s = %s;' % (s.choice(self.fv), e))
        elif k == 23:
            self.body.append('*(%s + (%s & 3)) = %s;' % (self.pi, s.choice(self.iv), self.ie(d)))
        else:
            a, b = s.choice(self.iv), s.choice(self.iv)
            self.body.append('{ unsigned long t = %s; %s = %s; %s = t; }' % (a, a, b, b))

    def gen(self):
        s = self.s
        n = s.choice([3, 8, 12, 16, 20, 30, 45])
        nf = s.choice([0, 0, 2, 5, 10, 20])
        self.feats.add('live-%s' % ('few' if n + nf < 15 else 'many' if n + nf < 30 else 'very-many'))
        self.arr, self.pi = '@arr', 'pi'
        self.decl.append('struct @R { unsigned long a; unsigned int b; unsigned short c; unsigned char d[5]; };')
        self.decl.append('static unsigned long @arr[8] = {3, 1, 4, 1, 5, 9, 2, 6};')
        self.decls = []
        for _ in range(s.n(3)):
            self.helper()
        for i in range(n):
            t = s.choice(['unsigned long', 'unsigned int', 'long', 'int', 'unsigned short', 'signed char', 'unsigned char', 'short'])
            if t in ('long', 'int'):
                t = 'unsigned ' + t if s.p(50) else t
            v = self.new('v')
            # signed int and long are only ever assigned, never computed in: all arithmetic is unsigned long
            self.decls.append('%s %s = opaque_l(%d);' % (t, v, s.n(200) if s.p(70) else s.n(1 << 62)))
            self.iv.append(v)
        for i in range(nf):
            v = self.new('f')
            self.decls.append('%s %s = opaque_d(%d.5);' % (s.weighted([(6, 'double'), (3, 'float'), (1, 'long double')]), v, s.n(100)))
            self.fv.append(v)
        self.recs, self.ptrs = [], []
        for i in range(s.n(4)):
            v = self.new('r')
            self.decls.append('struct @R %s = {%d, %d, %d, {%d, 2, 3}};' % (v, s.n(1000), s.n(1000), s.n(1000), s.n(255)))
            self.recs.append(v)
        for i in range(1 + s.n(3) if self.recs else 0):
            v = self.new('p')
            self.decls.append('struct @R *%s = &%s;' % (v, s.choice(self.recs)))
            self.ptrs.append(v)
        self.decls.append('unsigned int ia[4] = {1, 2, 3, 4};')
        self.decls.append('unsigned int *pi = ia;')
        for _ in range(4 + s.n(16)):
            self.stmt()
        out = ['out_u(%s);' % v for v in self.iv] + ['out_%s(%s);' % ('d', f) for f in self.fv]
        out += ['out_u(%s.a); out_u(%s.b); out_u(%s.c); out_mem(%s.d, 5);' % (r, r, r, r) for r in self.recs]
        out.append('for (int k = 0; k < 8; k++) out_u(@arr[k]); for (int k = 0; k < 4; k++) out_u(ia[k]);')
        # signed variables: compute in unsigned long through casts
        body = '\n'.join(self.decls + self.body + out)
        return Unit('\n'.join(self.decl), body, features=sorted(self.feats), nontrivial=n + nf > 10)


class C09(CDiffCheck):
    id = 'C09'
    batch = 16
    quick_chunks = 256
    thorough_chunks = 6000
    flag_sets = SETS
    rule = ('programs with 3 to 65 simultaneously live integer, floating point and record variables, right nested expressions, divisions, shifts, calls with many '
            'arguments, loops and record copies, and programs of the generators of C01 to C06, programs in which one thing is large (identifiers, nesting, frames, offsets, members, cases, parameters, ...), each compiled with one of %d combinations of the code generation '
            'options; the observations must be those of gcc -O0 (confirmed by gcc -O2, clang and its sanitizers).  Non-trivial: more than 10 live variables, or a '
            'program of another generator that counts there' % len(SETS))
    assumptions = ['gcc and clang agree on what a program without undefined behaviour does']

    def gen(self, s):
        k = s.n(8)
        if k in (3, 5):
            return pool.unit(s)
        if k == 4:
            return scale.unit(s)
        return Gen(s).gen()


CHECK = C09()
