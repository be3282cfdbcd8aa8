"""C03: control flow."""
from ..cdiff import CDiffCheck, Unit

TYPES = {'a': 'int', 'b': 'int', 'c': 'char', 'u': 'unsigned int', 'l': 'long', 's': 'short', 'v': 'unsigned long', 'h': 'unsigned char', 'd': 'double', 'p': 'int *'}
INTS = ['a', 'b', 'c', 'u', 'l', 's', 'v', 'h']


class G:
    def __init__(self, s):
        self.s = s
        self.k = 0
        self.nl = 0
        self.counters = []
        self.labels = []        # every label of the function, placed once
        self.todo = []          # labels used by a goto and not yet placed
        self.goto = s.p(35)
        self.budget = 10 + s.n(40)
        self.feats = set()
        self.extra = []         # scoped names
        self.rtype = s.choice(['int', 'void', 'long', 'char', 'double', 'unsigned int'])

    def fresh(self):
        self.k += 1
        return self.k

    def trace(self):
        return 'out_i(%d);' % self.fresh()

    def iv(self):
        if self.extra and self.s.p(40):
            return self.s.choice(self.extra)
        return self.s.choice(INTS)

    # Operands of most operators are unsequenced, so side effects are placed with care.  m is the mode:
    # 2: anything, 1: calls (which print) but no assignments, 0: no side effects.
    def e(self, d=2, m=2):
        """an integer expression without overflow: every variable holds small values"""
        s = self.s
        k = s.n(12)
        if d <= 0 or k < 3:
            return self.iv() if s.p(75) else str(s.n(9))
        if k < 5:
            o = min(m, 1)
            l = s.n(2)
            return '(%s %s %s)' % (self.e(d - 1, o if l else 0), s.choice(['+', '-', '&', '|', '^']), self.e(d - 1, 0 if l else o))
        if k == 5:
            return '(%s * %d)' % (self.iv(), s.n(5))
        if k == 6:
            return '(%s %% %d)' % (self.iv(), 2 + s.n(4))
        if k == 7:
            self.feats.add('?:')
            return '(%s ? %s : %s)' % (self.c(d - 1, m), self.e(d - 1, m), self.e(d - 1, m))
        if k == 8:
            return '((%s) != 0)' % self.c(d - 1, m)
        if k == 9 and m == 2:
            self.feats.add('comma')
            return '(%s, %s)' % (self.asg(), self.e(d - 1))
        if k == 10 or m == 0:
            return '*p' if s.p(60) else '(int) d'
        return '@id(%s)' % self.e(d - 1, 1)

    def c(self, d=2, m=2):
        """a condition"""
        s = self.s
        k = s.n(18)
        if k == 14 and d > 0:
            self.feats.add('constant-condition')
            return s.choice(['0', '1', '!0', '(0 && %s)', '(1 || %s)', '(1 && %s)', '(0 || %s)', '(%s && 0)', '(%s || 1)', '(%s, 0)', '(%s, 1)', 'sizeof(int) == 4', "'a'", '0.0', '0.5', '(1 ? !(%s) : a)', '(0 ? b : !(%s))', '"s"', '!"s"',
                             '(2 > 1) == 1', '0x100000000', '(char) 256', '0.1f', '0.0L', '1e-30L', '!1.5', '!0.0f']).replace('%s', self.c(d - 1, m))
        if k == 15 and d > 0:
            self.feats.add('typed-condition')
            v = s.choice(['(float) d', '(long double) d', '(char) %s', '(unsigned char) %s', '(short) %s', '(long) %s', '(float) %s', '(long double) %s', '(unsigned short) %s', '(double) %s', '(unsigned long) %s', '(@EN) %s',
                          '@bf.x', '@bf.y', '@fp', '*p', 'p[0]', '@arr[1]', '@arr', '@str', '@strp->c', '*@strp->q', '&a', '@id', '&@id', '(_Bool0) a'.replace('_Bool0', 'char')]).replace('%s', self.iv())
            r = s.n(5)
            if r == 0 or v in ('@fp', '@arr', '&a', '@id', '&@id', '@str'):
                return s.choice(['%s', '!%s', '(%s)', '!!%s', '%s && 1', '0 || %s']) % v
            if r == 1:
                return '%s %s %d' % (v, s.choice(['<', '>', '==', '!=', '<=', '>=']), s.n(9))
            if r == 2:
                return '%d %s %s' % (s.n(9), s.choice(['<', '>', '==', '!=', '<=', '>=']), v)
            return '%s%s' % (s.choice(['', '!', '-', '']) , v)
        if k == 16 and d > 0:
            self.feats.add('functions-compared')
            return s.choice(['@fp == @id', '@id == @fp', '@fp != @id2', '&@id == @fp', '@fp == &@id2', '!@fp', '@fp != 0', '0 == @fp', '(a > 3 ? @id : @id2) == @fp', '@id != @id2', '@id == @id', '*@fp == @id'])
        if k == 17:
            k = s.n(14)
        if d <= 0 or k < 4:
            return '%s %s %s' % (self.e(0), s.choice(['<', '>', '==', '!=', '<=', '>=']), self.e(0))
        if k == 4:
            return self.iv()
        if k == 5:
            return '!%s' % self.iv()
        if k == 6:
            return '!(%s)' % self.c(d - 1, m)
        if k in (7, 8):
            self.feats.add('&&')
            return '(%s && %s)' % (self.c(d - 1, m), self.c(d - 1, m))
        if k in (9, 10):
            self.feats.add('||')
            return '(%s || %s)' % (self.c(d - 1, m), self.c(d - 1, m))
        if k == 11:
            return '(%s & %d)' % (self.e(d - 1, m), 1 << s.n(4))
        if k == 12 or m < 2:
            return s.choice(['d', 'd < 3', 'd == a', 'p', '!p', 'p == &b', 'd >= l', '!d', 'p != 0'])
        return '(%s) != 0' % self.asg()

    def asg(self):
        s = self.s
        k = s.n(11)
        if k == 0:
            return 'd = %s' % s.choice(['d + 1', 'a', '0', 'd / 2', 'b + 0.5'])
        if k == 1:
            return 'p = %s' % s.choice(['&a', '&b']) if s.p(50) else 'd = a'
        if k == 2:
            v = s.choice(['a', 'b', 'u', 'l', 'v', 's'])
            return '%s %s' % (v, s.choice(['&= 63', '^= 1', '|= 4', '>>= 1']))
        if k == 3:
            return '*p = (%s) & 127' % self.e(1, 1)
        v = self.iv()
        return '%s = (%s) & %d' % (v, self.e(2), s.choice([3, 7, 127]))

    def counter(self):
        n = 'i%d' % len(self.counters)
        self.counters.append(n)
        return n

    def block(self, depth, ctx):
        s = self.s
        out = []
        saved = list(self.extra)
        if not self.goto and not ctx.get('cases') and s.p(25):
            n = s.choice(['a', 'b', 'u', 't%d' % self.fresh(), 't%d' % self.fresh()])
            t = s.choice(['int', 'long', 'short', 'unsigned int'])
            if n in ('a', 'b', 'u'):
                t = 'int' if n != 'u' else 'unsigned int'
                out.append('%s %s = %d;' % (t, n, s.n(20)))
                self.feats.add('shadow')
            else:
                out.append('%s %s = (%s) & 63;' % (t, n, self.e(1)))
                self.extra.append(n)
        for _ in range(1 + s.n(4)):
            out.append(self.stmt(depth, ctx))
        self.extra = saved
        return '{ ' + '\n'.join(out) + ' }'

    def body(self, depth, ctx):
        """a sub statement: sometimes without braces"""
        if self.s.p(30):
            return self.stmt(depth, ctx)
        return self.block(depth, ctx)

    def sub(self, ctx, **k):
        c = dict(ctx)
        c.update(k)
        return c

    def stmt(self, depth, ctx):
        s = self.s
        self.budget -= 1
        pre = ''
        if self.goto and self.todo and s.p(35):
            pre += self.todo.pop() + ': '
            self.feats.add('label')
        elif self.goto and s.p(12):
            self.nl += 1
            n = 'B%d' % self.nl
            self.labels.append(n)
            pre += n + ': '
        if ctx.get('cases') and s.p(30):
            lab = ctx['cases'].pop() if ctx['cases'] else None
            if lab:
                pre += lab + ' '
                self.feats.add('case-inside-statement' if ctx.get('nested') else 'case')
        return pre + self.stmt_(depth, ctx)

    def stmt_(self, depth, ctx):
        s = self.s
        k = s.n(29) if depth > 0 and self.budget > 0 else s.n(7)
        if k <= 2:
            return self.trace()
        if k <= 4:
            return self.asg() + ';'
        if k == 5:
            if ctx.get('loop') and s.p(50):
                self.feats.add('continue')
                return s.choice(['if (%s) continue;' % self.c(1), 'if (%s) continue;' % self.c(1), 'if (%s) { %s continue; }' % (self.c(1), self.trace()), 'continue;'])
            if ctx.get('loop') or ctx.get('switch'):
                self.feats.add('break')
                return s.choice(['if (%s) break;' % self.c(1), 'if (%s) { %s break; }' % (self.c(1), self.trace()), 'break;'])
            return ';'
        if k == 6:
            if s.p(30):
                self.feats.add('early-return')
                return 'if (%s) return%s;' % (self.c(1), '' if self.rtype == 'void' else ' ' + self.e(1))
            return 'out_i(%s);' % self.e(2)
        inner = self.sub(ctx, nested=True)
        if k <= 9:
            self.feats.add('if')
            return 'if (%s) %s' % (self.c(), self.body(depth - 1, inner) if s.p(70) else '{ ' + self.stmt(depth - 1, inner) + ' }')
        if k <= 12:
            self.feats.add('if-else')
            return 'if (%s) %s else %s' % (self.c(), self.block(depth - 1, inner), self.body(depth - 1, inner))
        if k <= 18:
            i = self.counter()
            n = 1 + s.n(4)
            loop = self.sub(ctx, loop=True, nested=True)
            # a label inside a loop may be jumped to from outside: all counters start at 0 in the function
            if k == 13:
                self.feats.add('while')
                cond = '%s++ < %d' % (i, n) + (' && %s' % self.c(1) if s.p(30) else '')
                return '%s = 0; while (%s) %s' % (i, cond, self.body(depth - 1, loop)) if not self.single(ctx) else 'while (%s) %s' % (cond, self.body(depth - 1, loop))
            if k == 14:
                self.feats.add('do')
                cond = '++%s < %d' % (i, n) + (' && %s' % self.c(1) if s.p(30) else '')
                return 'do %s while (%s);' % (self.block(depth - 1, loop), cond)
            self.feats.add('for')
            init = '%s = 0' % i + (', %s' % self.asg() if s.p(20) else '')
            cond = '%s < %d' % (i, n) + (' && %s' % self.c(1) if s.p(30) else '')
            inc = s.choice(['%s++', '++%s', '%s += 1', '%s = %s + 1']).replace('%s', i) + (', %s' % self.asg() if s.p(20) else '')
            if s.p(15):
                return 'for (%s; ; %s) { if (!(%s)) break; %s }' % (init, inc, cond, self.stmt(depth - 1, loop))
            if s.p(15) and not self.goto and not ctx.get('cases'):
                self.feats.add('for-decl')
                j = 'j%d' % self.fresh()
                self.extra.append(j)
                b = self.body(depth - 1, loop)
                self.extra.remove(j)
                return 'for (int %s = 0; %s < %d; %s++) %s' % (j, j, n, j, b) if not re_assigned(b, j) else 'for (int %s = 0, n%s = 0; n%s < %d; %s++, n%s++) %s' % (j, j, j, n, j, j, b)
            return 'for (%s; %s; %s) %s' % (init, cond, inc, self.body(depth - 1, loop))
        if k <= 21:
            return self.switch(depth, ctx)
        if k == 22 and self.goto:
            if self.labels and s.p(50):
                self.feats.add('goto-back')
                return 'if (fuel-- > 0%s) goto %s;' % (' && ' + self.c(1) if s.p(60) else '', s.choice(self.labels))
            self.nl += 1
            n = 'L%d' % self.nl
            self.todo.append(n)
            self.feats.add('goto-forward')
            # forward in the text may still be inside a loop, so it is bounded too
            return 'if (fuel-- > 0 && %s) goto %s;' % (self.c(1), n)
        if k == 24:
            # loops without a condition
            self.feats.add('endless-loop')
            i = self.counter()
            n = 1 + s.n(4)
            loop = self.sub(ctx, loop=True, nested=True)
            out = s.choice(['if (%s++ >= %d) break;' % (i, n), 'if (++%s > %d) break;' % (i, n), 'if (%s++ >= %d) { %s break; }' % (i, n, self.trace())])
            b = '{ %s %s }' % (out, '\n'.join(self.stmt(depth - 1, loop) for _ in range(1 + s.n(3))))
            if s.p(30) and self.rtype == 'void':
                b = b.replace('break;', 'return;', 1)
            return s.choice(['while (1) %s', 'for (;;) %s', 'do %s while (1);', 'for (; 1; ) %s', 'while (!0) %s', 'for (;; a ^= 1) %s', 'while ("x") %s', 'while (0.5) %s']) % b
        if k == 25:
            self.feats.add('never-loop')
            loop = self.sub(ctx, loop=True, nested=True)
            return s.choice(['while (0) %s', 'do %s while (0);', 'for (; 0; ) %s', 'if (0) %s', 'if (1) %s', 'do %s while (0);', 'for (%s; 0; a = 1) %%s' % self.asg().replace('%', '%%'), 'do %s while (0.0);', 'if (0) ; else %s']) % self.block(depth - 1, loop if s.p(50) and False else inner)
        if k == 26:
            self.feats.add('void-expression')
            f = lambda: s.choice(['@vf(%s)', '(void) @id(%s)', '@vf(%s), @vf(1)', '(void) (%s)', '({ @vf(%s); })', '(@vf)(%s)', '(*@vfp)(%s)', '@vfp(%s)']) % self.e(1, 1)
            t = s.n(7)
            if t == 0:
                return '%s ? (%s) : (%s);' % (self.c(1), f(), f())
            if t == 1 and self.rtype == 'void':
                return 'if (%s) return %s;' % (self.c(1), f())
            if t == 2:
                return '(%s, %s);' % (f(), f())
            if t == 3:
                return '%s %s @id(%s);' % (self.c(1), s.choice(['&&', '||']), self.e(1, 1))
            if t == 4:
                return 'for (%s; a > 1000; %s) ;' % (f(), f())
            if t == 5:
                return '(%s ? @id : @id2)(%s);' % (self.c(1), self.e(1, 1))
            return f() + ';'
        if k == 27:
            self.feats.add('statement-expression')
            i = self.counter()
            return s.choice(['%s = ({ int y = %d; for (%s = 0; %s < %d; %s++) { y += @id(%s); if (y > 40) break; } y & 63; });' % (self.iv(), s.n(9), i, i, s.n(4), i, i),
                             '%s = ({ int y = 0; if (%s) y = %d; else @vf(%s); y; }) + @id(%d);' % (self.iv(), self.c(1), s.n(50), i, s.n(9)),
                             'if (({ %s; %s; })) %s' % (self.asg(), self.iv(), self.trace()),
                             '%s = ({ switch (%s) { case 0: case 1: %s break; default: %s } %d; });' % (self.iv(), self.e(1, 1), self.trace(), self.trace(), s.n(60)),
                             'while (({ %s++ < %d; })) { %s }' % (i, s.n(4), self.trace()),
                             '({ @vf(%s); });' % self.iv(),
                             '@id(({ int z = %s; ({ z & 15; }); }));' % self.e(1, 1),
                             '%s = ({ if (%s) return%s; %d; });' % (self.iv(), self.c(1), '' if self.rtype == 'void' else ' ' + self.e(0), s.n(60))])
        if k == 28:
            self.feats.add('odd-switch')
            i = self.counter()
            return s.choice(['switch (%s) { }' % self.e(1), 'switch (%s) %s' % (self.e(1), self.trace()), 'switch (%s) { default: %s }' % (self.e(1), self.trace()), 'switch (%d) { case 1: %s case 2: %s break; default: %s }' % (s.n(4), self.trace(), self.trace(), self.trace()),
                             'switch (%s) case 1: case 2: default: %s' % (self.e(1), self.trace()), 'switch ((%s) & 3) case 2: while (%s++ < 3) { %s case 1: %s }' % (self.e(1), i, self.trace(), self.trace()),
                             'switch ((%s) & 3) { case 0: do { %s case 3: %s case 2: %s case 1: %s } while (%s++ < %d); }' % (self.e(1), self.trace(), self.trace(), self.trace(), self.trace(), i, s.n(4)),
                             'switch ((@EN) (a & 3)) { case @E0: %s break; case @E1: %s case @E2: %s }' % (self.trace(), self.trace(), self.trace()),
                             'while (%s++ < %d) switch (%s & 3) { case 0: continue; case 1: %s break; default: if (%s) break; %s }' % (i, 1 + s.n(5), i, self.trace(), self.c(1), self.trace()),
                             'switch (@bf.x) { case 2: %s case 3: %s break; default: %s }' % (self.trace(), self.trace(), self.trace()), "switch (*\"abc\") { case 'a': %s break; case 'b': %s }" % (self.trace(), self.trace())])
        if k == 23 and s.p(50):
            self.feats.add('statement-expression')
            return '%s = ({ %s (%s) & 31; });' % (self.iv(), 'int y = %d;' % s.n(9) if s.p(50) else self.trace(), self.e(1))
        return self.block(depth - 1, inner)

    def single(self, ctx):
        return True

    def switch(self, depth, ctx):
        s = self.s
        self.feats.add('switch')
        t = s.choice(['int', 'int', 'unsigned int', 'long', 'char', 'short', 'unsigned char', 'unsigned long'])
        vals = s.shuffle(list(range(0, 8)) + [-1, 100, 255, 256, -128])[:1 + s.n(6)]
        wide = False
        if t in ('long', 'unsigned long') and s.p(30):
            vals.append(4294967296)
            wide = True
        labs = ['case %s:' % (str(v) if s.p(80) else s.choice(['%d + 0', "(%d)", '%d | 0']) % v) for v in dict.fromkeys(vals)]
        if s.p(60):
            labs.insert(s.n(len(labs) + 1), 'default:')
        labs.reverse()
        sub = self.sub(ctx, switch=True, cases=labs, nested=False)
        out = []
        e = self.e(2)
        if s.p(70):
            e = '(%s) & 7' % e
        if wide or s.p(20):
            e = '(%s)(%s)' % (t, e)
        # mostly the ordinary layout
        if s.p(75):
            while labs:
                lab = labs.pop()
                extra = ''
                while labs and s.p(20):
                    extra += ' ' + labs.pop()
                ss = [self.stmt(depth - 1, self.sub(sub, cases=None)) for _ in range(s.n(3))]
                end = 'break;' if s.p(60) else ''
                if not end:
                    self.feats.add('fallthrough')
                if end:
                    self.feats.add('break')
                out.append('%s%s %s %s' % (lab, extra, '\n'.join(ss) or ';', end))
        else:
            if s.p(30):
                out.append(self.trace())        # unreachable
            for _ in range(2 + s.n(5)):
                out.append(self.stmt(depth - 1, sub))
            while labs:
                out.append(labs.pop() + ' ' + self.trace())
        return 'switch (%s) { %s }' % (e, '\n'.join(out))

    def function(self, name):
        s = self.s
        body = [self.stmt(4, {}) for _ in range(2 + s.n(5))]
        while self.todo:
            body.append(self.todo.pop() + ': ' + self.trace())
        vars_ = []
        for v, t in TYPES.items():
            if v in ('a', 'l'):
                continue
            vars_.append('%s %s = %s;' % (t, v, '&a' if v == 'p' else str(s.n(9))))
        if self.counters:
            vars_.append('int ' + ', '.join(c + ' = 0' for c in self.counters) + ';')
        vars_.append('int fuel = %d;' % (3 + s.n(20)))
        end = 'out_i(a); out_i(b); out_i(c); out_i(u); out_i(l); out_i(s); out_i(v); out_i(h); out_d(d); out_i(p == &b); '
        if self.rtype != 'void':
            end += 'return %s;' % self.e(1)
        return '%s %s(int a, long l) {\n%s\n%s\n%s\n}' % (self.rtype, name, '\n'.join(vars_), '\n'.join(body), end)


def re_assigned(b, j):
    return True


DECLS = '''static int @id(int x) { out_i(x); return x; }
static int @id2(int x) { out_i(-x); return x + 1; }
static void @vf(int x) { out_i(x + 1000); }
static int (*@fp)(int) = @id; static void (*@vfp)(int) = @vf;
typedef enum { @E0, @E1, @E2 = 5 } @EN;
static struct { unsigned x : 5; int y : 3; } @bf = { 3, -1 };
static int @arr[3] = { 4, 0, 6 }; static char @str[3] = "s"; static struct @S { char c; int *q; } @strs = { 0, @arr + 1 }, *@strp = &@strs;
'''


class ControlFlow(CDiffCheck):
    id = 'C03'
    batch = 40
    quick_chunks = 250
    thorough_chunks = 8000
    rule = ('random functions of nested if/else, while, do, for (with and without declarations and missing parts), switch (all integer '
            'types, fall through, default anywhere, cases inside nested statements), break, continue, forward and backward goto into and out of '
            'blocks and loops, early returns, endless and never executed loops, constant conditions and conditions of every scalar type, void expressions, ?:, && || and comma with side effects, statement expressions and shadowing declarations; '
            'called with three argument pairs; the trace of executed statements and the final values of ten variables are compared with gcc -O0. '
            'Non-trivial: at least 3 kinds of control statement; distinct by program text')
    assumptions = ['implementation defined conversions as on gcc x86-64']

    def gen(self, src):
        g = G(src)
        f = g.function('@f')
        body = []
        for _ in range(3):
            call = '@f(%d, %d)' % (src.n(10), src.n(10))
            out = {'void': '%s;', 'double': 'out_d(%s);'}.get(g.rtype, 'out_i(%s);') % call
            body.append(out)
        decl = DECLS + ('static ' if src.p(50) else '') + f
        kinds = [x for x in g.feats if x not in ('case', 'label', 'comma', 'shadow')]
        return Unit(decl, '\n'.join(body), features=sorted(g.feats), nontrivial=len(kinds) >= 3)


CHECK = ControlFlow()
