"""C01: integer expressions."""
from ..cdiff import CDiffCheck, Unit
from ..ctypes_model import *

PREC = {'||': 4, '&&': 5, '|': 6, '^': 7, '&': 8, '==': 9, '!=': 9, '<': 10, '>': 10, '<=': 10, '>=': 10,
        '<<': 11, '>>': 11, '+': 12, '-': 12, '*': 13, '/': 13, '%': 13}
BIN = ['+', '-', '*', '&', '|', '^', '<<', '>>', '/', '%', '<', '>', '<=', '>=', '==', '!=', '&&', '||']
ARITH = BIN[:10]


class G:
    def __init__(self, src):
        self.s = src
        self.decl = []       # file scope
        self.locals = []     # declarations in the function
        self.setup = []      # assignments before the expression
        self.after = []      # observations after
        self.nv = 0
        self.ops = 0
        self.runtime = 0
        self.feats = set()
        self.minimal = src.n(3) > 0      # parenthesise only where the grammar needs it
        self.live = True     # is the expression being generated evaluated at all?

    def name(self, p='v'):
        self.nv += 1
        return '%s%d' % (p, self.nv)

    def var(self, t=None, v=None):
        """a fresh object of type t holding v: returns (lvalue text, t, v)"""
        s = self.s
        t = t or s.choice(ALL)
        v = value(s, t) if v is None else v
        L = lit(None, t, v, plain=True)
        kind = s.n(10)
        n = self.name()
        self.runtime += 1
        if kind <= 2:
            self.locals.append('%s %s;' % (t, n)); self.setup.append('%s = %s;' % (n, L)); return n, t, v
        if kind == 3:
            self.decl.append('%s @%s = %s;' % (t, n, L)); return '@' + n, t, v
        if kind == 4:
            self.decl.append('static %s @%s;' % (t, n)); self.setup.append('@%s = %s;' % (n, L)); return '@' + n, t, v
        if kind == 5:
            # via pointer to local
            self.locals.append('%s %s; %s *p%s = &%s;' % (t, n, t, n, n)); self.setup.append('%s = %s;' % (n, L)); return '*p' + n, t, v
        if kind == 6:
            i = s.n(4)
            self.decl.append('%s @%s[4];' % (t, n)); self.locals.append('int i%s = %d;' % (n, i))
            self.setup.append('@%s[%d] = %s;' % (n, i, L))
            return s.choice(['@%s[i%s]', '@%s[%s]' % ('%s', i) + '' if False else '@%s[i%s]']) % (n, n), t, v
        if kind == 7:
            o = s.choice(ALL)
            self.decl.append('struct @S%s { %s pad; %s m; %s post; };' % (n, o, t, o))
            self.locals.append('struct @S%s s%s;' % (n, n)); self.setup.append('s%s.m = %s;' % (n, L)); return 's%s.m' % n, t, v
        if kind == 8:
            o = s.choice(ALL)
            self.decl.append('struct @S%s { %s pad; %s m; } @g%s;' % (n, o, t, n))
            self.locals.append('struct @S%s *p%s = &@g%s;' % (n, n, n)); self.setup.append('p%s->m = %s;' % (n, L)); return 'p%s->m' % n, t, v
        self.locals.append('static %s %s = %s;' % (t, n, L)); return n, t, v

    def w(self, e, prec):
        """the text of e as an operand that must bind at least as tightly as prec"""
        if e[3] >= (prec if self.minimal else 16):
            return e[0]
        return '(%s)' % e[0]

    def leaf(self):
        """(text, type, value, precedence)"""
        t, ty, v = self.leaf_()
        c = t[0]
        return t, ty, v, 16 if (c.isalnum() or c in "@'(") and not t.startswith('sizeof') and '.' not in t and '->' not in t and '[' not in t and '(' not in t[1:] else (14 if c in '*-~+!' or t.startswith('sizeof') else 15)

    def leaf_(self):
        s = self.s
        k = s.n(10)
        if k < 3:
            t = s.choice([INT, LONG, UINT, ULONG])
            v = value(s, t)
            self.feats.add('const')
            return lit(s, t, v), t, v
        if k == 9 and s.p(30):
            self.feats.add('sizeof')
            t = s.choice(ALL)
            return 'sizeof(%s)' % t, ULONG, t.bits // 8
        if k == 8:
            t = s.choice(ALL)
            v = value(s, t)
            # function call result
            n = self.name('f')
            self.decl.append('static %s @%s(%s a) { return a; }' % (t, n, t))
            self.feats.add('call')
            self.runtime += 1
            return '@%s(%s)' % (n, lit(s, t, v)), t, v
        return self.var()

    def konst(self):
        s = self.s
        t = s.choice([INT, LONG, UINT, ULONG])
        v = t.wrap((1 << s.n(t.bits)) + s.choice([0, 0, 0, 0, 1, -1]))
        if t.signed and v != t.min and s.p(25):
            v = -v
        self.feats.add('pow2-const')
        return self.paren(lit(s, t, v), t, v)

    def paren(self, text, t, v):
        return text, t, v, 16

    def expr(self, depth):
        """(text fully parenthesised where needed, type, value)"""
        s = self.s
        if depth <= 0 or s.p(12):
            return self.leaf()
        k = s.n(20)
        self.ops += 1
        if k <= 10:
            op = s.choice(BIN)
            a = self.expr(depth - 1)
            if op in ('&&', '||') and s.p(40):
                # short circuit: the right side has an effect which must be seen only if evaluated
                lv, t, v = self.var()
                nv = value(s, t)
                self.feats.add('shortcircuit')
                ev = self.live and ((a[2] != 0) if op == '&&' else (a[2] == 0))
                self.observe(lv, t, nv if ev else v)
                r = int((a[2] != 0 and nv != 0) if op == '&&' else (a[2] != 0 or nv != 0))
                return '%s %s (%s = %s)' % (self.w(a, PREC[op]), op, lv, lit(s, t, nv)), INT, r, PREC[op]
            live = self.live
            if op in ('&&', '||'):
                self.live = live and ((a[2] != 0) if op == '&&' else (a[2] == 0))
            if op in ('*', '/', '%') and s.p(35) or s.p(8):
                # a constant operand: powers of two and their neighbours have rules of their own
                b = self.konst()
                if op in ('*', '+', '-', '&', '|', '^', '==', '!=', '<', '>', '<=', '>=') and s.p(40):
                    a, b = b, a
            else:
                b = self.expr(depth - 1)
            self.live = live
            if op in ('<<', '>>'):
                bits = promote(a[1]).bits
                if not 0 <= b[2] < bits:
                    self.feats.add('maskedshift')
                    r = binop('&', b[1], b[2], INT, bits - 1)
                    b = ('%s & %d' % (self.w(b, 9), bits - 1), r[0], r[1], 8)
            r = binop(op, a[1], a[2], b[1], b[2])
            if r is None and op == '<<':
                u = UNSIGNED[promote(a[1])]
                a = ('(%s)%s' % (u, self.w(a, 14)), u, u.wrap(a[2]), 14)
                r = binop(op, a[1], a[2], b[1], b[2])
            if r is None and op in ('+', '-', '*'):
                u = UNSIGNED[usual(a[1], b[1])]
                a = ('(%s)%s' % (u, self.w(a, 14)), u, u.wrap(a[2]), 14)
                r = binop(op, a[1], a[2], b[1], b[2])
            if r is None:
                op = s.choice(['^', '|', '&'])
                r = binop(op, a[1], a[2], b[1], b[2])
            self.feats.add(op)
            return '%s %s %s' % (self.w(a, PREC[op]), op, self.w(b, PREC[op] + 1)), r[0], r[1], PREC[op]
        if k <= 12:
            op = s.choice(['-', '~', '!', '+'])
            a = self.expr(depth - 1)
            r = unop(op, a[1], a[2])
            if r is None:
                op = '~'
                r = unop(op, a[1], a[2])
            self.feats.add('u' + op)
            return '%s %s' % (op, self.w(a, 14)), r[0], r[1], 14
        if k <= 14:
            t = s.choice(ALL)
            a = self.expr(depth - 1)
            self.feats.add('cast')
            return '(%s) %s' % (t, self.w(a, 14)), t, t.wrap(a[2]), 14
        if k == 15:
            c = self.expr(depth - 2)
            live = self.live
            self.live = live and c[2] != 0
            a = self.expr(depth - 1)
            self.live = live and c[2] == 0
            b = self.expr(depth - 1)
            self.live = live
            t = usual(a[1], b[1])
            self.feats.add('ternary')
            return '%s ? %s : %s' % (self.w(c, 4), self.w(a, 1), self.w(b, 3)), t, t.wrap(a[2] if c[2] else b[2]), 3
        if k == 16:
            a, b = self.leaf(), self.expr(depth - 1)
            self.feats.add('comma')
            return '%s, %s' % (self.w(a, 1), self.w(b, 2)), b[1], b[2], 1
        if k == 17:
            lv, t, v = self.var()
            a = self.expr(depth - 1)
            self.feats.add('assign')
            nv = t.wrap(a[2])
            self.observe(lv, t, nv if self.live else v)
            return '%s = %s' % (lv, self.w(a, 2)), t, nv, 2
        if k == 18:
            lv, t, v = self.var()
            op = s.choice(ARITH)
            a = self.konst() if op in '*/%' and s.p(35) else self.expr(depth - 1)
            if op in ('<<', '>>'):
                bits = promote(t).bits
                if not 0 <= a[2] < bits:
                    r = binop('&', a[1], a[2], INT, bits - 1)
                    a = ('%s & %d' % (self.w(a, 9), bits - 1), r[0], r[1], 8)
            r = binop(op, t, v, a[1], a[2])
            if r is None:
                op = s.choice(['^', '|', '&'])
                r = binop(op, t, v, a[1], a[2])
            nv = t.wrap(r[1])
            self.feats.add(op + '=')
            self.observe(lv, t, nv if self.live else v)
            return '%s %s= %s' % (lv, op, self.w(a, 2)), t, nv, 2
        lv, t, v = self.var()
        op = s.choice(['++', '--'])
        d = 1 if op == '++' else -1
        if t.rank >= 3 and t.signed and not t.fits(v + d):
            d = -d
            op = '++' if d == 1 else '--'
        nv = t.wrap(v + d)
        self.feats.add(op)
        self.observe(lv, t, nv if self.live else v)
        if s.p(50):
            return '%s%s' % (op, lv if self.minimal else '(' + lv + ')'), t, nv, 14
        return '%s%s' % (lv if self.minimal and not lv.startswith('*') else '(' + lv + ')', op), t, v, 15

    def observe(self, lv, t, v):
        self.after.append((lv, t, v))


def out(t, v):
    if t.signed:
        return '%d' % v
    return '%du' % v


def outcall(text, t):
    return ('out_i' if t.signed else 'out_u') + '(%s);' % text


class IntExpr(CDiffCheck):
    id = 'C01'
    batch = 50
    quick_chunks = 600
    thorough_chunks = 6000
    rule = ('random typed integer expression trees (9 integer types; constants, locals, globals, statics, pointer targets, array '
            'elements, members and call results as operands; all operators, casts, assignments, ++/--, short circuit, ?:, comma) in '
            'eight uses (value, initialiser, condition, return, argument, subscript, store through pointer, loop bound); judged '
            'against the Python model of C integer semantics, cross-checked with gcc. Non-trivial: at least 2 operators and at '
            'least one operand that is not a constant; distinct by program text')
    assumptions = ['LP64 two\'s complement target', 'narrowing conversions wrap and >> of negatives is arithmetic, as gcc on x86-64']

    def gen(self, src):
        g = G(src)
        n = 1 + src.n(3)
        body, exp = [], []
        for _ in range(n):
            text, t, v, prec = g.expr(1 + src.n(5))
            if prec == 1: text = '(%s)' % text
            use = src.n(9)
            if use <= 1:
                body.append(outcall(text, t)); exp.append(out(t, v))
            elif use == 2:
                d = src.choice(ALL); n_ = g.name('x'); g.locals.append('%s %s;' % (d, n_))
                body.append('%s = %s; ' % (n_, text) + outcall(n_, d)); exp.append(out(d, d.wrap(v)))
            elif use == 3:
                body.append('if (%s) out_i(11); else out_i(22);' % text); exp.append('11' if v else '22')
            elif use == 4:
                d = src.choice(ALL); n_ = g.name('r')
                g.decl.append('static %s @%s(%s a) { return a; }' % (d, n_, t))
                body.append(outcall('@%s(%s)' % (n_, text), d)); exp.append(out(d, d.wrap(t.wrap(v))))
            elif use == 5:
                n_ = g.name('a'); g.decl.append('static int @%s[8] = {10,11,12,13,14,15,16,17};' % n_)
                body.append('out_i(@%s[(%s) & 7]);' % (n_, text)); exp.append(str(10 + (v & 7)))
            elif use == 6:
                d = src.choice(ALL); n_ = g.name('q'); g.locals.append('%s %s; %s *p%s = &%s;' % (d, n_, d, n_, n_))
                body.append('*p%s = %s; ' % (n_, text) + outcall(n_, d)); exp.append(out(d, d.wrap(v)))
            elif use == 7:
                n_ = g.name('w'); g.locals.append('int %s = 0;' % n_)
                body.append('while (!(%s)) { if (++%s > 0) break; } out_i(%s);' % (text, n_, n_)); exp.append('0' if v else '1')
            else:
                d = src.choice([INT, LONG, UINT, ULONG])
                n_ = g.name('z')
                body.append('{ %s %s = %s; %s }' % (d, n_, text, outcall(n_, d))); exp.append(out(d, d.wrap(v)))
        for lv, t, v in g.after:
            body.append(outcall(lv, t)); exp.append(out(t, v))
        b = '\n'.join(g.locals) + '\n' + ' '.join(g.setup) + '\n' + '\n'.join(body)
        return Unit('\n'.join(g.decl), b, expect=' '.join(exp) + ' ', features=sorted(g.feats),
                    nontrivial=g.ops >= 2 and g.runtime >= 1)


CHECK = IntExpr()
