"""C02: floating point expressions and conversions (float, double, long double)."""
from ..cdiff import CDiffCheck, Unit
from ..ctypes_model import *

FTYPES = ['float', 'double', 'long double']
SUF = {'float': 'f', 'double': '', 'long double': 'L'}
OUT = {'float': 'out_f', 'double': 'out_d', 'long double': 'out_ld'}
CONSTS = ['0.0', '1.0', '-1.0', '0.5', '1.5', '2.0', '0.1', '1.1', '-0.1', '3.14159265358979323846', '1e10', '-1e10', '1e-10', '1e30', '1e-30',
          '16777216.0', '16777217.0', '9007199254740993.0', '1e38', '1.17549435e-38', '1e-45', '123456789.123456789', '2147483647.0',
          '2147483648.0', '4294967295.0', '4294967296.0', '9223372036854775807.0', '9223372036854775808.0', '18446744073709549568.0',
          '0.333333333333333333333', '2.5', '-2.5', '255.0', '65536.5', '-32768.75', '7.0', '-3.0', '100.0']
BIGD = ['1e300', '1e-300', '1.7976931348623157e308', '2.2250738585072014e-308', '5e-324']
BIGL = ['1e4000', '1e-4000', '1.18973149535723176502e4932']


class G:
    def __init__(self, src):
        self.s = src
        self.decl, self.locals, self.setup, self.after = [], [], [], []
        self.nv = self.ops = self.runtime = 0
        self.feats = set()

    def name(self, p='v'):
        self.nv += 1
        return '%s%d' % (p, self.nv)

    def ftype(self):
        return self.s.choice(['double', 'float', 'long double'])

    def const(self, t):
        s = self.s
        pool = CONSTS
        if t != 'float' and s.p(10):
            pool = BIGD
        if t == 'long double' and s.p(10):
            pool = BIGL
        c = s.choice(pool)
        if s.p(15):
            c = '%d.%d' % (s.n(1000), s.n(100000)) + s.choice(['', 'e5', 'e-7', 'E+3'])
        return '(%s%s)' % (c, SUF[t]) if c.startswith('-') else c + SUF[t]

    def var(self, t):
        s = self.s
        n = self.name()
        init = self.const(t)
        self.runtime += 1
        k = s.n(9)
        if k <= 2:
            self.locals.append('%s %s;' % (t, n)); self.setup.append('%s = %s;' % (n, init)); return n
        if k == 3:
            self.decl.append('%s @%s = %s;' % (t, n, init)); return '@' + n
        if k == 4:
            self.decl.append('static %s @%s;' % (t, n)); self.setup.append('@%s = %s;' % (n, init)); return '@' + n
        if k == 5:
            self.locals.append('%s %s; %s *p%s = &%s;' % (t, n, t, n, n)); self.setup.append('%s = %s;' % (n, init)); return '*p' + n
        if k == 6:
            self.locals.append('%s %s[3]; int i%s = %d;' % (t, n, n, s.n(3))); self.setup.append('%s[i%s] = %s;' % (n, n, init)); return '%s[i%s]' % (n, n)
        if k == 7:
            self.locals.append('struct { char c; %s m; int d; } %s;' % (t, n)); self.setup.append('%s.m = %s;' % (n, init)); return '%s.m' % n
        self.decl.append('static %s @%s(%s a) { return a; }' % (t, n, t))
        self.feats.add('call')
        return None if False else '@%s(%s)' % (n, init)

    def lvalue(self, t):
        while True:
            v = self.var(t)
            if '(' not in v:
                return v

    def intleaf(self):
        s = self.s
        if s.p(8):
            # a value at the edge of the range
            t, l, ft, v = edge_float(s)
            if l.startswith('-'):
                l = '(%s)' % l
            self.feats.add('edge-to-int')
            if s.p(30):
                return '((%s) %s)' % (t, l), t
            n = self.name()
            self.runtime += 1
            if s.p(40):
                self.locals.append('%s %s;' % (t, n)); self.setup.append('%s = %s;' % (n, l))
                return n, t
            self.locals.append('%s %s;' % (ft, n)); self.setup.append('%s = %s;' % (n, l))
            return '((%s) %s)' % (t, n), t
        t = s.choice(ALL)
        v = value(s, t)
        if s.p(40):
            return lit(s, t, v), t
        n = self.name()
        self.runtime += 1
        if s.p(50):
            self.locals.append('%s %s;' % (t, n)); self.setup.append('%s = %s;' % (n, lit(None, t, v, plain=True)))
            return n, t
        self.decl.append('%s @%s = %s;' % (t, n, lit(None, t, v, plain=True)))
        return '@' + n, t

    def fexpr(self, depth):
        """(text, float type)"""
        s = self.s
        if depth <= 0 or s.p(15):
            t = self.ftype()
            if s.p(25):
                self.feats.add('const'); return self.const(t), t
            return self.var(t), t
        self.ops += 1
        k = s.n(16)
        if k <= 6:
            op = s.choice('+-*/')
            a = self.any(depth - 1)
            b = self.any(depth - 1)
            if a[1] not in FTYPES and b[1] not in FTYPES:
                a = self.fexpr(depth - 1)
            t = max([x for x in (a[1], b[1]) if x in FTYPES], key=FTYPES.index)
            self.feats.add(op)
            return '(%s %s %s)' % (a[0], op, b[0]), t
        if k <= 8:
            a = self.fexpr(depth - 1)
            op = s.choice(['-', '+'])
            self.feats.add('u' + op)
            return '(%s %s)' % (op, a[0]), a[1]
        if k <= 10:
            t = self.ftype()
            a = self.any(depth - 1)
            self.feats.add('cast-from-' + ('int' if a[1] not in FTYPES else a[1].split()[0]))
            return '((%s) %s)' % (t, a[0]), t
        if k == 11:
            c = self.any(depth - 2)
            a = self.fexpr(depth - 1)
            b = self.any(depth - 1)
            t = max([x for x in (a[1], b[1]) if x in FTYPES], key=FTYPES.index)
            self.feats.add('ternary')
            if s.p(50):
                a, b = b, a
            return '(%s ? %s : %s)' % (c[0], a[0], b[0]), t
        if k == 12:
            t = self.ftype()
            v = self.lvalue(t)
            e = self.any(depth - 1)
            self.after.append((v, t))
            self.feats.add('assign')
            return '(%s = %s)' % (v, e[0]), t
        if k == 13:
            t = self.ftype()
            v = self.lvalue(t)
            e = self.any(depth - 1)
            op = s.choice('+-*/')
            self.after.append((v, t))
            self.feats.add(op + '=')
            return '(%s %s= %s)' % (v, op, e[0]), t
        if k == 14:
            t = self.ftype()
            v = self.lvalue(t)
            op = s.choice(['++', '--'])
            self.after.append((v, t))
            self.feats.add(op)
            return ('(%s(%s))' if s.p(50) else '((%s)%s)') % ((op, v) if s.n(2) == 2 else (op, v)) if False else \
                   ('(%s(%s))' % (op, v) if s.p(50) else '((%s)%s)' % (v, op)), t
        # call with several mixed arguments
        n = self.name('f')
        np = 1 + s.n(12)
        ts = [s.choice(FTYPES + ['int', 'long', 'unsigned char']) for _ in range(np)]
        rt = self.ftype()
        ret = ' + '.join('a%d * %d' % (i, i + 1) for i in range(np))
        self.decl.append('static %s @%s(%s) { return %s; }' % (rt, n, ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts)), ret))
        args = []
        for t in ts:
            if t in FTYPES:
                args.append(self.any(depth - 2)[0])
            else:
                args.append(self.intleaf()[0])
        self.feats.add('multi-arg-call')
        return '@%s(%s)' % (n, ', '.join(args)), rt

    def iexpr(self, depth):
        """(text, integer type)"""
        s = self.s
        if depth <= 0:
            return self.intleaf()
        k = s.n(8)
        self.ops += 1
        if k <= 2:
            op = s.choice(['<', '>', '<=', '>=', '==', '!='])
            before = len(self.after)
            a, b = self.fexpr(depth - 1), self.any(depth - 1)
            if s.p(50):
                a, b = b, a
            if s.p(15) and len(self.after) == before:
                b = a                     # no side effects: the same operand twice
            self.feats.add(op)
            return '(%s %s %s)' % (a[0], op, b[0]), INT
        if k == 3:
            self.feats.add('!')
            return '(! %s)' % self.fexpr(depth - 1)[0], INT
        if k == 4:
            op = s.choice(['&&', '||'])
            self.feats.add(op)
            return '(%s %s %s)' % (self.fexpr(depth - 1)[0], op, self.any(depth - 1)[0]), INT
        if k <= 6:
            # guarded conversion to an integer type
            ft = self.ftype()
            e = self.fexpr(depth - 1)
            t = s.choice(ALL)
            lo, hi = t.min, t.max
            if t.bits == 64:
                lo, hi = (-9000000000000000000 if t.signed else 0), (9000000000000000000 if t.signed else 18000000000000000000)
            if t.bits == 32 and ft == 'float':
                lo, hi = (-2147483000 if t.signed else 0), (2147483000 if t.signed else 4294967000)
            n = self.name('c')
            self.decl.append('static %s @%s(%s a) { if (a >= %d.0L && a <= %d.0L) return %s; return 7; }' % (
                t, n, ft, lo, hi, s.choice(['a', '(%s) a' % t])))
            self.feats.add('to-' + str(t).replace(' ', '-'))
            return '@%s(%s)' % (n, e[0]), t
        t = s.choice(ALL)
        # integer object assigned from a guarded float
        n = self.name('k')
        e = self.fexpr(depth - 1)
        g = self.name('g')
        self.decl.append('static %s @%s(%s a) { return a >= 0 && a <= 100 ? a : 3; }' % (e[1], g, e[1]))
        self.locals.append('%s %s;' % (t, n))
        self.setup.append('%s = 1;' % n)
        op = s.choice(['=', '+=', '-=', '*='] if t.rank >= 2 and t.signed else ['='])
        self.after.append((n, t))
        self.feats.add('int ' + op + ' float')
        return '(%s %s @%s(%s))' % (n, op, g, e[0]), t

    def any(self, depth):
        return self.iexpr(depth) if self.s.p(35) else self.fexpr(depth)


def outp(text, t):
    if t in FTYPES:
        return '%s(%s);' % (OUT[t], text)
    return ('out_i' if t.signed else 'out_u') + '(%s);' % text


class FloatExpr(CDiffCheck):
    id = 'C02'
    batch = 40
    quick_chunks = 500
    thorough_chunks = 6000
    rule = ('random expression trees over float, double, long double and the integer types (all operators, mixed operands, guarded '
            'conversions to integers, compound assignment, ++/--, comparisons including NaN, infinities, denormals and both zeros, '
            'calls with up to 12 mixed arguments), results compared bit for bit (NaN as NaN) with gcc -O0. Non-trivial: at least 2 '
            'operators and an operand that is not a constant; distinct by program text')
    assumptions = ['IEEE 754 evaluation in the type of the operands (FLT_EVAL_METHOD 0), x87 extended long double']

    def gen(self, src):
        g = G(src)
        body = []
        for _ in range(1 + src.n(3)):
            text, t = g.any(1 + src.n(4))
            use = src.n(5)
            if use <= 1:
                body.append(outp(text, t))
            elif use == 2:
                body.append('if (%s) out_i(11); else out_i(22);' % text)
            elif use == 3:
                d = src.choice(FTYPES)
                n = g.name('x')
                g.locals.append('%s %s;' % (d, n))
                body.append('%s = %s; ' % (n, text) + outp(n, d))
            else:
                n = g.name('n')
                g.locals.append('int %s = 0;' % n)
                body.append('while (%s) { if (++%s > 0) break; } out_i(%s);' % (text, n, n))
        for lv, t in g.after:
            body.append(outp(lv, t))
        b = '\n'.join(g.locals) + '\n' + ' '.join(g.setup) + '\n' + '\n'.join(body)
        return Unit('\n'.join(g.decl), b, features=sorted(g.feats), nontrivial=g.ops >= 2 and g.runtime >= 1)


CHECK = FloatExpr()
