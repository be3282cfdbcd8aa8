"""C10: a constant expression has the value the same expression has at run time, wherever it is used."""
from ..cdiff import CDiffCheck, Unit
from ..ctypes_model import *
from .. import ctypes_model as M

FT = ['double', 'float', 'long double']
SIZES = {'char': 1, 'short': 2, 'int': 4, 'long': 8, 'float': 4, 'double': 8, 'long double': 16, 'void *': 8, 'char [7]': 7, 'int [3][2]': 24,
         'struct { char c; long l; }': 16, 'union { int i; char c[6]; }': 8, 'int (*)(void)': 8, 'unsigned char': 1, 'long [5]': 40}


class Fl:
    """a floating type"""

    def __init__(self, name):
        self.name = name


FLS = [Fl(n) for n in FT]


class E:
    """const: text as a constant expression; run: the same with variables for the constants"""

    def __init__(self, const, run, t, v):
        self.const, self.run, self.t, self.v = const, run, t, v


class G:
    def __init__(self, s):
        self.s = s
        self.vars = []
        self.enums = []       # (name, value)
        self.n = 0
        self.feats = set()
        self.decl, self.body = [], []

    def nm(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def var(self, t, text):
        n = self.nm('v')
        self.vars.append('volatile %s %s = %s;' % (t.name, n, text))
        return n

    # -- integers
    def leaf(self):
        s = self.s
        k = s.n(12)
        if k == 0 and self.enums:
            n, v = s.choice(self.enums)
            self.feats.add('enumerator')
            return E(n, self.var(INT, n), INT, v)
        if k == 1:
            ty = s.choice(sorted(SIZES))
            self.feats.add('sizeof-type')
            return E('sizeof(%s)' % ty, 'sizeof(%s)' % ty, ULONG, SIZES[ty])
        if k == 2:
            c = s.choice([('a', 97), ('0', 48), (' ', 32), ('\\n', 10), ('\\0', 0), ('\\x7f', 127), ('\\377', -1), ('\\\\', 92), ('\\\'', 39), ('"', 34), ('\\x80', -128)])
            self.feats.add('character')
            return E("'%s'" % c[0], self.var(INT, "'%s'" % c[0]), INT, c[1])
        if k == 3:
            e = self.any_leaf()
            sz = {'double': 8, 'float': 4, 'long double': 16}.get(e.t.name) or e.t.bits // 8
            self.feats.add('sizeof-expression')
            return E('sizeof(%s)' % e.const, 'sizeof(%s)' % e.run, ULONG, sz)
        t = s.choice([INT, UINT, LONG, ULONG])
        v = M.value(s, t)
        l = M.lit(s, t, v)
        return E(l, self.var(t, l), t, v)

    def any_leaf(self):
        if self.s.p(30):
            return self.fleaf()
        t = self.s.choice([INT, UINT, LONG, ULONG])
        v = M.value(self.s, t)
        l = M.lit(self.s, t, v)
        return E(l, self.var(t, l), t, v)

    def const_zero_division(self):
        s = self.s
        return '(%d %s 0)' % (s.n(5), s.choice(['/', '%']))

    def int_(self, d):
        s = self.s
        if d <= 0 or s.p(12):
            return self.leaf()
        for _ in range(20):
            k = s.n(12)
            if k < 6:
                op = s.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||'])
                a, b = self.int_(d - 1), self.int_(d - 1)
                if op in ('<<', '>>') and not (0 <= b.v < promote(a.t).bits):
                    t = s.choice([INT, UINT, LONG, ULONG])
                    v = s.n(promote(a.t).bits)
                    l = M.lit(s, t, v)
                    b = E(l, self.var(t, l), t, v)
                r = M.binop(op, a.t, a.v, b.t, b.v)
                if r is None:
                    continue
                self.feats.add('op' + op)
                return E('(%s %s %s)' % (a.const, op, b.const), '(%s %s %s)' % (a.run, op, b.run), *r)
            if k == 6:
                op = s.choice(['-', '~', '!', '+'])
                a = self.int_(d - 1)
                r = M.unop(op, a.t, a.v)
                if r is None:
                    continue
                self.feats.add('unary' + op)
                return E('(%s%s)' % (op, a.const), '(%s%s)' % (op, a.run), *r)
            if k in (7, 8):
                t = s.choice(M.ALL)
                a = self.int_(d - 1)
                self.feats.add('cast')
                return E('((%s) %s)' % (t.name, a.const), '((%s) %s)' % (t.name, a.run), t, t.wrap(a.v))
            if k == 9:
                c, a, b = self.int_(d - 2), self.int_(d - 1), self.int_(d - 1)
                t = M.usual(a.t, b.t)
                v = t.wrap(a.v if c.v else b.v)
                self.feats.add('ternary')
                return E('(%s ? %s : %s)' % (c.const, a.const, b.const), '(%s ? %s : %s)' % (c.run, a.run, b.run), t, v)
            if k == 10:
                # comparison or truth of floating values
                a, b = self.float_(d - 2), self.float_(d - 2)
                op = s.choice(['<', '>', '<=', '>=', '==', '!=', '&&', '||'])
                self.feats.add('float' + op)
                v = int({'<': a.v < b.v, '>': a.v > b.v, '<=': a.v <= b.v, '>=': a.v >= b.v, '==': a.v == b.v, '!=': a.v != b.v, '&&': a.v != 0 and b.v != 0, '||': a.v != 0 or b.v != 0}[op])
                if abs(a.v - b.v) < 1e-3:
                    continue
                return E('(%s %s %s)' % (a.const, op, b.const), '(%s %s %s)' % (a.run, op, b.run), INT, v)
            # floating to integer
            a = self.float_(d - 1)
            t = s.choice(M.ALL)
            fr = abs(a.v - round(a.v))
            if not (t.min + 1 <= a.v <= t.max - 1) or a.v < 0 and not t.signed or abs(a.v) > 1e9 or fr < 1e-3 and not a.exact:
                continue
            self.feats.add('float-to-int')
            return E('((%s) %s)' % (t.name, a.const), '((%s) %s)' % (t.name, a.run), t, int(a.v))
        return self.leaf()

    # -- floating; v is approximate
    def fleaf(self):
        s = self.s
        t = FLS[s.n(3)]
        text = s.choice(['1.5', '0.0', '2.0', '0.1', '3.', '.25', '1e3', '1E-2', '123456.789', '16777217.0', '1e10', '0.3333333333333333333', '2.5e+4', '7.0', '1e-5', '65536.5'])
        l = text + {'double': '', 'float': s.choice(['f', 'F']), 'long double': s.choice(['l', 'L'])}[t.name]
        e = E(l, self.var(t, l), t, float(text))
        e.exact = float(text) * 4 == int(float(text) * 4) and float(text) < 1e6
        return e

    def ftype(self, a, b):
        r = ['float', 'double', 'long double']
        ts = [x.t for x in (a, b) if isinstance(x.t, Fl)]
        return max(ts, key=lambda t: r.index(t.name))

    def float_(self, d):
        s = self.s
        if d <= 0 or s.p(20):
            return self.fleaf()
        for _ in range(20):
            k = s.n(8)
            if k < 4:
                op = s.choice(['+', '-', '*', '/'])
                a = self.float_(d - 1)
                b = self.float_(d - 1) if s.p(60) else self.int_(d - 2)
                if s.p(50):
                    a, b = b, a
                if op == '/' and b.v == 0 or abs(b.v) > 1e15 or abs(a.v) > 1e15:
                    continue
                v = {'+': lambda: a.v + b.v, '-': lambda: a.v - b.v, '*': lambda: a.v * b.v, '/': lambda: a.v / b.v}[op]()
                if op == '/' and abs(b.v) < 1e-6:
                    continue
                e = E('(%s %s %s)' % (a.const, op, b.const), '(%s %s %s)' % (a.run, op, b.run), self.ftype(a, b), float(v))
                e.exact = False
                self.feats.add('f' + op)
                return e
            if k == 4:
                a = self.float_(d - 1)
                e = E('(-%s)' % a.const, '(-%s)' % a.run, a.t, -a.v)
                e.exact = a.exact
                return e
            if k == 5:
                a = self.float_(d - 1) if s.p(50) else self.int_(d - 1)
                t = FLS[s.n(3)]
                e = E('((%s) %s)' % (t.name, a.const), '((%s) %s)' % (t.name, a.run), t, float(a.v))
                e.exact = getattr(a, 'exact', False) or isinstance(a.v, int) and abs(a.v) < 1e6
                self.feats.add('cast-float')
                return e
            if k == 6:
                c, a, b = self.int_(d - 2), self.float_(d - 1), self.float_(d - 1)
                e = E('(%s ? %s : %s)' % (c.const, a.const, b.const), '(%s ? %s : %s)' % (c.run, a.run, b.run), self.ftype(a, b), a.v if c.v else b.v)
                e.exact = a.exact and b.exact
                self.feats.add('fternary')
                return e
            return self.fleaf()
        return self.fleaf()

    # -- places
    def place(self):
        s = self.s
        k = s.n(14)
        d = 1 + s.n(4)
        if k in (11, 12):
            return self.fplace(d)
        if k == 13:
            return self.edge_place()
        e = self.int_(d)
        out = 'out_u' if not promote(e.t).signed else 'out_i'
        show = 'out_%s(%s);' % ('u' if not promote(e.t).signed else 'i', e.run)
        if k in (0, 1):
            t = s.choice(M.ALL)
            n = self.nm('@g')
            self.decl.append('%s%s %s = %s;' % (s.choice(['', 'static ', 'const ']), t.name, n, e.const))
            self.body.append('out_i(%s); out_i((%s) %s);' % (n, t.name, e.run))
            self.feats.add('global')
        elif k == 2:
            n = self.nm('@a')
            m = s.choice([7, 15, 31])
            self.decl.append('char %s[((%s) & %d) + 1];' % (n, e.const, m))
            self.body.append('out_i(sizeof(%s)); out_i(((%s) & %d) + 1);' % (n, e.run, m))
            self.feats.add('array-size')
        elif k == 3:
            n = self.nm('@E')
            v = e.v
            if INT.min <= v < INT.max:
                self.decl.append('enum { %s = %s, %sn };' % (n, e.const, n))
                self.body.append('out_i(%s); out_i(%sn); out_i(%s);' % (n, n, e.run))
                self.enums += [(n, v), (n + 'n', v + 1)]
            else:
                self.decl.append('enum { %s = (int) (%s) };' % (n, e.const))
                self.body.append('out_i(%s); out_i((int) (%s));' % (n, e.run))
                self.enums.append((n, INT.wrap(v)))
            self.feats.add('enum')
        elif k in (4, 5):
            # case labels: converted to the promoted type of the controlling expression
            t = s.choice([INT, LONG, UINT, ULONG, CHAR, UCHAR, SHORT, USHORT])
            pt = promote(t)
            es, seen = [], set()
            for x in [e] + [self.int_(d) for _ in range(s.n(4))]:
                v = pt.wrap(x.v)
                if v not in seen:
                    seen.add(v)
                    es.append((x, v))
            q = [v for _, v in es] + [M.value(s, t)]
            f = self.nm('@f')
            cases = ' '.join('case %s: r = %d; break;' % (x.const, i + 1) for i, (x, _) in enumerate(es))
            self.decl.append('int %s(%s x) { int r = 0; switch (x) { %s default: r = 100; } return r; }' % (f, t.name, cases))
            for v in q:
                if t.fits(v):
                    self.body.append('out_i(%s(%s));' % (f, M.lit(None, t, v)))
            for x, _ in es:
                self.body.append('out_i(%s((%s) %s));' % (f, t.name, x.run))
            self.feats.add('case')
        elif k == 6:
            n = self.nm('@B')
            self.decl.append('struct %s { unsigned a : ((%s) & 15) + 1; int b : ((%s) & 7) + 2; } %sv = { -1, %s };' % (n, e.const, e.const, n, M.lit(None, INT, M.value(s, INT))))
            self.body.append('{ struct %s b = %sv; out_u(b.a); out_i(b.b); out_u((1u << (((%s) & 15) + 1)) - 1); }' % (n, n, e.run))
            self.feats.add('bit-field-width')
        elif k == 7:
            n = self.nm('@p')
            m = s.choice([3, 7])
            ty = s.choice(['int', 'char', 'long', 'double', 'struct { short a[3]; }'])
            how = s.n(6)
            const = '((%s) & %d)' % (e.const, m)
            run = '((%s) & %d)' % (e.run, m)
            self.decl.append('%s %so[8];' % (ty, n))
            form = ['&%so[%s]', '%so + %s', '%s + %so', '&%so[8] - %s', '&*(%so + %s)', '(void *) ((char *) %so + %s)'][how]
            args = lambda i: (i, n) if how == 2 else (n, i)
            self.decl.append('void *%s = %s;' % (n, form % args(const)))
            self.body.append('out_i((char *) %s - (char *) %so); out_i((char *) (%s) - (char *) %so);' % (n, n, form % args(run), n))
            self.feats.add('address')
            if s.p(60):
                # differences, comparisons and truth of addresses in one object
                i = '((%s) & %d)' % (e.const, m), '((%s) & %d)' % (e.run, m)
                j = str(s.n(9)), None
                elem = s.choice(['%so + %s', '&%so[%s]', '&*(%so + %s)'])
                a, b = [elem % (n, i[0]), elem % (n, j[0])], [elem % (n, i[1]), elem % (n, j[0])]
                if s.p(50):
                    a.reverse()
                    b.reverse()
                if s.p(25):
                    a, b = [['(char *) (%s)' % y for y in z] for z in (a, b)]
                elif s.p(15):
                    a, b = [['(void *) (%s)' % y for y in z] for z in (a, b)]
                op = s.choice(['-', '-', '-', '-', '==', '!=', '<', '>', '<=', '>=']) if 'void' not in a[0] else s.choice(['==', '!='])
                f = s.choice(['(%s) ' + op + ' (%s)', '(%s) ' + op + ' (%s)', '!((%s) ' + op + ' (%s))', '((%s) ' + op + ' (%s)) * 3 + 1', '((%s) ' + op + ' (%s)) ? 7 : 9'])
                self.decl.append('long %sd = %s;' % (n, f % tuple(a)))
                self.body.append('out_i(%sd); out_i(%s);' % (n, f % tuple(b)))
                self.feats.add('address-difference' if op == '-' else 'address-comparison')
            if s.p(40):
                i = '((%s) & %d)' % (e.const, m), '((%s) & %d)' % (e.run, m)
                f = s.choice(['!&%so[%s]', '&%so[%s] && 1', '&%so[%s] || 0', '0 || %so + %s', '&%so[%s] == (void *) 0', '(void *) 0 != &%so[%s]', '%so + %s != 0',
                              '&%so[%s] ? 5 : 6', '1 && &%so[%s]', '!(%so + %s) + 4'])
                self.decl.append('int %se = %s;' % (n, f % (n, i[0])))
                self.body.append('out_i(%se); out_i(%s);' % (n, f % (n, i[1])))
                self.feats.add('address-truth')
            if s.p(25):
                # members, and offsets of members within the object
                self.decl.append('struct %sS { char c; %s m[4]; struct { short h; long g[3]; } in[3]; } %sv[4];' % (n, ty, n))
                i = '((%s) & 3)' % e.const, '((%s) & 3)' % e.run
                f = s.choice(['(char *) &@v[%s].in[1].g[2] - (char *) &@v[0]', '(char *) @v[%s].m - (char *) @v', '(char *) &@v[1].m[%s] - (char *) &@v[1].in[2].h',
                              '&@v[%s].in[2] - @v[%s].in', '&@v[%s].in[1].h == &@v[1].in[1].h', '&@v[2].m[%s] > &@v[2].m[1]', '&@v[%s] - &@v[2]', '(long) &((struct @S *) 0)->in[%s].g',
                              '(char *) &((struct @S *) 0)[%s].in[2].h - (char *) 0']).replace('@', n)
                k2 = f.count('%s')
                self.decl.append('long %sf = %s;' % (n, f % ((i[0],) * k2)))
                self.body.append('out_i(%sf); out_i(%s);' % (n, f % ((i[1],) * k2)))
                self.feats.add('address-member')
        elif k == 8:
            n = self.nm('l')
            t = s.choice(M.ALL)
            self.body.append('{ static %s %s = %s; out_i(%s); out_i((%s) %s); }' % (t.name, n, e.const, n, t.name, e.run))
            self.feats.add('local-static')
        elif k == 9:
            n = self.nm('l')
            self.body.append('{ int %s[((%s) & 7) + 1]; out_i(sizeof(%s)); out_i((((%s) & 7) + 1) * 4); }' % (n, e.const, n, e.run))
            self.feats.add('local-array-size')
        else:
            # in ordinary expressions, and unevaluated division by zero
            self.body.append('%s(%s); %s' % (out, e.const, show))
            if s.p(60):
                z = self.const_zero_division()
                n = self.nm('@z')
                form = s.choice(['(0 && %s)', '(1 || %s)', '(1 ? 5 : %s)', '(0 ? %s : 6)', 'sizeof(%s)', '(0 && (3 || %s))', '!(2 || %s)'])
                self.decl.append('int %s = %s;' % (n, form % z))
                self.body.append('out_i(%s);' % n)
                self.feats.add('unevaluated-division')
            self.feats.add('expression')
        if s.p(8):
            n = self.nm('i')
            self.body.append('{ int %s = 3; int a[4]; out_i(sizeof(%s++)); out_i(%s); out_i(sizeof(a[%s = 2])); out_i(sizeof(char [sizeof(%s += 5)])); out_i(%s); }' % (n, n, n, n, n, n))
            self.feats.add('sizeof-unevaluated')

    def edge_place(self):
        # a floating constant converted to an integer type at the edge of its range
        s = self.s
        t, l, ft, v = M.edge_float(s)
        o = 'out_u' if not promote(t).signed else 'out_i'
        n = self.nm('e')
        run = self.var(Fl(ft), l)
        k = s.n(6)
        if k == 0:
            self.decl.append('%s @%s = %s;' % (t.name, n, l))
            self.body.append('%s(@%s);' % (o, n))
        elif k == 1:
            self.body.append('{ static %s l%s = %s; %s(l%s); }' % (t.name, n, l, o, n))
        elif k == 2:
            self.body.append('%s((%s) %s);' % (o, t.name, l))
        elif k == 3:
            self.body.append('{ %s l%s = %s; %s(l%s); }' % (t.name, n, l, o, n))
        elif k == 4:
            self.decl.append('struct { char c; %s m[2]; } @%s = { 1, { %s, (%s) %s } };' % (t.name, n, l, t.name, l))
            self.body.append('%s(@%s.m[0]); %s(@%s.m[1]);' % (o, n, o, n))
        else:
            self.decl.append('static %s @f%s(%s a) { return a; }' % (t.name, n, t.name))
            self.body.append('%s(@f%s(%s));' % (o, n, l))
        self.body.append('{ %s q; q = %s; %s(q); %s((%s) %s); }' % (t.name, run, o, o, t.name, run))
        self.feats.add('edge-float-to-int')

    def fplace(self, d):
        s = self.s
        e = self.float_(d)
        n = self.nm('@d')
        t = s.choice(FT)
        o = {'double': 'out_d', 'float': 'out_f', 'long double': 'out_ld'}
        k = s.n(3)
        if k == 0:
            self.decl.append('%s %s = %s;' % (t, n, e.const))
        elif k == 1:
            self.body.append('{ static %s l%s = %s; %s(l%s); }' % (t, n[1:], e.const, o[t], n[1:]))
            n = None
        else:
            self.body.append('%s(%s); %s(%s);' % (o[e.t.name], e.const, o[e.t.name], e.run))
            n = None
        if n:
            self.body.append('%s(%s);' % (o[t], n))
        self.body.append('{ %s q = %s; %s(q); }' % (t, e.run, o[t]))
        self.feats.add('float-place')

    def unit(self):
        n = 1 + self.s.n(4)
        for _ in range(n):
            self.place()
        return Unit('\n'.join(self.decl), '\n'.join(self.vars + self.body), features=sorted(self.feats), nontrivial=len(self.vars) > 0 and len(self.feats) >= 2)


class ConstExpr(CDiffCheck):
    id = 'C10'
    batch = 30
    quick_chunks = 400
    thorough_chunks = 8000
    flag_sets = [[], [], ['-fno-optimize-arithmetic'], ['-fPIC']]
    rule = ('random typed expression trees of integer, character, enumeration, sizeof and floating constants (values chosen by a model so that no operation is '
            'undefined), each placed where the language needs a constant (initializer of every arithmetic type, array size, enumerator, case label, bit-field width, '
            'address constant, static local) and once more in the function with each constant replaced by a volatile variable; unevaluated divisions by zero and '
            'sizeof operands with side effects. Both results are printed and compared with gcc -O0. Non-trivial: at least one operator, place and variable; distinct by program text')

    def gen(self, src):
        return G(src).unit()


CHECK = ConstExpr()
