"""C04: aggregates, arrays and pointers as objects in memory."""
from ..cdiff import CDiffCheck, Unit
from ..ctree import *


def fix_decls(lines):
    """each declaration opens a block, so that declarations come first"""
    out = []
    n = 0
    for l in lines:
        if l.split()[0] in ('static', 'char', 'short', 'int', 'long', 'signed', 'unsigned'):
            out.append('{ ' + l)
            n += 1
        else:
            out.append(l)
    return out + ['} ' * n]


class G:
    def __init__(self, s):
        self.s = s
        self.ty = Types(s, bitfields=s.p(12))
        self.decl = []
        self.funcs = []
        self.loc = []
        self.ops = []
        self.objs = []      # (lvalue text, type)
        self.guards = []    # text of guard arrays
        self.n = 0
        self.feats = set()
        self.byfn = {}

    def nm(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # -- objects
    def obj(self, t):
        s = self.s
        k = s.n(9)
        n = self.nm('o')
        g = 8 * (1 + s.n(2))
        if k == 0:
            self.loc.append(t.decl(n) + ';')
            r = n
        elif k == 1:
            self.decl.append(('static ' if s.p(50) else '') + t.decl('@' + n) + ';')
            r = '@' + n
        elif k == 2:
            self.loc.append('static ' + t.decl(n) + ';')
            r = n
        elif k in (3, 4, 5):
            self.decl.append('struct @B%s { unsigned char g1[%d]; %s; unsigned char g2[%d]; };' % (n, g, t.decl('o'), g))
            if k == 3:
                self.decl.append('struct @B%s @%s;' % (n, n))
                b = '@' + n
            else:
                self.loc.append('struct @B%s %s;' % (n, n))
                b = n
            self.guards += [b + '.g1', b + '.g2']
            if k == 5 and s.p(50):
                self.loc.append('struct @B%s *p%s = &%s;' % (n, n, b))
                r = 'p%s->o' % n
            else:
                r = b + '.o'
            self.feats.add('guarded')
        elif k in (6, 7):
            # element of an array, its neighbours are other objects
            c = 2 + s.n(3)
            i = s.n(c)
            self.loc.append(('static ' if s.p(30) else '') + ARR(t, c).decl(n) + ';')
            self.objs += [('%s[%d]' % (n, j), t) for j in range(c) if j != i]
            if s.p(40):
                it = s.choice(INTS)
                self.loc.append('%s i%s = %d;' % (it, n, i))
                r = '%s[i%s]' % (n, n)
            else:
                r = '%s[%d]' % (n, i)
        else:
            self.loc.append(t.decl(n) + ';')
            self.loc.append(PTR(t).decl('p' + n) + ' = &%s;' % n)
            r = '(*p%s)' % n
        self.objs.append((r, t))
        return r

    def fill(self, path, t):
        s = self.s
        out = []
        for p, l, b in leaves(t, path)[:60]:
            out.append('%s = %s;' % (p, scalar_value(s, l, b)))
        return ' '.join(out)

    def show(self, path, t):
        return ' '.join(observe(p, l) for p, l, b in leaves(t, path)[:40]) + ' out_nl();'

    # -- helper functions per type
    def fn(self, kind, t):
        key = (kind, t.text())
        if key in self.byfn:
            return self.byfn[key]
        s = self.s
        n = '@' + self.nm('f')
        self.byfn[key] = n
        T_ = t.text()
        lv = leaves(t, 'a')
        chg = ''
        if lv:
            p, l, b = lv[s.n(len(lv))]
            chg = '%s = %s;' % (p, scalar_value(s, l, b))
        st = s.choice(['', 'static '])
        if kind == 'ret':
            self.funcs.append('%s%s %s(%s *p) { return *p; }' % (st, T_, n, T_))
        elif kind == 'id':
            self.funcs.append('%s%s %s(%s a) { return a; }' % (st, T_, n, T_))
        elif kind == 'chg':
            self.funcs.append('%s%s %s(%s a) { %s return a; }' % (st, T_, n, T_, chg))
        elif kind == 'show':
            self.funcs.append('%svoid %s(%s a) { %s %s }' % (st, n, T_, self.show('a', t), chg))
        elif kind == 'sel':
            self.funcs.append('%s%s %s(int x, %s a, double d, %s b) { if (x) return a; out_d(d); return b; }' % (st, T_, n, T_, T_))
        elif kind == 'out':
            self.funcs.append('%svoid %s(%s *p, %s a) { *p = a; }' % (st, n, T_, T_))
        return n

    def same(self, t):
        """objects and subobjects of the same type"""
        out = []
        for o, ot in self.objs:
            for p, pt, b in subobjects(ot, o)[:40]:
                if pt is t and b is None:
                    out.append(p)
        return out

    def pickrec(self):
        c = []
        for o, t in self.objs:
            for p, pt, b in subobjects(t, o)[:40]:
                if pt.kind == 'rec' and pt.tag:
                    c.append((p, pt))
        return self.s.choice(c) if c else None

    def rvalue(self, t, depth=2):
        """an expression of record type t"""
        s = self.s
        k = s.n(12)
        a = s.choice(self.same(t))
        if depth <= 0 or k <= 2:
            return a
        self.feats.add('rvalue%d' % k)
        if k == 3:
            return '%s(&%s)' % (self.fn('ret', t), a)
        if k == 4:
            return '%s(%s)' % (self.fn('id', t), self.rvalue(t, depth - 1))
        if k == 5:
            return '%s(%s)' % (self.fn('chg', t), self.rvalue(t, depth - 1))
        if k == 6:
            return '%s(%d, %s, 0.5, %s)' % (self.fn('sel', t), s.n(2), self.rvalue(t, depth - 1), self.rvalue(t, 0))
        if k == 7:
            return '(%s ? %s : %s)' % (s.choice(['cond', '!cond', '1', '0']), self.rvalue(t, depth - 1), self.rvalue(t, depth - 1))
        if k == 8:
            return '(cnt++, %s)' % self.rvalue(t, depth - 1)
        if k == 9:
            return '({ %s = %s; tmp; })' % (t.decl('tmp'), a)
        if k == 10:
            fp = self.nm('q')
            T_ = t.text()
            self.loc.append('%s (*%s)(%s) = %s;' % (T_, fp, T_, s.choice(['', '&']) + self.fn('id', t)))
            return '%s(%s)' % (s.choice([fp, '(*%s)' % fp, '(**%s)' % fp]), self.rvalue(t, depth - 1))
        return '*&%s' % a

    def rec_op(self):
        s = self.s
        x = self.pickrec()
        if not x:
            return self.ptr_block()
        p, t = x
        k = s.n(10)
        self.feats.add('rec%d' % k)
        if k <= 3:
            return '%s = %s;' % (p, self.rvalue(t))
        if k == 4:
            return '%s(%s);' % (self.fn('show', t), self.rvalue(t))
        if k == 5:
            lv = [l for l in leaves(t, '') if True]
            if not lv:
                return ';'
            lp, l, b = s.choice(lv)
            if '[' in lp:
                return '%s = %s;' % (p, self.rvalue(t))
            return observe('(%s)%s' % (self.rvalue(t), lp), l)
        if k == 6:
            q = s.choice(self.same(t))
            return '{ %s = &%s; %s = &%s; *p = *q; %s }' % (PTR(t).decl('p'), p, PTR(t).decl('q'), q, self.show('(*p)', t))
        if k == 7:
            return '%s(&%s, %s);' % (self.fn('out', t), p, self.rvalue(t))
        if k == 8:
            a, b = s.choice(self.same(t)), s.choice(self.same(t))
            return '%s = %s = %s;' % (p, a, b)
        return '{ %s = %s; %s %s = tmp; }' % (t.decl('tmp'), self.rvalue(t), self.fill('tmp', t), p)

    def leaf_op(self):
        """a store to one leaf"""
        s = self.s
        o, t = s.choice(self.objs)
        lv = leaves(t, o)
        if not lv:
            return ';'
        p, l, b = lv[s.n(len(lv))]
        k = s.n(4)
        if b is None and k == 0:
            self.feats.add('leaf-ptr')
            return '{ %s = &%s; *p = %s; %s }' % (PTR(l).decl('p'), p, scalar_value(s, l, b), observe('*p', l))
        if b is None and k == 1 and l.kind == 'int' and l.name != 'int' and l.name != 'long':
            return '%s++;' % p if s.p(50) else '%s += 3;' % p
        return '%s = %s;' % (p, scalar_value(s, l, b))

    # -- pointer arithmetic on an array of a random element type
    def ptr_block(self):
        s = self.s
        self.feats.add('pointer-arithmetic')
        e = s.choice([x for x in [self.ty.any(1), INT(s.choice(INTS)), FLOAT(s.choice(FLOATS))]])
        n = 3 + s.n(6)
        a = self.nm('a')
        out = []
        d = ARR(e, n).decl(('@' if s.p(30) else '') + a) + ';'
        if '@' + a in d:
            self.decl.append(d)
            a = '@' + a
        else:
            out.append(d)
        lv = leaves(e, '')
        pos = s.n(n)
        out.append(PTR(e).decl('p') + ' = %s;' % s.choice(['%s + %d', '&%s[%d]', '%s + %d']) .replace('%s', a).replace('%d', str(pos)))
        out.append(PTR(e).decl('q') + ' = %s;' % a)
        if not lv:
            lv = [None]
        lp, l, b = lv[s.n(len(lv))] if lv[0] else (None, None, None)
        if lp is None:
            return ';'
        # distinct values in the chosen leaf of every element
        base = 'p' if False else a
        for i in range(n):
            v = {'int': str(i * 7 + 1), 'float': '%d.5' % (i * 3), 'ptr': '(void *) %d' % (i * 8 + 8), 'enum': '1'}[l.kind]
            if b is not None:
                v = str(i & ((1 << (b - 1)) - 1))
            out.append('%s[%d]%s = %s;' % (a, i, lp, v))
        idx = []
        for _ in range(2):
            it = s.choice(INTS)
            idx.append((self.nm('i'), it))
            out.append('%s %s = 0;' % (it, idx[-1][0]))

        def ix(v):
            """an index expression with value v"""
            k = s.n(5)
            if k == 0:
                return str(v)
            nme, it = s.choice(idx)
            if v < 0 and not signed(it):
                return str(v)
            out.append('%s = %d;' % (nme, v))
            return nme

        def elem(ref, i):
            """observation of element i through ref, which designates it"""
            out.append(observe('%s%s' % (ref, lp), l))

        for _ in range(3 + s.n(6)):
            k = s.n(16)
            j = s.n(n)
            if k == 0:
                elem('p[%s]' % ix(j - pos), j)
            elif k == 1:
                elem('(*(p + %s))' % ix(j - pos), j)
            elif k == 2 and e.kind == 'rec':
                elem('(p + %s)->' % ix(j - pos) if False else '(*(p + %s))' % ix(j - pos), j)
            elif k == 3:
                d = j - pos
                out.append('p %s %s;' % ('+=' if d >= 0 else '-=', ix(abs(d))))
                pos = j
                elem('(*p)', pos)
            elif k == 4 and pos + 1 < n:
                op = s.choice(['p++', '++p'])
                elem('(*%s)' % op, 0)
                pos += 1
            elif k == 5 and pos > 0:
                op = s.choice(['p--', '--p'])
                elem('(*%s)' % op, 0)
                pos -= 1
            elif k == 6:
                out.append('out_i(p - q); out_i(q - p);')
            elif k == 7:
                out.append('out_i(p %s &%s[%s]);' % (s.choice(['<', '>', '<=', '>=', '==', '!=']), a, ix(j)))
            elif k == 8:
                out.append('out_i(&%s[%s] - p);' % (a, ix(j)))
            elif k == 9:
                out.append('out_i((char *) &p[%s] - (char *) q);' % ix(j - pos))
            elif k == 10:
                elem('(*(%s + p))' % ix(j - pos) if s.p(50) else '%s[p]' % (ix(j - pos)) if False else '(%s)[p]' % ix(j - pos), j)
            elif k == 11:
                v = {'int': str(s.n(100)), 'float': '%d.25' % s.n(50), 'ptr': '(void *) %d' % (8 * s.n(50)), 'enum': '2'}[l.kind]
                if b is not None:
                    v = str(s.n(1 << (b - 1)))
                out.append('p[%s]%s = %s;' % (ix(j - pos), lp, v))
            elif k == 12:
                out.append('out_i(p ? 1 : 2); out_i(!p); if (p && p == q + %d) out_i(3);' % pos)
            elif k == 13 and e.kind in ('rec', 'int', 'float'):
                out.append('*p = %s[%s];' % (a, ix(j)))
                elem('(*p)', pos)
            elif k == 14:
                out.append('{ %s = &p; (*pp) = q + %s; }' % (PTR(PTR(e)).decl('pp'), ix(j)))
                pos = j
                elem('(*p)', pos)
            else:
                out.append('out_i((p - %s) - q); out_i((p + %s) == &%s[%d]);' % (ix(pos), ix(j - pos), a, j))
        out.append(' '.join(observe('%s[%d]%s' % (a, i, lp), l) for i in range(n)))
        return '{ ' + '\n'.join(out) + ' }'

    def far_block(self):
        """pointer plus and minus an index anywhere in the range of its type, in a large array"""
        s = self.s
        self.feats.add('far-index')
        N = 70000
        et = s.choice(['char', 'short', 'int', 'long', 'rec', 'rec', 'double', 'long double', 'row'])
        big = '@' + self.nm('big')
        if et == 'rec':
            tag = '@' + self.nm('R')
            self.decl.append('struct %s { char c[%d]; };' % (tag, 1 + s.n(9)))
            ct, sub = 'struct ' + tag, '.c[0]'
        elif et == 'row':
            ct, sub = 'char', '[1]'
            big += '[%d]' % N
        else:
            ct, sub = et, ''
        rown = 2 + s.n(6)
        if et == 'row':
            name = big.split('[')[0]
            self.decl.append('static char %s[%d];' % (big, rown))
            ptr = lambda v: 'char (*%s)[%d]' % (v, rown)
            big = name
        else:
            self.decl.append('static %s %s[%d];' % (ct, big, N))
            ptr = lambda v: '%s *%s' % (ct, v)
        out = ['%s = %s; %s = %s;' % (ptr('p'), big, ptr('q'), big)]
        get = '(int) '
        for k in range(2 + s.n(5)):
            it = s.choice(INTS)
            sz = {'char': 8, 'short': 16}.get(it.split()[-1], 17)
            lo, hi = (-(1 << sz - 1), (1 << sz - 1) - 1) if signed(it) else (0, (1 << sz) - 1)
            lo, hi = max(lo, -65535), min(hi, 69999)
            v = s.choice([hi, hi - 1 - s.n(20), lo, lo + s.n(40) if lo < 0 else hi // 2 + 1 + s.n(30), s.n(N)])
            v = max(lo, min(hi, v))
            i = self.nm('i')
            how = s.n(4)
            out.append(['%s %s = %d;', '%s %s = opaque_l(%d);', 'static %s %s; %s = %d;', '%s %s = %d; %s *%sp = &%s;'][how]
                       % [(it, i, v), (it, i, v), (it, i, i, v), (it, i, v, it, i, i)][how])
            x = i if how != 3 else s.choice([i, '(*%sp)' % i])
            if s.p(15):
                x = '(%s) %d' % (it, v)
            # the place p has to be for p + v / p - v to be inside
            b = s.choice([0, 1, 3, N - 1, N // 2])
            plus = s.p(50)
            w = v if plus else -v
            b = max(b, -w)
            b = min(b, N - 1 - w)
            if not (0 <= b < N):
                continue
            d = b + w
            val = 1 + s.n(100)
            out.append('p = %s + %d; %s[%d]%s = %d;' % (big, b, big, d, sub, val))
            form = s.n(8)
            sg = '+' if plus else '-'
            if form == 0:
                out.append('q = p %s %s; out_i(q - %s);' % (sg, x, big))
            elif form == 1:
                out.append('q = p; q %s= %s; out_i(q - %s);' % (sg, x, big))
            elif form == 2:
                out.append('out_i((int) (*(p %s %s))%s);' % (sg, x, sub))
            elif form == 3 and plus:
                out.append('out_i((int) p[%s]%s);' % (x, sub))
            elif form == 4:
                out.append('(*(p %s %s))%s = %d; out_i((int) %s[%d]%s);' % (sg, x, sub, val + 20, big, d, sub))
            elif form == 5 and plus:
                out.append('q = &p[%s]; out_i((char *) q - (char *) %s); out_i(q - p);' % (x, big))
            elif form == 6 and plus:
                out.append('out_i((int) (%s)[p]%s);' % (x, sub))
            elif form == 7 and plus and b == 0:
                out.append('out_i((int) %s[%s]%s); out_i(&%s[%s] - %s);' % (big, x, sub, big, x, big))
            else:
                out.append('out_i((p %s %s) - %s); out_i(%s - (p %s %s));' % (sg, x, big, big, sg, x))
            out.append('%s[%d]%s = 0;' % (big, d, sub))
        return '{ ' + '\n'.join(fix_decls(out)) + ' }'

    def const_block(self):
        """addresses made from integers (not followed)"""
        s = self.s
        self.feats.add('constant-pointer')
        et = s.choice(['char', 'short', 'int', 'long', 'double', 'char *', 'struct @CP', 'struct @CP'])
        if 'CP' in et and not any('struct @CP {' in d for d in self.decl):
            self.decl.append('struct @CP { char c; short m[%d]; long g; };' % (1 + s.n(9)))
        big = lambda: s.choice([0x4000000 + s.n(200), 0x10000000, 0x7fffffff - s.n(3), 0x80000000 + s.n(3), 0xffffffff + s.n(3), 0x100000000, 0x7fff12345678, 0x123456789abc - s.n(100)])
        K = lambda: '(%s *) %s' % (et, s.choice(['%d', '0x%x', '%dl', '%dul']) % (big() & ~7))
        out = ['%s *p = %s; %s *q = %s; %s *r;' % (et, K(), et, K(), et)]
        for _ in range(2 + s.n(6)):
            it = s.choice(INTS)
            i = self.nm('i')
            v = s.choice([s.n(100), 1, 127, 30000, s.n(70000), 2147483647 if et != 'struct @CP' else 400000000, 300000000])
            if signed(it) and s.p(40):
                v = -v
            out.append(s.choice(['%s %s = (%s) %d;', '%s %s = (%s) opaque_l(%d);']) % (it, i, it, v))
            b = s.choice([lambda: 'p', lambda: 'q', K, K, lambda: '(%s)' % K(), lambda: 'r'])
            out.append('r = %s;' % s.choice(['p', 'q', K(), 'p + 1']))
            a = b()
            a = a if a in 'pqr' or a[:2] == '((' else '(%s)' % a
            L = str(big()) + 'l'
            H = '(%s *) %dl' % (et, 0x7fff12345678 - 8 * s.n(9))
            out.append('r = %s;' % s.choice([lambda: '%s + %s' % (a, i), lambda: '%s - %s' % (a, i), lambda: '&%s[%s]' % (a, i), lambda: '%s + %s' % (i, a), lambda: '%s + %s' % (a, L), lambda: '(%s) - %s' % (H, s.choice(['0x100000000', '4294967297l', '2147483648', '2147483647', '100'])),
                                            lambda: '&%s[%s]' % (a, L), lambda: '(%s > 3 ? %s : %s)' % (i, a, K()), lambda: '(%s *) ((char *) %s + %s)' % (et, a, i), lambda: '(%s *) ((long) %s + %s)' % (et, a, i)])())
            out.append('out_i((long) r);')
            if 'CP' in et:
                out.append(s.choice(['out_i((long) &%s[%s].g);', 'out_i((long) &(%s + %s)->m[0]);', 'out_i((long) (%s + %s)->m);', 'out_i((long) &%s->m[%s & 3]);']) % (a, i))
            c = s.choice(['==', '!=', '<', '>', '<=', '>='])
            out.append(s.choice(['out_i(%s %s %s);', 'if (%s %s %s) out_i(1);', 'cnt += %s %s %s ? 3 : 5;', 'out_i(!(%s %s %s));']) % s.choice([(a, c, 'r'), ('r', c, a), ('p', c, K()), (K(), c, 'q'), ('q', c, 'r'), (K(), c, 'p')]))
            if et != 'struct @CP' and s.p(50):
                out.append('out_i((char *) r - (char *) %s);' % s.choice([a, K()]) if s.p(50) else 'out_i((char *) %s - (char *) r);' % K())
            if s.p(30):
                out.append(s.choice(['r++;', '--r;', 'r += %s;', 'r -= %s;', 'r += ' + L + ';']).replace('%s', i) + ' out_i((long) r);')
        return '{ ' + '\n'.join(fix_decls(out)) + ' }'

    def array_block(self):
        """multi dimensional arrays and pointers to arrays"""
        s = self.s
        self.feats.add('multi-dimensional')
        e = INT(s.choice(INTS)) if s.p(70) else FLOAT(s.choice(FLOATS))
        d = [2 + s.n(3) for _ in range(2 + s.n(2))]
        a = self.nm('a')
        t = e
        for x in reversed(d):
            t = ARR(t, x)
        out = [t.decl(a) + ';']
        row = t.of
        import itertools
        k = 0
        for ii in itertools.product(*[range(x) for x in d]):
            out.append('%s%s = %d;' % (a, ''.join('[%d]' % i for i in ii), k + 1))
            k += 1
        out.append(PTR(row).decl('pa') + ' = %s;' % a)
        out.append(PTR(t).decl('pt') + ' = &%s;' % a)
        out.append('int i, j; long k; ')
        for _ in range(2 + s.n(4)):
            ii = [s.n(x) for x in d]
            c = s.n(7)
            last = ''.join('[%d]' % i for i in ii[1:])
            if c == 0:
                x = a + ''.join('[%d]' % i for i in ii)
            elif c == 1:
                x = a
                for i in ii:
                    x = '*(%s + %d)' % (x, i) if s.p(60) else '(%s)[%d]' % (x, i)
            elif c == 2:
                out.append('pa = %s + %d;' % (a, ii[0]))
                x = '(*pa)' + last
            elif c == 3:
                x = '(*pt)' + ''.join('[%d]' % i for i in ii)
            elif c == 4:
                out.append('i = %d; j = %d; k = %d;' % (ii[0], ii[1], ii[-1]))
                x = '%s[i][j]' % a + ('[k]' if len(d) == 3 else '')
            elif c == 5:
                out.append('out_i(&%s[%d] - %s); out_i((char *) &%s%s - (char *) %s);' % (a, ii[0], a, a, ''.join('[%d]' % i for i in ii), a))
                x = 'pa[0]' + last
                out.append('pa = %s;' % a)
            else:
                out.append('out_u(sizeof(%s[0])); out_u(sizeof(*pa)); out_u(sizeof(%s)); out_u(sizeof(**pa));' % (a, a))
                x = 'pt[0][%d]' % ii[0] + last
            if s.p(40):
                out.append('%s = %d;' % (x, s.n(100)))
            out.append(observe(x, e))
        return '{ ' + '\n'.join(out) + ' }'

    def func_block(self):
        s = self.s
        self.feats.add('function-pointers')
        n = 2 + s.n(3)
        fs = []
        rt = s.choice(['int', 'long', 'double', 'char', 'unsigned long'])
        pt = s.choice(['int', 'long', 'double', 'float', 'short'])
        for i in range(n):
            f = '@' + self.nm('g')
            self.funcs.append('%s%s %s(%s x) { return x + %d; }' % (s.choice(['', 'static ']), rt, f, pt, i * 3 + 1))
            fs.append(f)
        o = observe
        out = ['%s (*tab[%d])(%s) = { %s };' % (rt, n, pt, ', '.join(s.choice(['', '&']) + f for f in fs)),
               'struct { int pad; %s (*f)(%s); } st; %s (**pp)(%s) = tab; %s (*fp)(%s) = 0; int i = 0;' % (rt, pt, rt, pt, rt, pt)]
        R = FLOAT('double') if rt == 'double' else INT(rt)
        for _ in range(2 + s.n(5)):
            i = s.n(n)
            k = s.n(10)
            v = s.n(50)
            if k == 0:
                out.append(o('tab[%d](%d)' % (i, v), R))
            elif k == 1:
                out.append('i = %d; ' % i + o('(*tab[i])(%d)' % v, R))
            elif k == 2:
                out.append('st.f = %s; ' % fs[i] + o('st.f(%d)' % v, R))
            elif k == 3:
                out.append('fp = %s%s; ' % (s.choice(['', '&', '*', '**']), fs[i]) + o('fp(%d)' % v, R) + ' out_i(fp == %s); out_i(fp != %s%s);' % (fs[i], s.choice(['', '&']), s.choice(fs)))
            elif k == 4:
                out.append(o('(cond ? %s : %s)(%d)' % (fs[i], s.choice(fs), v), R))
            elif k == 5:
                out.append('pp = tab + %d; ' % i + o('(*pp)(%d)' % v, R))
            elif k == 6:
                out.append('pp = tab; pp += %d; ' % i + o('pp[%d](%d)' % (s.n(n - i), v), R))
            elif k == 7:
                out.append('out_i(fp ? 1 : 0); out_i(!fp); out_i(fp == 0); if (fp) %s' % o('(*fp)(%d)' % v, R))
            elif k == 8:
                out.append('{ void *vp = (void *) %s; fp = (%s (*)(%s)) vp; %s }' % (fs[i], rt, pt, o('fp(%d)' % v, R)))
            else:
                ap = '@' + self.nm('h')
                self.funcs.append('static %s %s(%s (*f)(%s), %s x) { return f(x) + 1; }' % (rt, ap, rt, pt, pt))
                out.append(o('%s(%s, %d)' % (ap, s.choice([fs[i], 'tab[%d]' % i, '*tab[%d]' % i]), v), R))
        return '{ ' + '\n'.join(out) + ' }'

    def gen(self):
        s = self.s
        ts = [self.ty.record(2) for _ in range(1 + s.n(2))]
        if s.p(30):
            ts.append(ARR(s.choice(ts), 1 + s.n(3)))
        for t in ts:
            for _ in range(1 + s.n(2)):
                self.obj(t)
        o0 = s.choice(self.objs)
        for i, (o, t) in enumerate(self.objs):
            self.ops.append(self.fill(o, t))
        n = 3 + s.n(6)
        for _ in range(n):
            k = s.n(15)
            if k == 14:
                self.ops.append(self.const_block())
            elif k < 6:
                self.ops.append(self.rec_op())
            elif k < 8:
                self.ops.append(self.leaf_op())
            elif k == 8 or k == 9:
                self.ops.append(self.ptr_block())
            elif k == 10:
                self.ops.append(self.array_block())
            elif k >= 12:
                self.ops.append(self.far_block())
            else:
                self.ops.append(self.func_block())
        for o, t in self.objs:
            self.ops.append(self.show(o, t))
        for g in self.guards:
            self.ops.append('out_mem(%s, sizeof(%s));' % (g, g))
        pre = ['{ int gi; for (gi = 0; gi < (int) sizeof(%s); gi++) %s[gi] = gi + %d; }' % (g, g, i) for i, g in enumerate(self.guards)]
        decl = '\n'.join(self.ty.defs + ['static int @cond0 = 1;'] + self.decl + self.funcs)
        body = '\n'.join(['int cond = @cond0; int cnt = 0;'] + self.loc + pre + self.ops + ['out_i(cnt);'])
        return Unit(decl, body, features=sorted(self.feats | self.ty.feats), nontrivial=len(self.feats) >= 3)


class Memory(CDiffCheck):
    id = 'C04'
    batch = 25
    quick_chunks = 260
    thorough_chunks = 8000
    rule = ('random structs and unions (nested, anonymous, arrays, floating point and pointer members, some bit-fields) stored in locals, statics, globals, '
            'array elements, through pointers and between guard bytes; a random history of assignments, chained assignments, copies through pointers, passing and '
            'returning by value (through functions, function pointers, ?:, comma, statement expressions), member access on rvalues, leaf stores; blocks of pointer '
            'arithmetic over arrays of random element types with all index types and over constant addresses, multi dimensional arrays and function pointers. All leaves, guards and addresses '
            'relative to their object are compared with gcc -O0. Non-trivial: at least 3 kinds of operation; distinct by program text')

    def gen(self, src):
        return G(src).gen()


CHECK = Memory()
