"""C05: bit-fields store and load exactly their own bits."""
from ..cdiff import CDiffCheck, Unit
from ..ctree import *


class G:
    def __init__(self, s):
        self.s = s
        self.ty = Types(s, floats=s.p(25), long_double=False, bitfields=True, pointers=s.p(30), anonymous=s.p(40))
        self.decl, self.loc, self.ops = [], [], []
        self.feats = set()
        self.n = 0

    def nm(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def fields(self, path, t):
        return [(p, l, b) for p, l, b in all_leaves(t, path) if b is not None]

    def rhs(self, bits=32):
        """(text, kind) of a value to store"""
        s = self.s
        k = s.n(8)
        v = s.bits(min(bits + 2, 32)) if s.p(60) else s.choice([0, 1, 2, 3, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1])
        v &= 0xffffffff
        sv = v - (1 << 32) if v >> 31 else v
        c = '(%d)' % sv if sv != -(1 << 31) else '(-2147483647 - 1)'
        if k <= 1:
            return c
        t = s.choice(['int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned char', 'char', 'unsigned short'])
        if k == 2:
            return '(%s) %s' % (t, c)
        if k == 3:
            self.feats.add('opaque')
            return '(%s) opaque_l(%sL)' % (t, sv)
        if k == 4:
            n = self.nm('v')
            self.loc.append('%s %s = %s;' % (t, n, c))
            return n
        if k == 5 and self.objs:
            f = self.pick()
            if f:
                self.feats.add('from-bit-field')
                return f[0]
        if k == 6:
            self.feats.add('from-double')
            return '(double) %d' % (v & ((1 << min(bits, 31) - 1) - 1 if bits > 1 else 0))
        n = self.nm('g')
        self.decl.append('%s @%s = %s;' % (t, n, c))
        return '@' + n

    def pick(self):
        s = self.s
        o, t = s.choice(self.objs)
        f = self.fields(o, t)
        if not f:
            o, t = self.objs[0]
            f = self.fields(o, t)
        return f[s.n(len(f))] if f else None

    def show(self, path, t):
        return ' '.join(observe(p, l) for p, l, b in all_leaves(t, path)[:40]) + ' out_nl();'

    def fillbytes(self, path, t):
        s = self.s
        m = s.choice([0, 255, 85, None, None, None])
        a, b = 1 + 2 * s.n(100), s.n(256)
        e = str(m) if m is not None else '(%d * bi + %d)' % (a, b)
        return '{ unsigned char *bp = (unsigned char *) &%s; int bi; for (bi = 0; bi < (int) sizeof(%s); bi++) bp[bi] = %s; }' % (path, path, e)

    def op(self):
        s = self.s
        f = self.pick()
        if not f:
            return ';'
        p, l, b = f
        k = s.n(14)
        u = not signed(l.name)
        self.feats.add('op%d' % k)
        use = s.p(50)
        o = 'out_i' if s.p(50) else 'out_u'
        if k <= 3:
            e = '%s = %s' % (p, self.rhs(b))
        elif k == 4:
            e = '%s %s= %s' % (p, s.choice(['&', '|', '^']), self.rhs(b).replace('(double)', '(int)'))
        elif k == 5:
            e = '%s %s= %d' % (p, s.choice(['+', '-', '*']), s.n(200) if b < 20 else s.n(3))
        elif k == 6:
            e = '%s %s= %d' % (p, s.choice(['/', '%', '>>']), 1 + s.n(6))
        elif k == 7:
            e = '%s <<= %d' % (p, s.n(4)) if u else '%s >>= %d' % (p, s.n(4))
        elif k in (8, 9):
            e = s.choice(['%s++', '%s--', '++%s', '--%s']) % p
        elif k == 10:
            f2 = self.pick()
            if f2 is None or f2[0] == p:
                e = p
            else:
                e = '%s = %s = %s' % (p, f2[0], self.rhs(b))
        elif k == 11:
            # promoted type is visible in comparisons and divisions
            e = s.choice(['%s - 300 < 0', '-1 < %s', '(%s - 5) / 2', '~%s', '-%s', '%s << 1 > 0 ? 7 : 8', '!%s', '(%s ? 3 : 4)', '%s * 2 - 3', '(long) %s * 5', '%s > -7', '(%s & 5) == 5', '%s + 0u > 3', '(%s, %s)'.replace(', %s', ', 4')]) % p
            use = True
        elif k == 12:
            n = self.nm('t')
            o1, t1 = s.choice(self.objs)
            self.decl.append(t1.decl('@' + n) + ';')
            if t1.kind == 'rec':
                self.ops.append('@%s = %s; %s = @%s;' % (n, o1, o1, n))
                self.feats.add('copied')
            e = p
            use = True
        else:
            e = '(%s > 2 ? %s : %s)' % (p, p, self.rhs(b).replace('(double)', '(int)'))
            use = True
        if use:
            return '%s(%s);' % (o, e)
        return e + ';'

    def gen(self):
        s = self.s
        self.objs = []
        for _ in range(1 + s.n(2)):
            t = self.ty.record(2)
            self.obj(t)
        for o, t in list(self.objs):
            self.ops.append(self.fillbytes(o, t))
            self.ops.append(self.show(o, t))
        for i in range(4 + s.n(10)):
            if s.p(8):
                o, t = s.choice(self.objs)
                self.ops.append(self.fillbytes(o, t))
            self.ops.append(self.op())
            if s.p(30):
                o, t = s.choice(self.objs)
                self.ops.append(self.show(o, t))
        for o, t in self.objs:
            self.ops.append(self.show(o, t))
            self.ops.append('out_i(sizeof(%s));' % o)
            for p, l, b in all_leaves(t, o):
                if b is None:
                    self.ops.append('out_i((char *) &%s - (char *) &%s);' % (p, o))
        if s.p(40):
            self.initialised()
        nf = sum(len(self.fields(o, t)) for o, t in self.objs)
        return Unit('\n'.join(self.ty.defs + self.decl), '\n'.join(self.loc + self.ops), features=sorted(self.feats | self.ty.feats),
                    nontrivial=nf >= 2 and len(self.feats) >= 3)

    def obj(self, t):
        s = self.s
        n = self.nm('o')
        k = s.n(6)
        if k == 0:
            self.loc.append(t.decl(n) + ';')
            r = n
        elif k == 1:
            self.decl.append(t.decl('@' + n) + ';')
            r = '@' + n
        elif k == 2:
            self.loc.append('struct { unsigned char g1[%d]; %s; unsigned char g2[%d]; } %s;' % (4, t.decl('o'), 4, n))
            r = n + '.o'
            self.feats.add('guarded')
            self.ops.append('{ int gi; for (gi = 0; gi < 4; gi++) %s.g1[gi] = %s.g2[gi] = gi + 77; }' % (n, n))
            self.decl.append('')
            self.post = '%s.g1, %s.g2' % (n, n)
        elif k == 3:
            self.loc.append('%s %s[3]; int i%s = 1;' % (t.text(), n, n))
            r = '%s[i%s]' % (n, n)
        elif k == 4:
            self.loc.append('%s %s; %s *p%s = &%s;' % (t.text(), n, t.text(), n, n))
            r = '(*p%s)' % n
        else:
            self.loc.append('static %s;' % t.decl(n))
            r = n
        self.objs.append((r, t))

    def initialised(self):
        s = self.s
        t = s.choice([t for _, t in self.objs])
        n = self.nm('z')
        lv = leaves(t, '')
        txt = ', '.join(scalar_value(s, l, b) for p, l, b in lv[:1 + s.n(len(lv))]) if lv else '0'
        if t.has(lambda x: x.kind == 'rec' and x.union):
            return
        k = s.n(3)
        d = t.decl(('@' if k == 1 else '') + n) + ' = { %s };' % txt
        self.feats.add('initialised')
        if k == 0:
            self.ops.append('{ %s %s }' % (d, self.show(n, t)))
        elif k == 1:
            self.decl.append(d)
            self.ops.append(self.show('@' + n, t))
        else:
            self.ops.append('{ static %s %s }' % (d, self.show(n, t)))


def all_leaves(t, path, bits=None):
    """every leaf, all members of unions too"""
    if t.scalar:
        return [(path, t, bits)]
    out = []
    if t.kind == 'arr':
        for i in range(t.n):
            out += all_leaves(t.of, '%s[%d]' % (path, i))
    elif t.kind == 'rec':
        for m in t.members:
            if m.name is None and m.t.kind != 'rec':
                continue
            out += all_leaves(m.t, path if m.name is None else '%s.%s' % (path, m.name), m.bits)
    return out


class BitFields(CDiffCheck):
    id = 'C05'
    batch = 30
    quick_chunks = 260
    thorough_chunks = 8000
    rule = ('random structs and unions with int and unsigned bit-fields of every width mixed with other members (nested, anonymous, arrays, zero width, unnamed), '
            'in locals, globals, statics, arrays, behind pointers and between guards; the object is first filled with known bytes and read back (position and '
            'sign of every field), then a random history of stores, compound assignments, ++/--, chains, copies and initialisers, reading every member in between. '
            'Compared with gcc -O0. Non-trivial: at least 2 bit-fields and 3 kinds of operation; distinct by program text')

    def gen(self, src):
        return G(src).gen()


CHECK = BitFields()
