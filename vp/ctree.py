"""Random C types (scalars, pointers, arrays, structs, unions, bit-fields) and walks over their leaves."""

INTS = ['int', 'long', 'char', 'short', 'unsigned int', 'unsigned long', 'unsigned char', 'unsigned short', 'signed char']
FLOATS = ['double', 'float', 'long double']
BITS = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
ENUM = 'enum'


def signed(name):
    return not name.startswith('unsigned')


class T:
    """kind: int float ptr arr rec(struct or union) fn enum"""

    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def decl(self, name):
        """declaration of name with this type"""
        if self.kind in ('int', 'float', 'enum'):
            return '%s %s' % (self.name, name)
        if self.kind == 'rec':
            return '%s %s' % (self.tag, name)
        if self.kind == 'ptr':
            n = '*' + name
            if self.to.kind in ('arr', 'fn'):
                n = '(%s)' % n
            return self.to.decl(n)
        if self.kind == 'arr':
            return self.of.decl('%s[%d]' % (name, self.n))
        if self.kind == 'fn':
            return self.ret.decl('%s(%s)' % (name, ', '.join(p.decl('') for p in self.params) or 'void'))
        raise AssertionError(self.kind)

    @property
    def scalar(self):
        return self.kind in ('int', 'float', 'ptr', 'enum')

    def text(self):
        return self.decl('').strip()

    def has(self, pred):
        if pred(self):
            return True
        if self.kind == 'arr':
            return self.of.has(pred)
        if self.kind == 'rec':
            return any(m.t.has(pred) for m in self.members)
        return False


class Member:
    def __init__(self, name, t, bits=None):
        self.name, self.t, self.bits = name, t, bits     # name None: anonymous record or unnamed bit-field


def INT(n='int'):
    return T('int', name=n)


def FLOAT(n):
    return T('float', name=n)


def PTR(t):
    return T('ptr', to=t)


def ARR(t, n):
    return T('arr', of=t, n=n)


class Types:
    """generates types, collecting their definitions in .defs"""

    flat_anonymous = False      # no long doubles in anonymous members

    def __init__(self, src, floats=True, long_double=True, unions=True, bitfields=False, pointers=True, anonymous=True, packed=False, empty=False, prefix='@'):
        self.s = src
        self.defs = []
        self.n = 0
        self.o = dict(floats=floats, long_double=long_double, unions=unions, bitfields=bitfields, pointers=pointers, anonymous=anonymous, packed=packed, empty=empty)
        self.prefix = prefix
        self.recs = []
        self.feats = set()

    def scalar(self):
        s = self.s
        k = s.n(12)
        if k < 8 or not self.o['floats']:
            if k == 7 and self.o['pointers']:
                return PTR(s.choice([INT(), INT('char'), INT('long'), T('int', name='void')]))
            return INT(s.choice(INTS))
        if k == 11 and self.o['long_double']:
            return FLOAT('long double')
        return FLOAT(s.choice(['double', 'float']))

    def record(self, depth=2, union=None):
        s = self.s
        if union is None:
            union = self.o['unions'] and s.p(18)
        members = self.members(depth, union)
        self.n += 1
        tag = '%s %sT%d' % ('union' if union else 'struct', self.prefix, self.n)
        attr = ''
        pk = False
        if self.o['packed'] and s.p(20):
            attr, pk = ' __attribute__((packed))', True
            self.feats.add('packed')
        r = T('rec', tag=tag, members=members, union=union, packed=pk)
        self.defs.append('%s { %s}%s;' % (tag, self.body(r), attr))
        self.recs.append(r)
        self.feats.add('union' if union else 'struct')
        return r

    def body(self, r):
        out = []
        for m in r.members:
            if m.t.kind == 'rec' and m.name is None:
                out.append('%s { %s};' % ('union' if m.t.union else 'struct', self.body(m.t)))
            elif m.bits is not None:
                out.append('%s : %d;' % (m.t.decl(m.name or '').rstrip(), m.bits))
            else:
                out.append(m.t.decl(m.name) + ';')
        return ' '.join(out) + ' '

    def members(self, depth, union, base='m'):
        s = self.s
        out = []
        n = 1 + s.n(5)
        if s.p(5):
            n += 6
        for _ in range(n):
            self.n += 1
            name = '%s%d' % (base, self.n)
            k = s.n(20)
            if self.o['bitfields'] and k < 10:
                t = INT(s.choice(['int', 'unsigned int']))
                b = BITS[t.name]
                w = s.choice([1, 2, 3, 5, 7, 8, b - 1, b, 1 + s.n(b), 1 + s.n(b), 1 + s.n(b)])
                w = max(1, min(w, b))
                if s.p(8):
                    name, w = None, s.choice([0, w])
                    if union and w == 0:
                        w = 1
                out.append(Member(name, t, w))
                self.feats.add('bitfield')
            elif depth > 0 and k in (12, 13):
                out.append(Member(name, self.record(depth - 1)))
            elif depth > 0 and k in (14,) and self.o['anonymous'] and not self.o['packed']:
                u = self.o['unions'] and s.p(50)
                ld, self.o['long_double'] = self.o['long_double'], self.o['long_double'] and not self.flat_anonymous
                out.append(Member(None, T('rec', tag=None, members=self.members(depth - 1, u), union=u, packed=False)))
                self.o['long_double'] = ld
                self.feats.add('anonymous')
            elif k in (15, 16, 17):
                of = self.record(depth - 1) if depth > 0 and s.p(25) else self.scalar()
                a = ARR(of, 1 + s.n(5))
                if s.p(20):
                    a = ARR(a, 1 + s.n(3))
                out.append(Member(name, a))
                self.feats.add('array')
            else:
                out.append(Member(name, self.scalar()))
        if all(m.name is None and m.t.kind != 'rec' for m in out):
            self.n += 1
            out.append(Member('%s%d' % (base, self.n), INT(s.choice(INTS))))
        return out

    def any(self, depth=2):
        s = self.s
        k = s.n(10)
        if k >= 4 and depth > 0:
            if self.recs and s.p(30):
                return s.choice(self.recs)
            return self.record(depth)
        if k >= 2 and depth > -3:
            return ARR(self.any(depth - 1), 1 + s.n(4))
        return self.scalar()


def leaves(t, path, bits=None, first_union=True, in_union=False):
    """[(expression, scalar type, bit width)]: of a union only the first named member, the one that is written"""
    if t.scalar:
        return [(path, t, bits)]
    if t.kind == 'arr':
        out = []
        for i in range(t.n):
            out += leaves(t.of, '%s[%d]' % (path, i))
        return out
    if t.kind == 'rec':
        out = []
        members = t.members
        if t.union and getattr(t, 'active', 0):
            members = members[t.active:] + members[:t.active]
        for m in members:
            if m.name is None and m.t.kind != 'rec':
                continue
            sub = leaves(m.t, path if m.name is None else '%s.%s' % (path, m.name), m.bits)
            if t.union:
                if sub:
                    return sub
                continue
            out += sub
        return out
    return []


def subobjects(t, path):
    """every named subobject [(expression, type, bits)] reachable without changing union members"""
    out = [(path, t, None)]
    if t.kind == 'arr':
        for i in range(t.n):
            out += subobjects(t.of, '%s[%d]' % (path, i))
    elif t.kind == 'rec':
        for m in t.members:
            if m.name is None and m.t.kind != 'rec':
                continue
            p = path if m.name is None else '%s.%s' % (path, m.name)
            sub = subobjects(m.t, p)
            if m.name is None:
                sub = sub[1:]
            elif m.bits is not None:
                sub = [(p, m.t, m.bits)]
            out += sub
            if t.union and sub:
                break
    return out


def scalar_value(s, t, bits=None, ptrs=None):
    """text of a value for a leaf"""
    if t.kind == 'enum':
        return str(s.n(3))
    if t.kind == 'int':
        b = BITS[t.name]
        k = s.n(6)
        v = s.bits(min(b, 64)) if k else s.n(10)
        if bits is not None:
            v &= (1 << bits) - 1
            if signed(t.name) and v >> (bits - 1):
                v -= 1 << bits
        elif signed(t.name) and v >> (b - 1):
            v -= 1 << b
        if v < 0:
            return '(%d%s)' % (v, 'L' if b == 64 else '') if v != -(1 << 63) and v != -(1 << 31) else '(%d%s - 1)' % (v + 1, 'L' if b == 64 else '')
        return '%d%s' % (v, ('' if signed(t.name) else 'U') + ('L' if b == 64 else ''))
    if t.kind == 'float':
        return s.choice(['1.5', '-2.25', '0.0', '1e10', '-3e-5', '123456.789', '-0.0']) + {'float': 'f', 'double': '', 'long double': 'L'}[t.name]
    if t.kind == 'ptr':
        return '(void *) %d' % (s.n(1000) * 8)
    raise AssertionError


def observe(path, t):
    if t.kind in ('int', 'enum'):
        return 'out_%s(%s);' % ('i' if t.kind == 'enum' or signed(t.name) else 'u', path)
    if t.kind == 'float':
        return 'out_%s(%s);' % ({'float': 'f', 'double': 'd', 'long double': 'ld'}[t.name], path)
    if t.kind == 'ptr':
        return 'out_u((unsigned long) %s);' % path
    raise AssertionError
