"""Reference model of C integer types on x86-64 (LP64, two's complement, arithmetic right shift)."""


class IT:
    def __init__(self, name, bits, signed, rank):
        self.name, self.bits, self.signed, self.rank = name, bits, signed, rank
        self.min = -(1 << (bits - 1)) if signed else 0
        self.max = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1

    def wrap(self, v):
        v &= (1 << self.bits) - 1
        if self.signed and v >> (self.bits - 1):
            v -= 1 << self.bits
        return v

    def fits(self, v):
        return self.min <= v <= self.max

    def __repr__(self):
        return self.name


CHAR = IT('char', 8, True, 1)
SCHAR = IT('signed char', 8, True, 1)
UCHAR = IT('unsigned char', 8, False, 1)
SHORT = IT('short', 16, True, 2)
USHORT = IT('unsigned short', 16, False, 2)
INT = IT('int', 32, True, 3)
UINT = IT('unsigned int', 32, False, 3)
LONG = IT('long', 64, True, 4)
ULONG = IT('unsigned long', 64, False, 4)
ALL = [INT, LONG, CHAR, SHORT, UINT, ULONG, UCHAR, USHORT, SCHAR]
UNSIGNED = {INT: UINT, LONG: ULONG, UINT: UINT, ULONG: ULONG}


def promote(t):
    return INT if t.rank < 3 else t


def usual(a, b):
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank >= b.rank else b
    u, s = (a, b) if not a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    return s      # here the signed type is always wider


def value(src, t):
    """an interesting value of type t"""
    k = src.n(8)
    if k == 0:
        return src.n(4) if not t.signed else src.choice([0, 1, 2, 3])
    if k == 1:
        return t.wrap(src.choice([-1, -2, 7, 10, 100, 127, 128, 255, 256, 65535, 65536]))
    if k == 2:
        return t.wrap(t.max - src.n(3))
    if k == 3:
        return t.wrap(t.min + src.n(3))
    if k == 4:
        return t.wrap((1 << src.n(t.bits)) + src.choice([0, -1, 1]))
    if k == 5:
        return t.wrap(-(1 << src.n(t.bits)) + src.choice([0, -1, 1]))
    if k == 6:
        return t.wrap(src.rng_int(-1000, 1000))
    return t.wrap(src.bits(t.bits))


def lit(src, t, v, plain=False):
    """C text of a constant expression with exactly type promote(t)"""
    t = promote(t)
    suf = {INT: '', UINT: 'U', LONG: 'L', ULONG: 'UL'}[t]
    if not plain and src is not None:
        if t is LONG and src.p(10): suf = 'l'
        if t is ULONG and src.p(20): suf = src.choice(['ul', 'LU', 'Ul'])
        if t is UINT and src.p(10): suf = 'u'
    if v < 0:
        if v == t.min:
            return '(-%d%s - 1)' % (-(v + 1), suf)
        return '(-%d%s)' % (-v, suf)
    if src is not None and not plain:
        f = src.n(8)
        if f == 6:
            return '0x%x%s' % (v, suf)
        if f == 7 and v:
            return '0%o%s' % (v, suf)
    return '%d%s' % (v, suf)


def cdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def binop(op, ta, a, tb, b):
    """(result type, value) or None if undefined"""
    if op in ('<<', '>>'):
        t = promote(ta)
        a = t.wrap(a) if not t.fits(a) else a
        if b < 0 or b >= t.bits:
            return None
        if op == '<<':
            if t.signed and (a < 0 or not t.fits(a << b)):
                return None
            return t, t.wrap(a << b)
        return t, a >> b
    if op in ('&&', '||'):
        return INT, int((a != 0 and b != 0) if op == '&&' else (a != 0 or b != 0))
    t = usual(ta, tb)
    a, b = t.wrap(a), t.wrap(b)
    if op in ('<', '>', '<=', '>=', '==', '!='):
        return INT, int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op])
    if op == '+': v = a + b
    elif op == '-': v = a - b
    elif op == '*': v = a * b
    elif op in '/%':
        if b == 0:
            return None
        q = cdiv(a, b)
        if not t.fits(q):
            return None
        v = q if op == '/' else a - q * b
    elif op == '&': v = a & b
    elif op == '|': v = a | b
    elif op == '^': v = a ^ b
    if t.signed and not t.fits(v):
        return None
    return t, t.wrap(v)


def unop(op, t, a):
    if op == '!':
        return INT, int(a == 0)
    t = promote(t)
    if op == '-':
        if t.signed and not t.fits(-a):
            return None
        return t, t.wrap(-a)
    if op == '~':
        return t, t.wrap(~a)
    return t, a


def edge_float(s):
    """a floating literal that converts to a value at the edge of an integer type: (integer type, literal, floating type, value)"""
    import struct
    while True:
        t = s.choice(ALL)
        v = s.choice([t.min, t.max, t.min + 1, t.max - 1, 0, t.max // 2, t.max // 2 + 1, s.n(300), -1 if t.signed else 1])
        if v < t.min or v > t.max:
            continue
        frac = s.choice(['5', '0', '25', '75', '9', '001'])
        ft = s.choice(['double', 'float', 'long double'])
        neg = v < 0 or v == 0 and s.p(50)
        text = '%s%d.%s' % ('-' if neg else '', abs(v), frac)
        if ft == 'long double':
            if abs(v) >= 1 << 53:
                text = '%d.0' % v
                if abs(v).bit_length() > 64:
                    continue
        else:
            f = float(text)
            if ft == 'float':
                f = struct.unpack('f', struct.pack('f', f))[0]
            if not t.min <= int(f) <= t.max:
                continue
            v = int(f)
        return t, text + {'double': '', 'float': 'f', 'long double': 'L'}[ft], ft, v
