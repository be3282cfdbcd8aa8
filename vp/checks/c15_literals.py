"""C15: literals have the value and type C gives them, in every spelling and wherever they are used."""
from ..cdiff import CDiffCheck, Unit

SUFFIXES = {'': '', 'u': 'u U', 'l': 'l L', 'ul': 'ul uL Ul UL lu Lu lU LU', 'll': 'll LL', 'ull': 'ull uLL Ull ULL llu LLu llU LLU'}
ESC = ['\\n', '\\t', '\\a', '\\b', '\\f', '\\r', '\\v', '\\\\', '\\"', "\\'", '\\?', '\\0', '\\x41', '\\x0', '\\xff', '\\x7F', '\\x80', '\\xaB', '\\101', '\\1', '\\12', '\\377',
       '\\200', '\\177', '\\08', '\\1011', '\\e']
PLAIN = 'abcxyzABC0189 _!#$%&()*+,-./:;<=>?[]^{|}~`'
WIDE_ESC = ['\\x1234', '\\x7fffffff', '\\xffffffff', '\\777', '\\400', '\\x100', '\\x80000000']


class G:
    def __init__(self, s):
        self.s = s
        self.decl, self.body = [], []
        self.feats = set()
        self.n = 0

    def nm(self, p):
        self.n += 1
        return '@%s%d' % (p, self.n)

    # -- integers
    def integer_value(self):
        s = self.s
        k = s.n(6)
        if k == 0:
            return s.n(300)
        if k in (1, 2, 3):
            v = (1 << s.choice([7, 8, 15, 16, 31, 32, 33, 62, 63, 64])) + s.n(7) - 3
        elif k == 4:
            v = s.choice([10 ** 9, 10 ** 10, 10 ** 18, 10 ** 19, 8 ** 10, 8 ** 20, 16 ** 15 - 1]) + s.n(5) - 2
        else:
            v = s.bits(64)
        return min(max(v, 0), 2 ** 64 - 1)

    def integer(self):
        s = self.s
        v = self.integer_value()
        base = s.choice(['d', 'o', 'x', 'X'])
        kind = s.choice(['', '', '', 'u', 'l', 'ul', 'll', 'ull'])
        if base == 'd' and v > 2 ** 63 - 1 and 'u' not in kind:
            base = 'x'       # has no standard type in decimal
        self.feats.add('int-' + base.lower())
        self.feats.add('suffix-' + (kind or 'none'))
        if v >= 2 ** 31 - 3:
            self.feats.add('int-boundary')
        if base == 'd':
            t = str(v)
        elif base == 'o':
            t = '0' * (1 + s.n(3)) + '%o' % v
        else:
            t = '%x' % v
            t = ''.join(c.upper() if s.n(2) else c for c in t)
            t = '0' + base + '0' * (s.n(3) if s.n(4) == 0 else 0) + t
        return t + s.choice(SUFFIXES[kind].split() or ['']), v

    # -- floating constants
    def digits(self, lo, hi):
        s = self.s
        return ''.join('0123456789'[s.n(10)] for _ in range(lo + s.n(hi - lo + 1)))

    def floating(self):
        s = self.s
        k = s.n(6)
        if k == 0:       # exactly between two floats or doubles, and just beside it
            bits = s.choice([24, 53, 64])
            m = ((1 << (bits - 1)) | s.bits(bits - 1)) * 2 + 1
            e = s.n(40) - 20
            num, den = (m << e, 1) if e >= 0 else (m, 1 << -e)
            whole, rest = divmod(num, den)
            frac = ''
            while rest:
                rest *= 10
                frac += str(rest // den)
                rest %= den
            t = '%d.%s' % (whole, frac) + s.choice(['', '', '0' * 30 + '1', '000'])
            self.feats.add('float-halfway')
        elif k == 1:     # near the ends of the ranges
            t = '%s.%se%s%d' % (self.digits(1, 1), self.digits(0, 20), s.choice(['-', '', '+']), s.choice([37, 38, 39, 44, 45, 46, 307, 308, 309, 323, 324, 325, 4931, 4932, 4950, 4951]))
            self.feats.add('float-range')
        elif k == 2:
            t = '.' + self.digits(1, 25)
        elif k == 3:
            t = self.digits(1, 25) + '.'
        elif k == 4:
            t = self.digits(1, 6)
        else:
            t = self.digits(1, 10) + '.' + self.digits(1, 10)
        if k != 1 and (k == 4 or s.n(3) == 0):
            t += s.choice('eE') + s.choice(['', '+', '-']) + s.choice(['', '0', '00']) + str(s.n(30))
            self.feats.add('float-exponent')
        suf = s.choice(['', '', 'f', 'F', 'l', 'L'])
        self.feats.add('float' + (suf.lower() or 'd'))
        return t + suf, suf.lower()

    # -- characters
    def char_element(self, quote, wide=False):
        s = self.s
        k = s.n(3)
        if k == 0:
            e = s.choice(ESC)
            if quote == "'" and e == '\\08':
                e = '\\7'
            self.feats.add('escape')
            return e
        if k == 1 and wide:
            self.feats.add('wide-escape')
            return s.choice(WIDE_ESC)
        if k == 1 and s.n(3) == 0:
            return '\\' + '%0*o' % (1 + s.n(3), s.n(256)) if s.n(2) else '\\x%x' % s.n(256)
        if quote == '"' and not wide and s.n(25) == 0:
            self.feats.add('utf-8')
            return s.choice(['\u00e9', '\u20ac', '\u00ff'])
        return s.choice(PLAIN)

    def character(self):
        s = self.s
        if s.n(4) == 0:
            self.feats.add('wide-char')
            e = self.char_element("'", True)
            return "L'%s'" % (e if e != '\\1011' else '\\101')
        n = 1
        if s.n(4) == 0:
            n = 2 + s.n(3)
            self.feats.add('multi-char')
        t, last = '', ''
        for _ in range(n):
            e = self.char_element("'")
            if e == '\\1011':
                e = '\\101'
            if last.startswith('\\x') and e[0] in '0123456789abcdefABCDEF':
                e = 'z'
            if last[:2] in tuple('\\%d' % d for d in range(8)) and e[0] in '01234567':
                e = 'y'
            t += e
            last = e
        return "'%s'" % t

    # -- strings
    def piece(self, n, wide):
        s = self.s
        t, hexed = '', False
        for _ in range(n):
            e = self.char_element('"', wide)
            if hexed and e[0] in '0123456789abcdefABCDEF':
                e = '~'
            if t.endswith('?') and e[0] == '?':
                e = '.'
            hexed = e.startswith('\\x')
            t += e
        return '"' + t + '"'

    def string(self, wide=False, maxlen=20):
        s = self.s
        k = s.n(12)
        pieces = 1 if k < 7 else 2 + s.n(3)
        if pieces > 1:
            self.feats.add('concatenation')
        long_ = s.n(40) == 0
        out = []
        for _ in range(pieces):
            n = s.n(maxlen + 1)
            if long_:
                n = s.choice([200, 900])
                self.feats.add('long-string')
            out.append(('L' if wide else '') + self.piece(n, wide))
        if wide:
            self.feats.add('wide-string')
        t = out[0]
        for p in out[1:]:
            sep = s.choice([' ', '', '\n', '  \t', ' /* " */ ', '\\\n', ' // "\n'])
            if s.n(6) == 0:
                m = self.nm('M').replace('@', 'M@')
                self.decl.append('#define %s %s' % (m, p))
                self.feats.add('macro-concatenation')
                p = m
                sep = ' '
            t += sep + p + (' ' if sep == ' ' else '')
        return t

    # -- uses
    def use_int(self):
        s = self.s
        t, v = self.integer()
        self.body.append('out_u((unsigned long)(%s)); out_i(sizeof(%s)); out_i(-1 < (%s)*0);' % (t, t, t))
        k = s.n(8)
        if k == 0:
            n = self.nm('g')
            ty = s.choice(['char', 'short', 'unsigned', 'long', 'unsigned long', 'unsigned char'])
            self.decl.append('%s %s = (%s)%s;' % (ty, n, ty, t))
            self.body.append('out_i((long)%s);' % n)
        elif k == 1:
            self.body.append('{ unsigned long x = %s; switch (x) { case %s: out_i(1); break; default: out_i(2); } }' % (t, t))
            self.feats.add('case')
        elif k == 2:
            t2, v2 = self.integer()
            self.body.append('out_i((%s) < (%s)); out_u((unsigned long)((%s) + (%s))); out_i(sizeof((%s) ^ (%s)));' % (t, t2, t, t2, t, t2))
            self.feats.add('int-combined')
        elif k == 3:
            t2, v2 = self.integer()
            self.decl.append('#if (%s) < (%s) && -1 < (%s)*0\n#define @P%d 1\n#elif (%s) + (%s)\n#define @P%d 2\n#else\n#define @P%d 3\n#endif' % (
                t, t2, t, self.n, t, t2, self.n, self.n))
            self.body.append('out_i(@P%d);' % self.n)
            self.n += 1
            self.feats.add('int-in-#if')
        elif k == 4:
            self.body.append('out_ld(%s); out_i(-(%s) < 0); out_u(~(%s));' % (t, t, t))
        elif k == 5:
            ty = s.choice(['int', 'long', 'double', 'unsigned char', 'float', 'unsigned short'])
            self.body.append('{ volatile %s x = (%s)%s; out_d((double)x); }' % (ty, ty, t))

    def use_float(self):
        s = self.s
        t, suf = self.floating()
        o = {'': 'out_d', 'f': 'out_f', 'l': 'out_ld'}[suf]
        k = s.n(4)
        if k == 0:
            n = self.nm('f')
            ty = s.choice(['float', 'double', 'long double'])
            self.decl.append('%s %s = %s;' % (ty, n, t))
            self.body.append('%s(%s);' % ({'float': 'out_f', 'double': 'out_d', 'long double': 'out_ld'}[ty], n))
        elif k == 1:
            self.body.append('{ float a = %s; double b = %s; long double c = %s; out_f(a); out_d(b); out_ld(c); }' % (t, t, t))
        elif k == 2:
            self.body.append('{ static float a[2] = { 1, %s }; static double b[] = { %s, -%s }; out_f(a[1]); out_d(b[0]); out_d(b[1]); }' % (t, t, t))
        self.body.append('%s(%s); out_i(sizeof(%s));' % (o, t, t))

    def use_char(self):
        s = self.s
        t = self.character()
        self.body.append('out_i(%s); out_i(sizeof(%s)); out_i(-1 < (%s)*0);' % (t, t, t))
        k = s.n(6)
        if k == 0:
            self.body.append('{ char c = %s; unsigned char d = %s; out_i(c); out_i(d); out_i(c == %s); }' % (t, t, t))
        elif k == 1 and not t.startswith('L'):
            self.decl.append('#if %s < 0\n#define @P%d 1\n#elif (%s) == %s\n#define @P%d 2\n#else\n#define @P%d 3\n#endif' % (t, self.n, t, self.character() if 0 else t, self.n, self.n))
            self.body.append('out_i(@P%d);' % self.n)
            self.n += 1
            self.feats.add('char-in-#if')
        elif k == 2:
            n = self.nm('c')
            self.decl.append('char %s[] = { %s, \'x\', %s };' % (n, t, t))
            self.body.append('out_mem(%s, sizeof(%s));' % (n, n))

    def use_string(self):
        s = self.s
        wide = s.n(5) == 0
        ct = 'int' if wide else s.choice(['char', 'char', 'char', 'unsigned char', 'signed char'])
        t = self.string(wide)
        k = s.n(9)
        n = self.nm('s')
        if k == 0:
            self.body.append('out_i(sizeof(%s)); out_mem(%s, sizeof(%s));' % (t, t, t))
        elif k == 1:
            self.decl.append('%s %s[] = %s;' % (ct, n, t))
            self.body.append('out_i(sizeof(%s)); out_mem(%s, sizeof(%s));' % (n, n, n))
            self.feats.add('array')
        elif k == 2:
            self.body.append('{ %s %s[] = %s; out_i(sizeof(%s)); out_mem(%s, sizeof(%s)); }' % (ct, n, t, n, n, n))
            self.feats.add('local-array')
        elif k == 3:
            size = s.choice([1, 3, 8, 30])
            self.decl.append('%s%s %s[%d] = { %s };' % (s.choice(['', 'static ']), ct, n, size + (2000 if len(t) > 100 else 90), t))
            self.body.append('out_mem(%s, sizeof(%s));' % (n, n))
            self.feats.add('array-larger')
        elif k == 4:
            self.decl.append('%s *%s = %s;' % ('int' if wide else 'char', n, t))
            self.body.append('out_mem(%s, sizeof(%s));' % (n, t))
            self.feats.add('pointer')
        elif k == 5:
            i = s.n(4)
            self.body.append('out_i((%s)[sizeof(%s) / %d - 1]); out_i(*(%s)); out_i(%d[%s"abcdef"]);' % (t, t, 4 if wide else 1, t, i, 'L' if wide else ''))
            self.feats.add('indexed')
        elif k == 6 and not wide:
            short = '"%s"' % ''.join(s.choice('abcde') for _ in range(3))
            self.decl.append('struct { char a[3]; char *p; char b[%d]; } %s = { %s, %s, %s };' % (3000 if len(t) > 100 else 120, n, short, t, t))
            self.body.append('out_mem(%s.a, 3); out_mem(%s.p, sizeof(%s)); out_mem(%s.b, sizeof(%s.b));' % (n, n, t, n, n))
            self.feats.add('struct')
        elif k == 7:
            self.body.append('{ const %s *p = opaque_l(%d) ? %s : %s; long i; for (i = 0; p[i]; i++) out_i(p[i]); }' % ('int' if wide else 'char', s.n(2), t, self.string(wide)))
            self.feats.add('ternary')
        else:
            m = self.nm('S')
            arg = ' '.join(x for x in [self.integer()[0], self.character(), self.string(False, 6), self.floating()[0]] if s.n(2) and '\n' not in x and '/' not in x and '@' not in x) or 'x'
            self.decl.append('#define %s(x) #x' % m)
            self.body.append('out_mem(%s(%s), sizeof(%s(%s)));' % (m, arg, m, arg))
            self.feats.add('stringized')


class Literals(CDiffCheck):
    id = 'C15'
    batch = 40
    quick_chunks = 300
    thorough_chunks = 8000
    rule = ('a case declares and uses 2 to 8 literals (integers of every base, suffix and boundary; floating constants incl. halfway and range limits; characters; '
            'narrow and wide strings); non-trivial: at least 2 kinds of spelling features')
    flag_sets = [[], [], ['-fPIC'], ['-g']]

    def gen(self, src):
        g = G(src)
        for _ in range(2 + src.n(7)):
            src.weighted([(3, g.use_int), (2, g.use_float), (2, g.use_char), (4, g.use_string)])()
        return Unit('\n'.join(g.decl), '\n'.join(g.body), None, sorted(g.feats), len(g.feats) >= 2)


CHECK = Literals()
