"""C06: initializers give objects exactly the specified contents."""
from ..cdiff import CDiffCheck, Unit
from ..ctree import *
from .c05_bitfields import all_leaves

INTP, CHARP, FNP = PTR(INT()), PTR(INT('char')), PTR(T('fn', ret=INT(), params=[INT()]))
RESOURCES = '''int @ga[8] = {100, 101, 102, 103, 104, 105, 106, 107}; char @gc[12] = "globalchars"; struct @R { short a; int b[3]; } @gr[2];
int @fa(int x) { return x + 1; } static int @fb(int x) { return x * 2; } int @gi = 55; long @gl; static int @sa[3] = {7, 8, 9}; int @gm[3][4];
enum @E { @e0, @e1 = 7, @e2 };'''


class InitTypes(Types):
    def scalar(self):
        k = self.s.n(14)
        if k >= 11:
            return [INTP, CHARP, FNP][k - 11]
        if k == 10:
            return T('enum', name='enum @E')
        if k >= 8 and self.o['floats']:
            return FLOAT(self.s.choice(['double', 'float', 'double', 'long double']))
        if k == 7:
            return INT('char')
        return INT(self.s.choice(INTS))


def show1(p, t):
    if t is INTP:
        return 'out_i(%s ? *%s : -1);' % (p, p)
    if t is CHARP:
        return 'out_s(%s ? %s : "-");' % (p, p)
    if t is FNP:
        return 'out_i(%s ? %s(20) : -1);' % (p, p)
    if t.kind == 'enum':
        return 'out_i((int) %s);' % p
    return observe(p, t)


class G:
    def __init__(self, s):
        self.s = s
        self.ty = InitTypes(s, floats=s.p(60), bitfields=s.p(30), unions=s.p(40), anonymous=s.p(30))
        self.decl, self.ops = [], []
        self.feats = set()
        self.n = 0
        self.auto = False
        self.vals = {}

    def nm(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def string(self, n, wide):
        """string literal of up to n characters (n includes no terminator)"""
        s = self.s
        out = ''
        for _ in range(n):
            out += s.choice(['a', 'b', 'Z', '0', ' ', '\\n', '\\\\', '\\"', '%', '?', '\\t', '\\177', '\\0', '\\x7f""'])
        self.feats.add('string')
        return ('L' if wide else '') + '"%s"' % out

    def value(self, t, bits=None):
        s = self.s
        if t is INTP:
            self.feats.add('address')
            return s.choice(['0', '@ga', '&@gi', '@ga + 2', '&@ga[3]', '&@ga[7] - 1', '1 + @ga', '(int *) ((char *) @ga + 8)', '@sa + 1', '&@gr[1].b[1]',
                             '@gr[0].b + 2', '(int *) 0', '&*&@ga[4]', '@ga + 7 - 2', '(int *) &@gm[1][2]', '@gm[2]', '&@gm[1][1] + 1', '*(@gm + 1) + 2', '(@ga + 5)', '(void *) @ga', '&(*(@ga + 1))', '&@gr[1].b[0] - 0', '@ga - -1'])
        if t is CHARP:
            self.feats.add('address')
            return s.choice(['0', '@gc', '@gc + 3', '"str"', '"string" + 2', '&@gc[6]', '&"abcd"[1]', '(char *) 0', '@gc + sizeof(int)', '(char *) "x" "yz"', '""', '@gc + 12 - 5'])
        if t is FNP:
            self.feats.add('address')
            return s.choice(['0', '@fa', '&@fa', '@fb', '&@fb', '*@fa'] if self.auto else ['0', '@fa', '&@fa', '@fb', '&@fb'])
        if t.kind == 'enum':
            return s.choice(['@e0', '@e1', '@e2', '5'])
        if self.auto and s.p(35) and bits is None:
            self.feats.add('run-time-value')
            if t.kind == 'int':
                return s.choice(['(short) opaque_l(%d)', 'opaque_l(%d)', '@ga[opaque_l(%d) & 7]', 'vi + %d', '(vl > 3 ? %d : 2)', '@fa(%d)']) % s.n(100)
            return s.choice(['opaque_d(%d.5)', 'vd * %d', 'vi - %d']) % s.n(100) if t.kind == 'float' else scalar_value(s, t)
        if t.kind == 'int' and s.p(25):
            self.feats.add('constant-expression')
            e = s.choice(['sizeof(int) + %d', '%d * 3 - 1', '(%d ? 4 : 5)', "'a' + %d", '~%d', '-%d', '(char) %d', '%d.75', '%d.25f', '@e1 + %d', '!%d', '(int) %d.9', '%d > 3', '%d << 2', 'sizeof(@ga) - %d']) % s.n(100)
            if '.' in e and signed(t.name) is False:
                pass
            if bits is not None and '.' in e:
                e = '1'
            if e.startswith(('-', '~')) and not signed(t.name):
                e = '(%s) (%s)' % (t.name, e)
            return e
        if t.kind == 'float' and s.p(30):
            self.feats.add('constant-expression')
            return s.choice(['%d', '%dU', '%dL', '%d / 2', '%d + 0.5', '-%d.25', '(float) %d', '%d.5L', "'b' + %d", '%d.125f * 2', '-(%d.5)', '+%d']) % s.n(1000)
        return scalar_value(s, t, bits)

    def items(self, t, bits=None):
        """texts of the initializers that fill t completely, without enclosing braces; the first does not start with a brace"""
        s = self.s
        if t.scalar:
            return [self.value(t, bits)]
        st = self.strlit(t)
        if st:
            return [st]
        ex = self.structexpr(t)
        if ex:
            return [ex]
        out = []
        self.feats.add('elided')
        for i, (mt, mb) in enumerate(self.elements(t)):
            if i and s.p(50):
                out.append(self.one(mt, mb))
            else:
                out += self.items(mt, mb)
        return out

    def elements(self, t):
        if t.kind == 'arr':
            return [(t.of, None)] * t.n
        m = [(m.t, m.bits) for m in t.members if m.name is not None or m.t.kind == 'rec']
        return m[:1] if t.union else m

    def strlit(self, t, deduced=False):
        s = self.s
        if t.kind == 'arr' and t.of.kind == 'int' and s.p(60):
            if t.of.name in ('char', 'signed char', 'unsigned char'):
                k = 0
            elif t.of.name == 'int':
                k = 1
            else:
                return None
            n = t.n if s.p(30) else s.n(t.n + 1)
            return self.string(n, k)
        return None

    def structexpr(self, t):
        s = self.s
        if self.auto and t.kind == 'rec' and t.tag and s.p(25):
            self.feats.add('struct-value')
            if t.tag not in self.vals:
                n = self.nm('sv')
                self.vals[t.tag] = n
                lv = leaves(t, '@' + n)
                self.decl.append(t.decl('@' + n) + ';')
                self.decl.append('static void @f%s(void) { %s }' % (n, ' '.join('%s = %s;' % (p, self.const(l, b)) for p, l, b in lv)))
                self.decl.append('%s @r%s(int x) { return @%s; }' % (t.text(), n, n))
                self.ops.insert(0, '@f%s();' % n)
            n = self.vals[t.tag]
            return s.choice(['@' + n, '@r%s(1)' % n, '*&@' + n, '(vi ? @%s : @%s)' % (n, n), '(vi, @%s)' % n])
        return None

    def const(self, l, b):
        if l in (INTP, CHARP, FNP):
            return {INTP: '@ga + 1', CHARP: '@gc + 1', FNP: '@fb'}[l]
        return scalar_value(self.s, l, b)

    def one(self, t, bits=None, deduced=False):
        """text of one initializer for t: an expression or a braced list"""
        s = self.s
        if t.scalar:
            v = self.value(t, bits)
            if s.p(6):
                self.feats.add('braced-scalar')
                v = '{ %s%s }' % (v, ',' if s.p(30) else '')
            return v
        st = None if deduced else self.strlit(t)
        if st:
            return '{ %s }' % st if s.p(25) else st
        ex = self.structexpr(t)
        if ex:
            return ex
        el = self.elements(t)
        out = []
        n = len(el)
        if s.p(35) and not deduced:
            n = 1 + s.n(n)
            self.feats.add('partial')
        k = 0
        for i, (mt, mb) in enumerate(el[:n]):
            if not mt.scalar and s.p(35):
                it = self.items(mt, mb)
                if i == n - 1 and s.p(50) and len(it) > 1:
                    it = it[:1 + s.n(len(it))]
                    self.feats.add('partial-elided')
                out += it
            else:
                out.append(self.one(mt, mb))
                self.feats.add('nested' if not mt.scalar else 'scalar')
        return '{ %s%s }' % (', '.join(out), ',' if s.p(20) else '')

    def show(self, path, t):
        lv = all_leaves(t, path) if not t.has(lambda x: x.kind == 'rec' and x.union and x.has(lambda y: y.kind in ('ptr', 'float'))) else leaves(t, path)
        return ' '.join(show1(p, l) for p, l, b in lv[:60]) + ' out_nl();'

    def big(self):
        """large objects: long gaps, many elements, far members"""
        s = self.s
        self.auto = False
        st = s.n(5)
        lim = 300 if st >= 3 else 70000
        e = INT(s.choice(INTS + ['char', 'char']))
        n = min(lim, s.choice([60, 127, 128, 200, 255, 256, 257, 300, 511, 1000, 4095, 4096, 4097, 5000, 9000, 32767, 33000, 65536, 70000]) + s.n(3))
        x = ('@' if st < 2 else '') + self.nm('x')
        val = lambda t: scalar_value(s, t)
        loop = '{ unsigned long h = 0; int i; for (i = 0; i < %d; i++) h = h * 31 + (unsigned long) (%s); out_u(h); }'
        k = s.n(5)
        few = lambda t: '{ %s }' % ', '.join(val(t) for _ in range(1 + s.n(4)))
        if k == 0:
            a, c = self.ty.scalar(), self.ty.scalar()
            d = 'struct %s { %s; %s; %s; } %s = { %s, %s, %s };' % (self.nm('@BS'), a.decl('a'), e.decl('m[%d]' % n), c.decl('c'), x, self.value(a), few(e), self.value(c))
            o = show1(x + '.a', a) + show1(x + '.c', c) + loop % (n, x + '.m[i]') + ' out_i(sizeof(%s)); out_i((char *) &%s.c - (char *) &%s);' % (x, x, x)
        elif k == 1:
            d = '%s = %s;' % (e.decl('%s[%d]' % (x, n)), few(e))
            o = loop % (n, x + '[i]')
        elif k == 2:
            m = 20 + s.n(280)
            d = '%s = { %s };' % (e.decl('%s[]' % x), ', '.join(val(e) if s.p(80) else '0' for _ in range(m)))
            o = 'out_i(sizeof(%s));' % x + loop % (m, x + '[i]')
        elif k == 3:
            w = 2 + s.n(9)
            d = '%s = { %s };' % (e.decl('%s[%d][%d]' % (x, n // w + 1, w)), ', '.join(few(e) if s.p(80) and w > 4 else '{ %s }' % val(e) for _ in range(1 + s.n(6))))
            o = loop % ((n // w + 1) * w, '%s[i / %d][i %% %d]' % (x, w, w))
        else:
            m = s.choice([100, 255, 256, 300, 509, 510, 600, 1500, 4090])
            t = self.string(m, False)
            d = '%s = %s;' % (s.choice(['char %s[]', 'char %s[' + str(m + 30) + ']', 'char %s[8000]' if lim > 300 else 'char %s[]', 'char *%s']) % x, t)
            if d.startswith('char *'):
                o = '{ int i; unsigned long h = 0; for (i = 0; i < %d; i++) h = h * 31 + %s[i]; out_u(h); }' % (m // 2, x)
            else:
                o = 'out_i(sizeof(%s));' % x + '{ int i; unsigned long h = 0; for (i = 0; i < (int) sizeof(%s); i++) h = h * 31 + %s[i]; out_u(h); }' % (x, x)
        self.feats |= {'big', ['global', 'static', 'static-local', 'automatic', 'automatic'][st]}
        if st < 2:
            self.decl.append(('static ' if st else '') + d)
            self.ops.append(o + ' out_nl();')
        else:
            self.ops.append('{ %s%s %s out_nl(); }' % ('static ' if st == 2 else '', d, o))

    def gen(self):
        s = self.s
        tot = 0
        if s.p(15):
            self.big()
        post = []
        for _ in range(1 + s.n(4)):
            k = s.n(5)
            self.auto = k >= 3
            ded = s.p(20)
            t = self.ty.any(2)
            if s.p(30) and not t.kind == 'arr':
                t = ARR(t, 1 + s.n(4))
            if s.p(15):
                t = ARR(ARR(INT('char'), 2 + s.n(6)), 1 + s.n(4)) if s.p(50) else ARR(INT(s.choice(['char', 'int', 'unsigned char'])), 1 + s.n(40))
            if len(all_leaves(t, '')) > 150 or not leaves(t, ''):
                continue
            n = self.nm('x')
            if t.kind == 'arr' and ded:
                self.feats.add('deduced-size')
                if t.of.kind == 'int' and s.p(60) and t.of.name in ('char', 'int', 'unsigned char'):
                    # a string includes its terminator
                    txt = self.string(s.n(8), t.of.name == 'int')
                    if s.p(30):
                        txt = '{ %s }' % txt
                    name = ('@' if k < 2 else '') + n
                    d = t.of.decl(name + '[]') + ' = %s;' % txt
                    o = 'out_i(sizeof(%s)); { int si; for (si = 0; si < (int) (sizeof(%s) / sizeof(%s[0])); si++) out_i(%s[si]); } out_nl();' % ((name,) * 4)
                else:
                    el = self.one(t, None, True)
                    if el[0] != '{':
                        continue
                    name = ('@' if k < 2 else '') + n
                    d = t.of.decl(name + '[]') + ' = %s;' % el
                    o = 'out_i(sizeof(%s));' % name + self.show(name, t)
            else:
                name = ('@' if k < 2 else '') + n
                d = t.decl(name) + ' = %s;' % self.one(t)
                o = self.show(name, t)
                if s.p(30):
                    o += ' out_i(sizeof(%s));' % name
            tot += len(leaves(t, ''))
            # statics keep changed values, automatics start anew
            dirty = ''
            if s.p(50) and '[]' not in d:
                lv = [x for x in leaves(t, name) if x[1].kind == 'int']
                dirty = ' '.join('%s = %s;' % (p, s.n(2) if b else s.n(100)) for p, l, b in lv[:6])
                self.feats.add('changed')
            if k == 0:
                self.decl.append(d)
            elif k == 1:
                self.decl.append('static ' + d)
            else:
                pre = 'static ' if k == 2 else ''
                loop = s.p(40)
                o = '{ %s %s %s }' % (pre + d, o, dirty)
                if loop:
                    self.feats.add('executed-again')
                    o = '{ int again; for (again = 0; again < 2; again++) %s }' % o
                elif s.p(20) and k != 2:
                    # dirty the stack first
                    o = '{ volatile char junk[64]; int ji; for (ji = 0; ji < 64; ji++) junk[ji] = ji + 1; } ' + o
                dirty = ''
            self.feats.add(['global', 'static', 'static-local', 'automatic', 'automatic'][k])
            self.ops.append(o + ' ' + dirty)
            if k < 2 and dirty:
                self.ops.append(o)
        loc = 'int vi = 3; long vl = 5; double vd = 2.5; int ri; @gr[0].a = 1; for (ri = 0; ri < 6; ri++) @gr[ri / 3].b[ri % 3] = ri + 40; for (ri = 0; ri < 12; ri++) @gm[ri / 4][ri % 4] = ri + 60;'
        feats = self.feats | self.ty.feats
        return Unit(RESOURCES + '\n' + '\n'.join(self.ty.defs + self.decl), loc + '\n' + '\n'.join(self.ops), features=sorted(feats),
                    nontrivial='big' in feats or tot >= 3 and len(feats & {'elided', 'partial', 'string', 'address', 'nested', 'partial-elided', 'struct-value', 'deduced-size', 'bitfield', 'union'}) >= 2)


class Init(CDiffCheck):
    id = 'C06'
    batch = 30
    quick_chunks = 260
    thorough_chunks = 8000
    rule = ('random types (scalars, pointers, enums, nested arrays, structs, unions, anonymous members, bit-fields) with random initializers: full, partial and '
            'elided braces, string and wide string literals, deduced array sizes, address constants with offsets and casts, constant expressions of other types, '
            'run-time values and struct values for automatic objects; at file scope, static, static local and automatic storage, executed repeatedly over dirtied '
            'storage. Every leaf is read back and compared with gcc -O0. Non-trivial: at least 3 leaves and 2 of elision, partial, string, address, '
            'nesting, struct value, deduced size, bit-field, union, or a large object (up to 70000 elements, 4090 characters); distinct by program text')

    def gen(self, src):
        return G(src).gen()


CHECK = Init()
