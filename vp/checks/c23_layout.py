"""C23: types have the size, alignment and layout of the ABI, and declarators mean what C says."""
from ..cdiff import CDiffCheck, Unit
from ..ctree import Types, T, INT, FLOAT, PTR, ARR, subobjects

SPELL = {'int': ['int', 'signed', 'signed int', 'int signed'], 'unsigned int': ['unsigned', 'unsigned int', 'int unsigned'],
         'short': ['short', 'short int', 'signed short', 'int short', 'signed short int', 'short signed'],
         'unsigned short': ['unsigned short', 'short unsigned', 'unsigned short int', 'short int unsigned', 'int short unsigned'],
         'long': ['long', 'long int', 'signed long', 'int long', 'long long', 'long long int', 'signed long long', 'long signed int', 'int long long', 'long int long'],
         'unsigned long': ['unsigned long', 'long unsigned', 'unsigned long int', 'unsigned long long', 'long long unsigned', 'long unsigned long', 'int unsigned long'],
         'char': ['char'], 'signed char': ['signed char', 'char signed'], 'unsigned char': ['unsigned char', 'char unsigned'],
         'float': ['float'], 'double': ['double'], 'long double': ['long double', 'double long'], 'void': ['void']}


class FT(T):
    pass


def FN(ret, params, old=False, variadic=False):
    return T('fn', ret=ret, params=params, old=old, variadic=variadic)


class G:
    def __init__(self, s):
        self.s = s
        pk = s.p(25)
        self.pool = Types(s, bitfields=not pk, packed=pk)
        self.decl, self.body = [], []
        self.feats = self.pool.feats
        self.n = 0
        self.depth = 0

    def nm(self, p):
        self.n += 1
        return '@%s%d' % (p, self.n)

    def flush(self):
        """definitions of records made so far come first"""
        self.decl += self.pool.defs
        self.pool.defs = []

    # -- types
    def base(self):
        s = self.s
        k = s.n(12)
        if k < 4:
            r = s.choice(self.pool.recs) if self.pool.recs and s.n(2) else self.pool.record(s.n(3))
            self.flush()
            return r
        if k == 4:
            return self.enum()
        return self.pool.scalar()

    def enum(self):
        s = self.s
        n = self.nm('e')
        items = []
        for i in range(1 + s.n(4)):
            items.append('%s_%d%s' % (n, i, s.choice(['', '', ' = %d' % (s.n(200) - 100), ' = 0x7fffffff' if i == 0 and 0 else ' = 1000000'])))
        self.decl.append('enum %s { %s%s };' % (n, ', '.join(items), s.choice(['', ','])))
        self.feats.add('enum')
        return T('enum', name='enum ' + n)

    def type(self, depth):
        """an object type"""
        s = self.s
        if depth <= 0:
            return self.base()
        k = s.n(10)
        if k < 4:
            return PTR(self.type(depth - 1))
        if k < 7:
            self.feats.add('declarator-array')
            return ARR(self.type(depth - 1), 1 + s.n(5))
        if k == 7:
            return PTR(T('int', name='void'))
        self.feats.add('declarator-function-pointer')
        return PTR(self.fn(depth - 1))

    def fn(self, depth):
        s = self.s
        ret = self.type(depth)
        if ret.kind == 'arr':
            ret = PTR(ret)
        if s.p(17):
            ret = T('int', name='void')
        params = [self.param(depth - 1) for _ in range(s.n(4))]
        return FN(ret, params, not params and s.p(33), bool(params) and s.p(20))

    def param(self, depth):
        s = self.s
        t = self.type(min(depth, 2))
        if t.kind in ('rec',):
            return PTR(t)
        return t

    # -- spelling
    def qual(self):
        s = self.s
        if not s.p(16):
            return ''
        self.feats.add('qualifier')
        return s.choice(['const', 'volatile', 'const volatile'])

    def spell(self, t, name, typedefs=True):
        """a declaration of name with type t, through typedefs, parentheses and qualifiers now and then"""
        s = self.s
        if typedefs and t.kind != 'fn' and s.p(12):
            n = self.nm('t')
            self.feats.add('typedef')
            self.decl.append(self.spell(t, n).join(['typedef ', ';']) if not s.p(25) else self.put_typedef(t, n))
            return ('%s %s %s' % (self.qual(), n, name)).strip()
        if typedefs and t.kind == 'fn' and s.p(17):
            n = self.nm('t')
            self.feats.add('typedef-function')
            self.decl.append('typedef %s;' % self.spell(t, n))
            return '%s %s' % (n, name)
        if name and s.p(10):
            name = '(%s)' % name
            self.feats.add('parentheses')
        if t.kind in ('int', 'float'):
            q = self.qual()
            sp = s.choice(SPELL[t.name])
            if t.name == 'void':
                return 'void %s' % name
            if q and s.n(2) and ' ' in sp:
                a, b = sp.split(' ', 1)
                return '%s %s %s %s' % (a, q, b, name)
            return ('%s %s %s' % (q, sp, name) if s.n(2) else '%s %s %s' % (sp, q, name)).strip()
        if t.kind == 'enum':
            return '%s %s' % (t.name, name)
        if t.kind == 'rec':
            q = self.qual()
            return ('%s %s %s' % (q, t.tag, name) if s.n(2) else '%s %s %s' % (t.tag, q, name)).strip()
        if t.kind == 'ptr':
            n = '*%s %s' % (self.qual(), name) if s.p(60) else '*' + name
            if t.to.kind in ('arr', 'fn'):
                n = '(%s)' % n
            return self.spell(t.to, n, typedefs)
        if t.kind == 'arr':
            dim = s.choice(['%d', '%d', '%d', '0x%x', '(%d)', '%d + 0', 'sizeof(char) * %d', '1 ? %d : 9']) % t.n
            return self.spell(t.of, '%s[%s]' % (name, dim), typedefs)
        if t.kind == 'fn':
            ps = []
            for p in t.params:
                ps.append(self.spell(p, self.nm('p') if s.p(33) else '', typedefs))
            if t.variadic:
                ps.append('...')
            return self.spell(t.ret, '%s(%s)' % (name, ', '.join(ps) or ('' if t.old else 'void')), typedefs)
        raise AssertionError(t.kind)

    def put_typedef(self, t, n):
        """several declarators in one typedef; specifiers may precede the keyword"""
        self.feats.add('typedef-list')
        b = self.base()
        bn = self.nm('t')
        self.decl.append('%s;' % self.spell(b, 'typedef %s' % bn if False else bn, False).join(['typedef ', ', *%s_p, %s_a[3]' % (bn, bn)]))
        self.body.append('out_i(sizeof(%s_p)); out_i(sizeof(*(%s_p) 0)); out_i(sizeof(%s_a));' % (bn, bn, bn))
        return 'typedef %s;' % self.spell(t, n)

    # -- observations
    def arg(self, p):
        if p.kind == 'float':
            return '0.5'
        return '0'

    def call(self, e, fn):
        return '%s(%s)' % (e, ', '.join(self.arg(p) for p in fn.params))

    def walk(self, e, t, depth):
        """sizes of what the declared thing gives when it is used"""
        s = self.s
        out = []
        complete = not (t.kind == 'fn' or t.kind == 'int' and t.name == 'void')
        if complete:
            self.body.append('out_i(sizeof(%s));' % e)
        if depth <= 0:
            return
        if t.kind == 'ptr':
            if t.to.kind == 'fn':
                self.walk(self.call(s.choice(['%s', '(*%s)', '(**%s)']) % e, t.to), t.to.ret, depth - 1)
            elif t.to.kind != 'int' or t.to.name != 'void':
                self.walk(s.choice(['(*%s)', '%s[2]', '1[%s]', '(*(%s + 1))']) % e, t.to, depth - 1)
                if t.to.kind == 'rec':
                    self.members(e + '->', t.to, depth)
        elif t.kind == 'arr':
            self.walk(s.choice(['(*%s)', '%s[0]', '0[%s]']) % e, t.of, depth - 1)
            if s.p(25):
                self.body.append('out_i(sizeof(*&%s)); out_i(sizeof(%s + 0));' % (e, e))
        elif t.kind == 'fn':
            self.walk(self.call(e, t), t.ret, depth - 1)
        elif t.kind == 'rec':
            self.members(e + '.', t, depth)

    def members(self, pre, t, depth):
        ms = [m for m in t.members if m.name and m.bits is None]
        if ms:
            m = self.s.choice(ms)
            self.walk(pre + m.name, m.t, depth - 1)

    def layout(self, t):
        """alignment, offsets and bits of a record"""
        s = self.s
        al = self.nm('al')
        self.decl.append('struct %s { char c; %s; };' % (al, t.decl('x')))
        self.body.append('out_i((long) &((struct %s *) 0)->x); out_i(sizeof(struct %s));' % (al, al))
        v = self.nm('v')
        self.decl.append('%s;' % t.decl(v))
        subs = [x for x in subobjects(t, v) if x[0] != v]
        for p, st, bits in subs[:30]:
            if bits is None:
                if s.n(2):
                    self.body.append('out_i((char *) &%s - (char *) &%s); out_i(sizeof(%s));' % (p, v, p))
                else:
                    self.body.append('out_i((long) &((%s *) 0)->%s);' % (t.tag, p[len(v) + 1:]))
        # union members, too
        for m in t.members:
            if m.name and m.bits is None:
                self.body.append('out_i((char *) &%s.%s - (char *) &%s);' % (v, m.name, v))
        for p, st, bits in subs[:40]:
            if bits is not None:
                self.feats.add('bit-position')
                self.body.append('%s = -1; out_mem(&%s, sizeof(%s)); %s = 0;' % (p, v, v, p))

    def unit(self):
        s = self.s
        for _ in range(1 + s.n(3)):
            r = self.pool.record(s.n(3))
            self.flush()
            self.body.append('out_i(sizeof(%s));' % r.tag)
            self.layout(r)
        for _ in range(1 + s.n(5)):
            depth = 1 + s.n(5)
            k = s.n(10)
            if k < 5:
                t = self.type(depth)
                n = self.nm('d')
                d = self.spell(t, n)
                loc = s.n(3)
                if loc == 0:
                    self.decl.append('extern %s;' % d)
                elif loc == 1:
                    self.decl.append('typedef char %s_keep; %s%s;' % (n, s.choice(['static ', '', 'extern ']), d))
                else:
                    self.body.append('{ %s%s;' % (s.choice(['extern ', 'static ']), d))
                self.walk(n, t, depth + 2)
                if loc == 2:
                    self.body.append('}')
            elif k < 7:
                t = self.type(depth)
                self.feats.add('abstract')
                d = self.spell(t, '')
                self.body.append('out_i(sizeof(%s));' % d)
                if t.kind != 'arr':
                    if t.kind != 'rec':
                        self.walk('((%s) 0)' % d, t, depth + 1) if t.kind == 'ptr' else None
                self.body.append('out_i(sizeof(*(%s) 0));' % self.spell(PTR(t), ''))
            elif k == 7:
                f = self.fn(depth)
                n = self.nm('f')
                self.decl.append('%s;' % self.spell(f, n))
                self.walk(n, f, depth + 2)
                self.feats.add('function')
            else:
                # a function whose parameters are seen from inside
                ps, seen = [], []
                for _ in range(1 + s.n(3)):
                    t = self.type(s.n(4))
                    if s.p(25):
                        t = self.fn(1)
                        self.feats.add('function-parameter')
                    pn = self.nm('q')
                    ps.append(self.spell(t, pn))
                    seen.append((pn, PTR(t.of) if t.kind == 'arr' else PTR(t) if t.kind == 'fn' else t))
                n = self.nm('g')
                old, self.body = self.body, []
                for pn, t in seen:
                    self.walk(pn, t, 4)
                    if t.kind == 'ptr' and t.to.kind != 'fn' and not (t.to.kind == 'int' and t.to.name == 'void'):
                        self.body.append('out_i((long) ((char *) (%s + 1) - (char *) %s));' % (pn, pn))
                self.decl.append('static void %s(%s) {\n%s\n}' % (n, ', '.join(ps), '\n'.join(self.body)))
                self.body = old
                args = []
                for pn, t in seen:
                    if t.kind == 'rec':
                        self.body.append('{ %s;' % t.decl('a' + pn).replace('a@', '@a'))
                        args.append('@a' + pn[1:])
                    else:
                        args.append('0')
                self.body.append('%s(%s);' % (n, ', '.join(args)))
                self.body.append('}' * sum(1 for pn, t in seen if t.kind == 'rec'))
                self.feats.add('parameters')
        return Unit('\n'.join(self.decl), '\n'.join(self.body), None, sorted(self.feats), len(self.feats) >= 2)


class Layout(CDiffCheck):
    id = 'C23'
    batch = 20
    quick_chunks = 200
    thorough_chunks = 8000
    rule = ('random structs and unions (nested, anonymous members, arrays, bit-fields, packed) and declarations with up to five derivations (pointers, arrays, functions) spelled through typedefs, parentheses, '
            'qualifiers and permuted specifiers; sizes, alignments, offsets, bit positions and the sizes of everything the declarators lead to are printed and compared with gcc. Non-trivial: at least 2 features')
    confirm_with = ('gcc2', 'clang')

    def gen(self, src):
        return G(src).unit()


CHECK = Layout()
