"""C07: functions compiled by wcc and by gcc call each other."""
from ..cdiff import Unit
from ..twofile import TwoFileCheck
from ..ctree import *

VOID = T('int', name='void')
PROMOTED = {'char': 'int', 'signed char': 'int', 'unsigned char': 'int', 'short': 'int', 'unsigned short': 'int', 'float': 'double'}
SMALL = ['char', 'short', 'float', 'int', 'double', 'long', 'unsigned char', 'long double']


class ArgTypes(Types):
    """records of the sizes and mixes the calling convention distinguishes"""
    flat_anonymous = True       # wcc classifies these with the members of the enclosing record: findings/C07-anonymous-long-double.json

    def members(self, depth, union, base='m'):
        s = self.s
        if self.o['bitfields'] or s.p(35):
            return Types.members(self, depth, union, base)
        out = []
        uniform = s.choice(SMALL) if s.p(30) else None
        for _ in range(1 + s.n(4) + (s.n(4) if s.p(30) else 0)):
            self.n += 1
            name = '%s%d' % (base, self.n)
            k = s.n(12)
            n = uniform or s.choice(SMALL[:7] if s.p(85) or not self.o['long_double'] else SMALL)
            t = (FLOAT if n in FLOATS else INT)(n)
            if k == 11 and depth > 0:
                t = self.record(depth - 1)
            elif k >= 9:
                t = ARR(t, 1 + s.n(4))
            elif k == 8:
                t = PTR(INT('char'))
            out.append(Member(name, t))
        return out

    def record(self, depth=2, union=None):
        r = Types.record(self, depth, union)
        if r.union:
            r.active = self.s.n(len(r.members))
        return r


def x87_class(t):
    """returned in st(0): recorded finding C07-long-double-record, wcc returns it in memory"""
    if t.kind == 'arr':
        return t.n == 1 and x87_class(t.of)
    if t.kind == 'rec':
        ms = [m for m in t.members if m.bits is None]
        return (t.union or len(ms) == 1) and len(ms) > 0 and all(x87_class(m.t) for m in ms)
    return t.kind == 'float' and t.name == 'long double'


class Fn:
    pass


class G:
    def __init__(self, s):
        self.s = s
        self.ty = ArgTypes(s, floats=s.p(80), long_double=s.p(50), bitfields=s.p(15), anonymous=s.p(50), packed=False)
        self.feats = set()
        self.n = 0
        self.fns = []
        self.glob = {}      # type id -> (type, name)
        self.gdecl, self.ginit, self.gdef = [], [], []
        self.shared = []
        self.mk = {}
        self.keep = []
        self.files = {'a': [], 'b': []}

    def nm(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # -- types
    def ptype(self, j, ret=False):
        s = self.s
        k = s.n(20)
        if ret and k == 0:
            return VOID
        if k < 8:
            return INT(s.choice(INTS))
        if k < 12 and self.ty.o['floats']:
            return FLOAT(s.choice(FLOATS if self.ty.o['long_double'] else FLOATS[:2]))
        if k == 12:
            return T('enum', name='enum @E')
        if k == 13:
            return PTR(s.choice([INT('char'), INT('void'), INT('long')]))
        if k == 14 and not ret and j and s.p(70):
            f = s.choice(j)
            if f.style == 'proto':
                self.feats.add('function-pointer')
                return T('ptr', to=T('fn', ret=f.ret, params=f.params), sig=f)
        if self.ty.recs and s.p(50):
            self.feats.add('record')
            return s.choice(self.ty.recs)
        self.feats.add('record')
        return self.ty.record(1)

    # -- values of a type: (text, prints) built from the variables in scope
    def const_obj(self, t):
        if id(t) not in self.glob:
            n = '@' + self.nm('g')
            self.glob[id(t)] = n
            self.keep.append(t)
            self.gdecl.append('extern %s;' % ARR(t, 3).decl(n))
            self.gdef.append(ARR(t, 3).decl(n) + ';')
            for i in range(3):
                for p, l, b in leaves(t, '%s[%d]' % (n, i))[:50]:
                    self.ginit.append('%s = %s;' % (p, scalar_value(self.s, l, b)))
        return self.glob[id(t)]

    def maker(self, t):
        """a function without side effects that returns a value of the type, in either file"""
        if id(t) not in self.mk:
            s = self.s
            n = '@' + self.nm('mk')
            self.mk[id(t)] = n
            self.keep.append(t)
            self.shared.append(t.decl('%s(int k)' % n) + ';')
            if t.kind == 'rec':
                o = self.const_obj(t)
                body = s.choice(['return %s[k];' % o, '%s; x = %s[k]; return x;' % (t.decl('x'), o), '%s = &%s[k]; return *p;' % (PTR(t).decl('p'), o)])
            elif t.kind == 'ptr' and getattr(t, 'sig', None):
                body = 'return k == 1 ? %s : %s;' % (t.sig.name, t.sig.clone or t.sig.name)
            else:
                body = 'if (k == 0) return %s; if (k == 1) return %s; return %s;' % tuple(scalar_value(s, t) for _ in range(3))
            self.files[s.choice('ab')].append('%s { %s }' % (t.decl('%s(int k)' % n), body))
        return self.mk[id(t)]

    def value(self, t, env, depth=0):
        s = self.s
        same = [p for p, x in env if x is t]
        if t.kind == 'ptr' and getattr(t, 'sig', None):
            k = s.n(6)
            if same and k < 2:
                return s.choice(same)
            return s.choice([t.sig.name, t.sig.clone or t.sig.name, '&' + t.sig.name])
        k = s.n(10)
        if same and k < 4:
            return s.choice(same)
        if t.kind == 'rec':
            if k < 6 and not x87_class(t):
                self.feats.add('nested-call')
                return '%s(%s)' % (self.maker(t), s.n(3))
            o = self.const_obj(t)
            return s.choice(['%s[%d]', '*(%s + %d)', '%s[opaque_l(%d)]', '*&%s[%d]', '(0, %s[%d])', '%s[one ? %d : 0]']) % (o, s.n(3))
        if k == 4 and depth < 3:
            self.feats.add('nested-call')
            return '%s(%s)' % (self.maker(t), s.n(3))
        if t.kind in ('int', 'float', 'enum'):
            compat = [p for p, x in env if x.kind == t.kind and x.kind != 'float']
            if compat and k < 6 and t.kind != 'enum':
                return s.choice(compat)
            if k == 6 and t.kind == 'int':
                return '(%s) opaque_l(%d)' % (t.name, s.n(1 << 16))
            if k == 6 and t.kind == 'float':
                return s.choice(['opaque_d(%d.25)', '%d', '(int) opaque_l(%d)', '%d + vd']) % s.n(1000)
            if k == 7 and t.kind == 'int':
                ls = [p for q, x in env if x.kind == 'rec' for p, l, b in leaves(x, q) if l.kind == 'int']
                if ls:
                    return s.choice(ls)
        return scalar_value(s, t)

    def args(self, f, env):
        s = self.s
        out = []
        for p in f.params:
            if p is f.rec_param:
                out.append(str(s.n(4)))
                continue
            e = self.value(p, env)
            if f.style == 'old' and p.kind in ('int', 'float'):
                e = '(%s) %s' % (p.name, e)         # no conversion by a prototype
            elif f.style == 'old' and p.kind == 'ptr':
                e = '(%s) %s' % (p.text(), e)
            elif f.style == 'old' and p.kind == 'enum':
                e = '(enum @E) %s' % e
            elif f.style != 'old' and p.kind == 'ptr' and getattr(p, 'sig', None) is None:
                e = '(void *) %s' % e
            out.append(e)
        return ', '.join(out)

    def show(self, path, t, depth=1):
        if t.kind == 'ptr' and getattr(t, 'sig', None):
            return ''
        if t.kind == 'enum':
            return 'out_i((int) %s);' % path
        if t.scalar:
            return observe(path, t)
        return ' '.join('out_i((int) %s);' % p if l.kind == 'enum' else observe(p, l) for p, l, b in leaves(t, path)[:40])

    def call(self, f, env):
        """statements that call f once and show the result"""
        s = self.s
        name = s.choice([f.name, f.clone or f.name])
        k = s.n(8)
        ft = T('ptr', to=T('fn', ret=f.ret, params=f.params))
        if f.style == 'proto' and f.ret is not VOID or f.style == 'proto' and f.ret is VOID:
            if k == 0:
                self.feats.add('indirect-call')
                name = s.choice(['(*%s)', '(&%s)', '(**%s)']) % name
            elif k == 1 and f.style == 'proto':
                self.feats.add('indirect-call')
                v = self.nm('fp')
                return '{ %s = %s; %s }' % (ft_decl(f, v), s.choice(['', '&']) + name, self.call1(f, s.choice(['%s', '(*%s)']) % v, env))
        # calls through parameters that point to functions of the same type
        ps = [p for p, x in env if x.kind == 'ptr' and getattr(x, 'sig', None) is f]
        if ps and s.p(50):
            self.feats.add('indirect-call')
            name = s.choice(['%s', '(*%s)']) % s.choice(ps)
        return self.call1(f, name, env)

    def call1(self, f, name, env):
        s = self.s
        e = '%s(%s)' % (name, self.args(f, env))
        if f.ret is VOID:
            return e + ';'
        if s.p(8):
            return '%s;' % e
        k = s.n(5)
        same = [p for p, x in env if x is f.ret and '@' not in p]
        if k == 0 and same:
            v = s.choice(same)
            return '%s = %s; %s' % (v, e, self.show(v, f.ret))
        if f.ret.kind == 'int' and k == 1:
            return 'out_i(%s + 1L);' % e if BITS[f.ret.name] < 64 else self.show(e, f.ret)
        if f.ret.kind == 'float' and k == 1:
            return 'out_d(%s * 2 + one);' % e
        if f.ret.scalar and k == 2:
            return self.show(e, f.ret)
        if f.ret.kind == 'rec' and k == 3:
            ls = [(p, l) for p, l, b in leaves(f.ret, e) if '[' not in p[len(e):]]
            if ls:
                self.feats.add('member-of-result')
                p, l = s.choice(ls)
                return self.show(p, l)
        v = self.nm('r')
        if s.p(50):
            return '{ %s; %s = %s; %s }' % (f.ret.decl(v), v, e, self.show(v, f.ret))
        return '{ %s = %s; %s }' % (f.ret.decl(v), e, self.show(v, f.ret))

    # -- functions
    def function(self, later):
        s = self.s
        f = Fn()
        f.name = '@' + self.nm('f')
        f.clone = None
        f.rec_param = None
        f.style = 'old' if s.p(15) else 'proto'
        n = s.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14]) if s.p(90) else 15 + s.n(30)
        sigs = later if f.style == 'proto' else []
        f.ret = self.ptype([], True)
        if f.ret.kind == 'rec' and x87_class(f.ret):
            f.ret = INT('long')
        pool = [self.ptype(sigs) for _ in range(1 + s.n(4))]
        f.params = [s.choice(pool) if s.p(60) else self.ptype(sigs) for _ in range(n)]
        if s.p(12):
            f.rec_param = INT('int')
            f.params = [f.rec_param] + f.params
        f.file = s.choice('ab')
        if f.style == 'old':
            self.feats.add('old-style')
            self.shared.append(f.ret.decl('%s()' % f.name) + ';' if f.ret is not VOID else 'void %s();' % f.name)
        else:
            names = s.p(30)
            plist = ', '.join(p.decl('p%d' % i if names else '').strip() for i, p in enumerate(f.params)) or 'void'
            self.shared.append((f.ret.decl('%s(%s)' % (f.name, plist)) if f.ret is not VOID else 'void %s(%s)' % (f.name, plist)) + ';')
            if s.p(40):
                f.clone = '@' + self.nm('f')
                self.shared.append((f.ret.decl('%s(%s)' % (f.clone, plist)) if f.ret is not VOID else 'void %s(%s)' % (f.clone, plist)) + ';')
        if n > 6:
            self.feats.add('many-parameters')
        self.define(f, f.name, f.file, later)
        if f.clone:
            self.define(f, f.clone, 'b' if f.file == 'a' else 'a', later)
        return f

    def define(self, f, name, file, later):
        s = self.s
        ps = ['p%d' % i for i in range(len(f.params))]
        if f.style == 'old':
            head = '%s(%s)' % (name, ', '.join(ps))
            head = (f.ret.decl(head) if f.ret is not VOID else 'void ' + head)
            decls = ['%s;' % p.decl(n) for n, p in zip(ps, f.params)]
            if s.p(30):
                decls = s.shuffle(decls)
            head += ' ' + ' '.join(decls)
        else:
            head = '%s(%s)' % (name, ', '.join(p.decl(n) for n, p in zip(ps, f.params)) or 'void')
            head = (f.ret.decl(head) if f.ret is not VOID else 'void ' + head)
        body = ['int one = opaque_l(1); double vd = opaque_d(0.5);']
        env = [(n, p) for n, p in zip(ps, f.params) if p is not f.rec_param]
        shown = [(n, p) for n, p in env if s.p(85)]
        if len(shown) > 1 and s.p(20):
            shown = s.shuffle(shown)
        body += ['out_s("%s");' % name[1:]] + [self.show(n, p) for n, p in shown]
        k = s.n(5) if later else 0
        locals_ = []
        if s.p(40):
            for _ in range(s.n(6)):
                t = self.ptype([], False)
                v = self.nm('v')
                locals_.append('%s = %s;' % (t.decl(v), ('(void *) ' if t.kind == 'ptr' else '') + self.value(t, env)))
                env.append((v, t))
        calls = []
        if f.rec_param:
            self.feats.add('recursion')
            a = ['p0 - 1']
            for n, p in list(zip(ps, f.params))[1:]:
                q = self.value(p, env) if s.p(20) and f.style != 'old' and not (p.kind == 'ptr') else n
                a.append(q)
            calls.append('if (p0 > 0) %s(%s);' % (name, ', '.join(a)))
        for _ in range(0 if k == 0 else 1 if k < 4 else 2):
            calls.append(self.call(s.choice(later), env))
        if calls or s.p(30):
            for n, p in env:
                if s.p(30) and not (p.kind == 'ptr') and p.scalar:
                    calls.insert(s.n(len(calls) + 1), '%s = %s;' % (n, self.value(p, [])))
                elif s.p(30) and p.kind == 'rec':
                    ls = leaves(p, n)
                    q, l, b = s.choice(ls)
                    calls.insert(s.n(len(calls) + 1), '%s = %s;' % (q, scalar_value(s, l, b)))
        body += calls
        if calls:
            body += [self.show(n, p) for n, p in env if s.p(70)]
        ret = ''
        if f.ret is not VOID:
            v = self.value(f.ret, env)
            if f.ret.kind == 'ptr':
                v = '(void *) ' + v
            ret = 'return %s;' % v
        self.files[file].append('%s { %s\n%s %s\n%s }' % (head, ' '.join(locals_) if False else body[0], ' '.join(locals_), ' '.join(body[1:]), ret))

    def build(self):
        s = self.s
        for _ in range(s.n(3)):
            self.ty.record(1)
        for _ in range(1 + s.n(5)):
            self.fns.insert(0, self.function(list(self.fns)))
        for side in 'ab':
            env = []
            b = ['int one = opaque_l(1); double vd = opaque_d(0.5);']
            for _ in range(s.n(5)):
                t = self.ptype([], False)
                v = self.nm('v')
                b.append('%s = %s;' % (t.decl(v), ('(void *) ' if t.kind == 'ptr' else '') + self.value(t, env)))
                env.append((v, t))
            for _ in range(1 + s.n(3)):
                b.append(self.call(s.choice(self.fns[:2]) if s.p(60) else s.choice(self.fns), env))
            for n, p in env:
                b.append(self.show(n, p))
            self.files[side].append('void @start_%s(void) { %s }' % (side, '\n'.join(b)))
        types = '\n'.join(['enum @E { @e0, @e1, @e2 };'] + self.ty.defs + self.gdecl + self.shared + ['void @start_b(void);'])
        return types


def ft_decl(f, v):
    if f.ret is VOID:
        return 'void (*%s)(%s)' % (v, ', '.join(p.decl('').strip() for p in f.params) or 'void')
    return T('ptr', to=T('fn', ret=f.ret, params=f.params)).decl(v)


class C07(TwoFileCheck):
    id = 'C07'
    batch = 20
    quick_chunks = 200
    thorough_chunks = 5000
    rule = ('random sets of 1-5 function signatures (0-14, sometimes up to 44 parameters of integer, enum, pointer, function pointer, float, double, long double, '
            'struct and union types, bit-fields and anonymous members included; prototyped and old style), each function defined in one of two files or in both, '
            'calling each other directly, through pointers, recursively and with nested calls as arguments; wcc compiles one of the files or both, gcc -O0/-O1/-O2 the other. '
            'Callees print every leaf of every parameter before and after calls and modify parameters, callers print results and their own variables; '
            'rt.c checks callee saved registers, stack alignment and the x87 stack. Non-trivial: both files hold functions; distinct by text')

    def gen(self, src):
        g = G(src)
        types = g.build()
        a = types + '\n' + '\n'.join(g.gdef) + '\nvoid @init(void) { %s }\n' % ' '.join(g.ginit) + '\n'.join(g.files['a'])
        b = types + '\n' + '\n'.join(g.files['b'])
        feats = sorted(g.feats | {x for x in g.ty.feats})
        return Unit(a, '@init(); @start_a(); @start_b();', features=feats, nontrivial=len(g.files['a']) > 1 and len(g.files['b']) > 1, extra={'other': b})


CHECK = C07()
