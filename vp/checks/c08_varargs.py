"""C08: variadic functions and calls, across wcc and gcc."""
from ..cdiff import Unit
from ..twofile import TwoFileCheck
from ..ctree import *
from .c07_abi import G as G7, x87_class, VOID

VINT = ['int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long']


class G(G7):
    def vtype(self):
        """a type a variable argument can have after the default promotions"""
        s = self.s
        k = s.n(16)
        if k < 5:
            return INT(s.choice(VINT))
        if k < 8 and self.ty.o['floats']:
            return FLOAT('double')
        if k == 8 and self.ty.o['long_double']:
            return FLOAT('long double')
        if k == 9:
            return T('enum', name='enum @E')
        if k == 10:
            return PTR(s.choice([INT('char'), INT('void'), INT('long')]))
        if self.ty.recs and s.p(60):
            return s.choice(self.ty.recs)
        return self.ty.record(1)

    def vvalue(self, t, env):
        """an argument expression that has the type t after the default promotions"""
        s = self.s
        if t.kind == 'int':
            if t.name == 'int' and s.p(30):
                return '(%s) %s' % (s.choice(['char', 'short', 'signed char', 'unsigned char', 'unsigned short', 'int']), self.value(t, env))
            return '(%s) %s' % (t.name, self.value(t, env))
        if t.kind == 'float':
            if t.name == 'double' and s.p(25):
                return '(float) %s' % self.value(t, env)
            return '(%s) %s' % (t.name, self.value(t, env))
        if t.kind == 'enum':
            return '(enum @E) %s' % self.value(t, env)
        if t.kind == 'ptr':
            return '(%s) %s' % (t.text(), self.value(t, env))
        return self.value(t, env)

    def read(self, ap, t):
        """statements that read one argument from ap and show it"""
        s = self.s
        e = 'va_arg(%s, %s)' % (ap, t.text())
        k = s.n(6)
        if k == 0 and t.kind == 'int':
            return 'out_i((long) (%s + one));' % e
        if k == 1 and t.kind == 'float' and t.name == 'double':
            return 'out_d(%s * 2 + one);' % e
        if k == 2 and t.kind == 'rec':
            ls = [(p, l) for p, l, b in leaves(t, e) if '[' not in p[len(e):]]
            if ls:
                p, l = s.choice(ls)
                return self.show(p, l)
        if k == 3 and t.scalar:
            return self.show(e, t)
        v = self.nm('v')
        if k == 4:
            return '{ %s; %s = %s; %s }' % (t.decl(v), v, e, self.show(v, t))
        return '{ %s = %s; %s }' % (t.decl(v), e, self.show(v, t))

    def reads(self, ap, ts):
        """reads of ts from ap: directly or through functions that take the va_list"""
        s = self.s
        out = []
        i = 0
        while i < len(ts):
            n = 1 + s.n(4)
            part = ts[i:i + n]
            k = s.n(10)
            if k < 6 or self.depth > 2:
                out += [self.read(ap, t) for t in part]
            elif k < 8:
                # a function reads the rest; afterwards ap is indeterminate
                self.feats.add('va_list-parameter')
                h = self.helper(ts[i:], False)
                out.append('%s(%s);' % (h, self.extra_args(ap)))
                return out
            else:
                self.feats.add('va_list-pointer')
                h = self.helper(part, True)
                out.append('%s(%s);' % (h, self.extra_args('&' + ap if ap[0] != '*' else ap[1:])))
            i += n
        return out

    def extra_args(self, ap):
        # helpers take (int one, [6 ints,] va_list) so that the list is in a register or on the stack
        return ap + self.pad_args

    def helper(self, ts, by_pointer):
        s = self.s
        h = '@' + self.nm('h')
        npad = s.choice([0, 0, 1, 6, 7])
        self.pad_args = ''.join(', %d' % i for i in range(npad))
        pads = ''.join(', int x%d' % i for i in range(npad))
        ap = '*ap' if by_pointer else 'ap'
        self.shared.append('void %s(va_list %s%s);' % (h, ap, pads))
        self.depth += 1
        if by_pointer:
            # a va_list parameter would have decayed: only pointers to arrays here
            body = self.reads('*ap', ts)
        else:
            body = self.reads_param('ap', ts)
        self.depth -= 1
        pa = self.pad_args = ''.join(', %d' % i for i in range(npad))
        self.files[s.choice('ab')].append('void %s(va_list %s%s) { int one = opaque_l(1); %s }' % (h, ap, pads, ' '.join(body)))
        self.pad_args = pa
        return h

    def reads_param(self, ap, ts):
        """like reads for a va_list that is a parameter: its address has another type"""
        s = self.s
        k = s.n(4)
        if k == 0:
            self.feats.add('va_copy')
            return ['va_list cp; va_copy(cp, ap);'] + self.reads('cp', ts) + ['va_end(cp);'] + [self.read(ap, t) for t in ts]
        if k == 1 and ts:
            h = self.helper(ts[1:], False)
            return [self.read(ap, ts[0]), '%s(%s);' % (h, self.extra_args(ap))]
        return [self.read(ap, t) for t in ts]

    def vfunction(self, later):
        s = self.s
        f = type('F', (), {})()
        f.name = '@' + self.nm('f')
        n = 1 + s.n(4) if s.p(60) else 1 + s.n(14)
        pool = [self.ptype([]) for _ in range(1 + s.n(3))]
        f.params = [s.choice(pool) if s.p(70) else self.ptype([]) for _ in range(n)]
        last = f.params[-1]
        # the last named parameter of a type that promotion changes is undefined behaviour
        if last.kind == 'int' and last.name in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short') or last.kind == 'float' and last.name == 'float':
            f.params[-1] = INT('int')
        f.ret = self.ptype([], True)
        if f.ret.kind == 'rec' and x87_class(f.ret):
            f.ret = INT('long')
        f.file = s.choice('ab')
        mode = s.n(10)
        f.fmt = mode < 3
        pool = [self.vtype() for _ in range(1 + s.n(5))]
        m = s.n(7) if s.p(50) else s.n(24)
        f.vargs = [s.choice(pool) if s.p(75) else self.vtype() for _ in range(m)]
        proto = f.ret.decl('%s(%s, ...)' % (f.name, ', '.join(p.decl('').strip() for p in ([INT('int')] if f.fmt else []) + f.params)))
        if f.ret is VOID:
            proto = 'void %s(%s, ...)' % (f.name, ', '.join(p.decl('').strip() for p in ([INT('int')] if f.fmt else []) + f.params))
        self.shared.append(proto + ';')
        ps = ['p%d' % i for i in range(n)]
        head = '%s(%s, ...)' % (f.name, ', '.join((['int count'] if f.fmt else []) + [p.decl(q) for q, p in zip(ps, f.params)]))
        head = f.ret.decl(head) if f.ret is not VOID else 'void ' + head
        body = ['int one = opaque_l(1); double vd = opaque_d(0.5);']
        env = list(zip(ps, f.params))
        body.append('out_s("%s");' % f.name[1:])
        names = [self.show(q, p) for q, p in env if s.p(70)]
        if s.p(50):
            body += names
            names = []
        lst = s.choice(['va_list ap;', 'va_list ap;', 'va_list ap;', 'struct { char c; va_list ap; } st;', 'va_list aps[2];', 'static va_list ap;'])
        ap = 'st.ap' if 'st;' in lst else 'aps[one]' if 'aps' in lst else 'ap'
        if ap != 'ap' or 'static' in lst:
            self.feats.add('va_list-object')
        body.append(lst + ' va_start(%s, %s);' % (ap, ps[-1]))
        rets = 'return 0;'
        if f.ret is VOID:
            ret = ''
        else:
            v = self.value(f.ret, env)
            ret = 'return %s%s;' % ('(void *) ' if f.ret.kind == 'ptr' else '', v)
        if f.fmt:
            # a loop over one type, or two alternating types, as often as count says
            self.feats.add('loop')
            ts = (f.vargs or [INT('int')])[:1 + s.n(2)]
            f.loop = ts
            r = [' '.join([self.read(ap, ts[0])])] if len(ts) == 1 else ['if (i & 1) { %s } else { %s }' % (self.read(ap, ts[1]), self.read(ap, ts[0]))]
            body.append('{ int i; for (i = 0; i < count; i++) { %s } }' % ' '.join(r))
        else:
            k = s.n(10)
            if k < 2 and f.vargs:
                self.feats.add('va_copy')
                cut = s.n(len(f.vargs) + 1)
                body += [self.read(ap, t) for t in f.vargs[:cut]]
                body.append('{ va_list cp; va_copy(cp, %s);' % ap)
                body += self.reads('cp', f.vargs[cut:])
                body.append('va_end(cp); }')
                body += self.reads(ap, f.vargs[cut:])
            elif k == 2:
                self.feats.add('restart')
                cut = s.n(len(f.vargs) + 1)
                body += self.reads(ap, f.vargs[:cut])
                body.append('va_end(%s); va_start(%s, %s);' % (ap, ap, ps[-1]))
                body += self.reads(ap, f.vargs)
            else:
                cut = len(f.vargs) if s.p(80) else s.n(len(f.vargs) + 1)
                body += self.reads(ap, f.vargs[:cut])
        body.append('va_end(%s);' % ap)
        body += names
        if later and s.p(50):
            body.append(self.vcall(s.choice(later), env))
        self.files[f.file].append('%s { %s\n %s }' % (head, '\n'.join(body), ret))
        if len(f.vargs) > 6:
            self.feats.add('many-arguments')
        return f

    def vcall(self, f, env):
        s = self.s
        a = []
        for p in f.params:
            v = self.value(p, env)
            a.append(('(void *) ' if p.kind == 'ptr' else '') + v)
        if f.fmt:
            n = s.n(12)
            a.insert(0, str(n))
            vs = [f.loop[i % len(f.loop)] for i in range(n)]
        else:
            vs = list(f.vargs)
        a += [self.vvalue(t, env) for t in vs]
        if s.p(15):
            a += [self.vvalue(self.vtype(), env) for _ in range(s.n(4))]      # surplus arguments are ignored
            self.feats.add('surplus')
        k = s.n(8)
        name = f.name
        if k == 0:
            self.feats.add('indirect-call')
            name = s.choice(['(*%s)', '(&%s)']) % name
        e = '%s(%s)' % (name, ', '.join(a))
        if f.ret is VOID or s.p(10):
            return e + ';'
        if f.ret.scalar and k == 1:
            return self.show(e, f.ret)
        v = self.nm('r')
        return '{ %s = %s; %s }' % (f.ret.decl(v), e, self.show(v, f.ret))

    def libc_call(self, env):
        """vsprintf of the C library reads a list that wcc made"""
        s = self.s
        self.feats.add('libc')
        if not getattr(self, 'vs', None):
            self.vs = []
            for side in 'ab':
                n = '@' + self.nm('vs')
                npre = s.n(7)
                pre = ''.join('int x%d, ' % i for i in range(npre))
                self.shared.append('void %s(%sconst char *fmt, ...); int vsprintf(char *, const char *, va_list);' % (n, pre))
                self.files[side].append('void %s(%sconst char *fmt, ...) { char buf[4096]; va_list ap; va_start(ap, fmt); vsprintf(buf, fmt, ap); va_end(ap); out_s(buf); }' % (n, pre))
                self.vs.append((n, npre))
        n, npre = s.choice(self.vs)
        fmt, args = '', []
        for _ in range(s.n(14)):
            k = s.n(6)
            t, c = [(INT('int'), '%d'), (INT('long'), '%ld'), (FLOAT('double'), '%g'), (FLOAT('long double'), '%Lg'), (INT('unsigned long'), '%lu'), (INT('unsigned int'), '%u')][k]
            fmt += c + ' '
            args.append(self.vvalue(t, env))
        if s.p(20):
            fmt += '%s %c '
            args += ['"str"', "'q'"]
        return '%s(%s"%s"%s);' % (n, ''.join('%d, ' % i for i in range(npre)), fmt, ''.join(', ' + a for a in args))

    def build(self):
        s = self.s
        self.depth = 0
        self.pad_args = ''
        for _ in range(s.n(3)):
            self.ty.record(1)
        fs = []
        for _ in range(1 + s.n(4)):
            fs.insert(0, self.vfunction(list(fs)))
        for side in 'ab':
            env = []
            b = ['int one = opaque_l(1); double vd = opaque_d(0.5);']
            for _ in range(s.n(5)):
                t = self.ptype([], False)
                v = self.nm('v')
                b.append('%s = %s;' % (t.decl(v), ('(void *) ' if t.kind == 'ptr' else '') + self.value(t, env)))
                env.append((v, t))
            for _ in range(1 + s.n(3)):
                b.append(self.vcall(s.choice(fs), env))
            if s.p(30):
                b.append(self.libc_call(env))
            for n, p in env:
                b.append(self.show(n, p))
            self.files[side].append('void @start_%s(void) { %s }' % (side, '\n'.join(b)))
        return '\n'.join(['#include <stdarg.h>', 'enum @E { @e0, @e1, @e2 };'] + self.ty.defs + self.gdecl + self.shared + ['void @start_b(void);'])


class C08(TwoFileCheck):
    id = 'C08'
    batch = 20
    quick_chunks = 160
    thorough_chunks = 5000
    rule = ('random variadic functions (1-15 named parameters of any type, 0-24 variable arguments of promoted integer, enum, pointer, double, long double, struct and union types), '
            'defined in one of two files and called from both; they read their arguments directly, in loops, through functions taking the va_list or a pointer to it '
            '(in either file, in a register or on the stack), through va_copy, after restarting, from lists in structs, arrays and statics, and through the C library\'s vsprintf. '
            'wcc compiles one file or both, gcc -O0/-O1/-O2 the other. Non-trivial: at least 5 variable arguments or a passed va_list; distinct by text')

    def gen(self, src):
        g = G(src)
        types = g.build()
        a = types + '\n' + '\n'.join(g.gdef) + '\nvoid @init(void) { %s }\n' % ' '.join(g.ginit) + '\n'.join(g.files['a'])
        b = types + '\n' + '\n'.join(g.files['b'])
        feats = sorted(g.feats | {x for x in g.ty.feats})
        return Unit(a, '@init(); @start_a(); @start_b();', features=feats, nontrivial=bool(g.feats & {'many-arguments', 'va_list-parameter', 'va_list-pointer', 'va_copy', 'loop', 'libc'}), extra={'other': b})


CHECK = C08()
