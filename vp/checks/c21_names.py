"""C21: identifiers denote what scope, name space and linkage say, in every file of a program.

A unit is three files that use four names for everything: objects, functions, typedefs, enumeration
constants, parameters, members, tags and labels, with external, internal or no linkage, redeclared in
nested scopes.  Every declaration has a value or a size of its own, so an observation tells which
declaration an identifier denoted.  Subsets of the files are compiled by wcc (the rest by gcc) and
linked into an executable, into an executable from position independent code, or into an executable
and a shared library.  Oracle: gcc, confirmed by gcc -O2, clang and clang's sanitizers; the symbols
the object files define (name, binding, object or function, size) are compared as well."""
import os, re
from ..cdiff import CDiffCheck, Unit, PRELUDE, GCC_FLAGS, tu_text
from .. import proc

NAMES = ['@a', '@b', '@c', '@d']
SIDES = 'abc'


class B:
    """what a name denotes; obs: expressions, mods: statements"""
    def __init__(self, kind, obs=(), mods=(), linkage=None, const=None, addr=None):
        self.kind, self.obs, self.mods, self.linkage, self.const, self.addr = kind, list(obs), list(mods), linkage, const, addr


class G:
    def __init__(self, s):
        self.s, self.feats, self.uid = s, set(), 0
        self.env, self.tags = [{}], [{}]
        self.ext, self.asm = {}, {}

    def v(self):
        self.uid += 1
        return 100 + 7 * self.uid

    def size(self):
        self.uid += 1
        return 9 + self.uid

    def new(self, p='q'):
        self.uid += 1
        return '@%s%d' % (p, self.uid)

    def look(self, n):
        for e in reversed(self.env):
            if n in e:
                return e[n]

    def look_tag(self, n):
        for e in reversed(self.tags):
            if n in e:
                return e[n]

    def push(self):
        self.env.append({})
        self.tags.append({})

    def pop(self):
        self.env.pop()
        self.tags.pop()

    # ---- objects: (type key) -> declaration, binding
    def var_types(self):
        return ['int', 'uchar', 'arr', 'ptr', 'short', 'fptr']

    def decl_text(self, t, n, incomplete=False, implicit=False):
        if implicit and t in ('int', 'arr') and self.s.p(10):
            self.feats.add('implicit-int')
            return ('%s' if t == 'int' else '%s[]' if incomplete else '%s[3]') % n
        return {'int': 'int %s', 'uchar': 'unsigned char %s', 'short': 'short %s', 'arr': 'int %s[]' if incomplete else 'int %s[3]',
                'ptr': 'int *%s', 'fptr': 'int (*%s)(void)'}[t] % n

    def var_bind(self, t, n, linkage=None, complete=True, null=False):
        if t in ('int', 'uchar', 'short'):
            b = B('var', [n, n, 'sizeof(%s)' % n, '*&%s' % n], ['%s += %d;' % (n, 1 + self.s.n(3)), '%s++;' % n], linkage, addr=('&' + n) if t == 'int' else None)
        elif t == 'arr':
            b = B('var', ['%s[1]' % n, '*%s' % n, '%s[2]' % n] + (['sizeof(%s)' % n] if complete else []), ['%s[1] += %d;' % (n, 1 + self.s.n(3)), '%s[2]--;' % n], linkage, addr=n + ' + 1')
        elif null:
            b = B('var', ['sizeof(%s)' % n, '%s == 0' % n], [], linkage)
        elif t == 'ptr':
            b = B('var', ['*%s' % n, '*%s' % n, 'sizeof(%s)' % n], ['*%s += %d;' % (n, 1 + self.s.n(3))], linkage)
        else:
            b = B('var', ['%s()' % n, '(*%s)()' % n], [], linkage)
        b.type = t
        return b

    def init(self, t, pre, own=None):
        """initializer; pre collects declarations that have to come first"""
        if t in ('int', 'short'):
            return str(self.v())
        if t == 'uchar':
            return str(self.v() % 251)
        if t == 'arr':
            return '{ %d, %d, %d }' % (self.v(), self.v(), self.v())
        # something visible with static storage, or a hidden object
        h = self.new('h')
        if t == 'ptr':
            cand = [b.addr for e in self.env[:1] for m, b in sorted(e.items()) if b.kind == 'var' and b.addr and m != own and self.look(m) is b]
            if cand and self.s.p(50):
                self.feats.add('address-of-named')
                return self.s.choice(cand)
            pre.append('static int %s = %d;' % (h, self.v()))
            return '&' + h if self.s.p(80) else '(int *) &%s' % h
        cand = [m for m, b in sorted(self.env[0].items()) if b.kind == 'func' and m != own and self.look(m) is b]
        if cand and self.s.p(50):
            self.feats.add('address-of-function')
            return self.s.choice(['', '&']) + self.s.choice(cand)
        pre.append('static int %s(void) { static int n = %d; return n++; }' % (h, self.v()))
        return h

    # ---- file scope
    def plan(self):
        s = self.s
        for n in NAMES:
            k = s.weighted([(5, 'var'), (3, 'func'), (2, None)])
            if k:
                self.ext[n] = (k, s.choice(self.var_types()) if k == 'var' else None, s.n(3))
                if k == 'func' and s.p(15):
                    self.asm[n] = '@L' + n[1:]
                    self.feats.add('asm-label')

    def role(self, n, t):
        s = self.s
        e = self.ext.get(n)
        if e and e[2] == t:
            return 'def'
        loc = [(3, 'svar'), (2, 'sfunc'), (2, 'typedef'), (2, 'enum')]
        return s.weighted([(8, 'ext'), (4, None)] + loc if e else [(2, None)] + loc)

    def pieces(self, n, role):
        """closures that emit the file scope declarations of n, to be run in order"""
        s = self.s
        e = self.ext.get(n)
        if role is None:
            return []
        if role == 'typedef':
            return [lambda: self.local_typedef(n)]
        if role == 'enum':
            return [lambda: self.local_enum(n)]
        if role in ('ext', 'def') and e[0] == 'func' or role == 'sfunc':
            static = role == 'sfunc'
            link = 'i' if static else 'e'
            ps = []

            def bind():
                b = B('func', ['%s()' % n, '(*%s)()' % n, '(&%s)()' % n], [], link)
                self.env[0][n] = b

            def proto(first):
                def f():
                    if n not in self.env[0]:
                        bind()
                    # tests/integration/test-errors.c wants the valid "static int f(); int f();" rejected
                    q = ('static ' if static and (first or s.p(50)) else 'extern ' if static else s.choice(['', 'extern ']))
                    label = ' __asm__("%s")' % (self.asm[n] if not static else '@S%d' % first_uid) if asm and (first or s.p(50)) else ''
                    if not label and s.p(6):
                        label = ' __attribute__((%s))' % s.choice(['noinline', 'unused', '__noinline__'])
                        self.feats.add('attribute')
                    q += self.spec(q, static)
                    return '%s%s %s(%s)%s;' % (q, self.int(q), n, s.choice(['void', '']), label)
                return f

            def define(first):
                def f():
                    bind()
                    q = ('static ' if static and (first or s.p(50)) else 'extern ' if static else s.choice(['', 'extern ', '', '']))
                    if static and not q.startswith('static'):
                        self.feats.add('static-inherited')
                    body = s.weighted([(3, 'return %d;' % self.v()), (3, 'static int %s = %d; return %s++;' % (n, self.v(), n)), (2, None)])
                    if body is None:
                        o = self.any_obs(lambda m, b: b.kind != 'func' and not (b.kind == 'var' and b.type == 'fptr'))
                        body = 'return %d + %s;' % (self.v(), o)
                    q += self.spec(q, static)
                    if s.p(4):
                        q = '__attribute__((%s)) ' % s.choice(['noinline', 'unused', '__noinline__']) + q
                        self.feats.add('attribute')
                    return '%s%s %s(%s) { %s }' % (q, self.int(q), n, s.choice(['void', 'void', '']), body)
                return f
            first = True
            asm = s.p(10) if static else n in self.asm
            if asm and static:
                self.feats.add('asm-label')
            first_uid = self.v()
            for _ in range(s.weighted([(0 if asm else 4, 0), (3, 1), (1, 2)]) if role != 'ext' else 1 + s.n(2)):
                ps.append(proto(first))
                first = False
            if role != 'ext':
                ps.append(define(first))
                for _ in range(s.weighted([(4, 0), (2, 1)])):
                    ps.append(proto(False))
            return ps
        static = role == 'svar'
        t = s.choice(self.var_types()) if static else e[1]
        link = 'i' if static else 'e'
        kinds = []
        q0 = 'static ' if static else ''
        forms = []
        if role == 'ext':
            forms = ['extern'] * (1 + s.n(2))
        else:
            need_init = t in ('ptr', 'fptr') or s.p(80)
            pre = s.weighted([(5, []), (2, ['tent']), (2, ['extern']), (1, ['tent', 'tent']), (1, ['tent', 'extern'])])
            post = s.weighted([(5, []), (2, ['tent']), (2, ['extern'])])
            forms = pre + (['init'] if need_init else ['tent']) + post
            if static and forms[0] == 'extern':
                forms = forms[1:]
            if len(forms) > 1:
                self.feats.add('tentative' if 'tent' in forms else 'redeclared')

        def piece(form, later_init):
            def f():
                pre = []
                first = n not in self.env[0]
                # until it is initialized a pointer cannot be followed at file scope: only functions do, and they run later
                inc = t == 'arr' and form == 'extern' and s.p(50)
                if form == 'init':
                    i = self.init(t, pre, n)
                    text = q0 + self.decl_text(t, n, False, bool(q0)) + ' = ' + i + ';'
                elif form == 'tent':
                    text = q0 + self.decl_text(t, n) + ';'
                else:
                    text = 'extern ' + self.decl_text(t, n, inc, True) + ';'
                    if static:
                        self.feats.add('extern-of-static')
                b = self.env[0].get(n)
                if b is None or not inc:
                    nb = self.var_bind(t, n, link, complete=not inc)
                    self.env[0][n] = nb
                return '\n'.join(pre + [text])
            return f
        return [piece(f, True) for f in forms]

    def spec(self, q, static):
        if static and 'static' in q and self.s.p(15):
            self.feats.add('inline')
            return self.s.choice(['inline ', '__inline '])
        return ''

    def int(self, q):
        """int may be left out"""
        if self.s.p(8):
            self.feats.add('implicit-int')
            return ''
        return 'int'

    def file_tag(self, n):
        return lambda: self.tag_decl(n)

    def file(self, t):
        s = self.s
        self.env, self.tags = [{}], [{}]
        self.roles = {n: self.role(n, t) for n in NAMES}
        streams = [self.pieces(n, self.roles[n]) for n in NAMES]
        for n in NAMES:
            if s.p(40):
                streams.append([self.file_tag(n)])
        workers = []
        streams.append([lambda: self.worker(t, workers)] * (1 + s.n(3)))
        streams = [list(x) for x in streams if x]
        out = []
        while streams:
            x = s.choice(streams)
            r = x.pop(0)()
            if r:
                out.append(r)
            if not x:
                streams = [y for y in streams if y]
            if s.p(3):
                out.append(s.choice([';', ';;']))
                self.feats.add('stray-semicolon')
        calls = []
        for w in workers:
            calls.append('%s(%d, %d);' % (w, self.v(), self.v()))
        obs = []
        for n in NAMES:
            b = self.env[0].get(n)
            if b:
                obs.append('out_i((long) (%s));' % s.choice(b.obs))
        out.append('void @run%d(void) { %s %s }' % (t, ' '.join(calls), ' '.join(obs)))
        return '\n'.join(out)

    # ---- functions
    def worker(self, t, workers):
        s = self.s
        w = self.new('w')
        p = s.shuffle(NAMES)[:2]
        self.push()
        for n in p:
            self.env[-1][n] = self.var_bind('int', n)
        self.labels = set()
        self.depth = 0
        static = s.p(30)
        body = self.block_items(2 + s.n(4))
        self.pop()
        head = s.weighted([(4, 'int %s(int %s, int %s)' % (w, p[0], p[1])), (0 if any(self.look(x) and self.look(x).kind == 'typedef' for x in p) else 1, 'int %s(%s, %s) int %s; int %s;' % (w, p[0], p[1], p[0], p[1]))])
        workers.append(w)
        self.protos = getattr(self, 'protos', [])
        if not static and 'int %s(int' % w in head:
            self.protos.append(w)
        return '%s%s\n{\n%s\nreturn 0; }' % ('static ' if static else '', head, body)

    def any_obs(self, ok=lambda n, b: True, simple=False):
        s = self.s
        c = []
        seen = set()
        for e in reversed(self.env):
            for n in sorted(e):
                if n not in seen:
                    seen.add(n)
                    if ok(n, e[n]):
                        c.append(e[n])
        if not c:
            return str(self.v())
        b = s.choice(c)
        return s.choice(b.obs)

    def show(self):
        s = self.s
        if s.p(20):
            c = [(n, self.look_tag(n)) for n in NAMES if self.look_tag(n) and self.look_tag(n)[1]]
            if c:
                n, (kw, _) = s.choice(c)
                self.feats.add('tag')
                return 'out_i(sizeof(%s %s));' % (kw, n)
        return 'out_i((long) (%s));' % self.any_obs()

    def free_name(self):
        c = [n for n in NAMES if n not in self.env[-1]]
        return self.s.choice(c) if c else None

    def block_items(self, k):
        s = self.s
        out = []
        for _ in range(k):
            out.append(self.item())
        out.append(self.show())
        return '\n'.join(o for o in out if o)

    def item(self):
        s = self.s
        self.depth += 1
        deep = self.depth > 4
        k = s.weighted([(6, 'show'), (9, 'decl'), (3, 'mod'), (0 if deep else 4, 'block'), (0 if deep else 2, 'for'), (1, 'for1'), (2, 'label'), (3, 'tag'),
                        (1, 'proto'), (1, 'switch'), (1, 'stmtexpr'), (2, 'ext'), (1, 'if'), (1, 'taguse')])
        r = getattr(self, 'i_' + k)()
        self.depth -= 1
        return r

    def i_show(self):
        return self.show()

    def i_mod(self):
        c = [b for n in NAMES for b in [self.look(n)] if b and b.mods]
        return self.s.choice(self.s.choice(c).mods) if c else self.show()

    def i_block(self):
        self.feats.add('nested')
        self.push()
        r = self.block_items(1 + self.s.n(4))
        self.pop()
        return '{\n%s\n}' % r

    def i_if(self):
        self.push()
        r = self.block_items(1 + self.s.n(2))
        self.pop()
        self.push()
        q = self.block_items(1 + self.s.n(2))
        self.pop()
        return 'if (%s) {\n%s\n} else {\n%s\n}' % (self.any_obs(), r, q)

    def i_for(self):
        s = self.s
        n, m = s.shuffle(NAMES)[:2]
        self.feats.add('for-scope')
        self.push()
        two = s.p(30)
        i0 = self.any_obs(lambda x, b: x not in (n, m)) if two else ''
        b = self.var_bind('int', n)
        b.mods = []
        b.addr = None
        self.env[-1][n] = b
        if two:
            self.env[-1][m] = self.var_bind('int', m)
        self.push()
        r = self.block_items(1 + s.n(3))
        self.pop()
        self.pop()
        k = self.v()
        return 'for (int %s = %d%s; %s < %d; %s++) {\n%s\n}' % (n, k, ', %s = %s' % (m, i0) if two else '', n, k + 2, n, r)

    def i_for1(self):
        s = self.s
        n = s.choice(NAMES)
        self.push()
        b = self.var_bind('int', n)
        self.env[-1][n] = b
        r = self.show()
        self.pop()
        k = self.v()
        self.feats.add('for-scope')
        # what follows starts with an identifier or a type name
        t = self.look(n)
        after = ''
        if t and t.kind == 'var' and t.mods:
            after = s.choice(t.mods)
        elif t and t.kind == 'typedef':
            after = self.typedef_use(n)
        return 'for (int %s = %d; %s < %d; %s++) %s\n%s' % (n, k, n, k + 2, n, r, after)

    def typedef_use(self, n):
        x = self.new('t')
        self.feats.add('typedef-use')
        b = self.look(n)
        return '%s %s; out_i(sizeof(%s));' % (n, x, x)

    def i_label(self):
        n = self.s.choice(NAMES)
        if n in self.labels:
            return self.show()
        self.labels.add(n)
        self.feats.add('label')
        return 'goto %s; out_i(-1);\n%s: %s' % (n, n, self.s.choice([';', self.show()]))

    def i_stmtexpr(self):
        s = self.s
        self.push()
        d = self.i_decl()
        e = self.any_obs()
        self.pop()
        self.feats.add('statement-expression')
        return 'out_i((long) ({ %s %s; }));' % (d, e) if d else self.show()

    def i_switch(self):
        c = [(n, self.look(n)) for n in NAMES if self.look(n) and self.look(n).const is not None]
        if not c:
            return self.show()
        n, b = self.s.choice(c)
        self.push()
        r = self.show()
        q = self.show()
        self.pop()
        self.feats.add('case')
        return 'switch (%d) { case %s: %s break; default: %s }' % (b.const + self.s.n(2), n, r, q)

    def i_proto(self):
        s = self.s
        n, m = s.shuffle(NAMES)[:2]
        self.feats.add('prototype-scope')
        if getattr(self, 'protos', None) and s.p(50):
            return 'int %s(int %s, int %s);' % (s.choice(self.protos), n, m)
        return s.choice(['int %s(int %s, char %s[sizeof(%s)]);' % (self.new('f'), n, m, n),
                         'int (*%s)(char %s, short %s);' % (self.new('f'), n, m),
                         'out_i(sizeof(int (*)(long %s, int %s)));' % (n, m)])

    def i_ext(self):
        """a declaration with linkage in a block"""
        s = self.s
        c = []
        for n in NAMES:
            e = self.ext.get(n)
            b = self.look(n)
            if n in self.asm and not (b and b.kind == 'func' and b is self.env[0].get(n)):
                continue
            if n in self.env[-1] and not (b.linkage and len(self.env) > 1):
                continue
            role = self.roles[n]
            if b and b.linkage == 'i' and b is self.env[0].get(n):
                c.append((n, 'func' if b.kind == 'func' else 'var', getattr(b, 'type', None), 'i'))
            elif e and role in ('ext', 'def', None, 'typedef', 'enum') and len(self.env) > 1:
                c.append((n, e[0], e[1], 'e'))
        if not c:
            return self.show()
        n, k, t, link = s.choice(c)
        self.feats.add('block-extern')
        if k == 'func':
            self.env[-1][n] = B('func', ['%s()' % n, '(*%s)()' % n], [], link)
            return '%sint %s(void);' % (s.choice(['', 'extern ']), n)
        self.env[-1][n] = self.var_bind(t, n, link)
        return 'extern %s;' % self.decl_text(t, n)

    def i_taguse(self):
        s = self.s
        c = [(n, self.look_tag(n)) for n in NAMES if self.look_tag(n) and self.look_tag(n)[1] and self.look_tag(n)[0] != 'enum']
        n = self.free_name()
        if not c or not n:
            return self.show()
        t, (kw, sz) = s.choice(c)
        self.feats.add('tag')
        v = self.v() % 100
        self.env[-1][n] = B('var', ['%s.%s[0]' % (n, t), 'sizeof(%s)' % n, 'sizeof(%s.%s)' % (n, t)], ['%s.%s[0]++;' % (n, t)])
        self.env[-1][n].type = 'struct'
        return '%s %s %s; %s.%s[0] = %d;' % (kw, t, n, n, t, v)

    def i_tag(self):
        c = [n for n in NAMES if n not in self.tags[-1]]
        return self.tag_decl(self.s.choice(c)) if c else self.show()

    def tag_decl(self, n):
        """the member of a struct or union has the name of its tag"""
        s = self.s
        kw = s.weighted([(4, 'struct'), (2, 'union'), (1, 'enum')])
        self.feats.add('tag')
        if kw == 'enum':
            x = self.new('e')
            self.tags[-1][n] = (kw, True)
            return 'enum %s { %s = %d };' % (n, x, self.v())
        sz = self.size()
        body = '%s %s { char %s[%d]; }' % (kw, n, n, sz)
        local = len(self.tags) > 1
        out = ''
        if s.p(30):
            x = self.new('p')
            self.feats.add('tag-forward')
            self.tags[-1][n] = (kw, True)
            out = '%s %s; %s%s %s *%s; %s;' % (kw, n, '' if local else 'static ', kw, n, x, body)
            if local:
                out += ' out_i(sizeof(*%s));' % x
            return out
        if s.p(20) and local:
            self.feats.add('tag-self')
            self.tags[-1][n] = (kw, True)
            x = self.new('p')
            return '%s %s { %s %s *%s; char %s[%d]; } %s; out_i(sizeof(*%s.%s));' % (kw, n, kw, n, x, n, sz, self.keep(x + 'v'), x + 'v', x)
        self.tags[-1][n] = (kw, True)
        return body + ';'

    def keep(self, x):
        return x

    def local_typedef(self, n):
        s = self.s
        old = self.look(n)
        self.feats.add('typedef')
        if s.p(50) and old and old.kind == 'typedef' and len(self.env) > 1:
            self.env[-1][n] = B('typedef', ['sizeof(%s)' % n])
            self.feats.add('typedef-of-itself')
            return 'typedef %s %s[2];' % (n, n)
        other = [m for m in NAMES if m != n and self.look(m) and self.look(m).kind == 'typedef']
        if other and s.p(30):
            self.env[-1][n] = B('typedef', ['sizeof(%s)' % n])
            return 'typedef %s %s[2];' % (s.choice(other), n)
        if s.p(40):
            t = s.choice(['short', 'char', 'long', 'unsigned char'])
            b = B('typedef', ['sizeof(%s)' % n, '(%s) 70001' % n])
            b.scalar = True
            self.env[-1][n] = b
            return 'typedef %s %s;' % (t, n)
        sz = self.size()
        self.env[-1][n] = B('typedef', ['sizeof(%s)' % n])
        return 'typedef char %s[%d];' % (n, sz)

    def local_enum(self, n):
        s = self.s
        old = self.look(n)
        self.feats.add('enum')
        if old and old.const is not None and s.p(50):
            val = old.const + 1
            text = '%s + 1' % n
            self.feats.add('enum-of-itself')
        else:
            val = self.v()
            text = str(val)
        out = 'enum { %s = %s' % (n, text)
        self.env[-1][n] = B('enum', [n, n, 'sizeof(%s)' % n], const=val)
        m = self.free_name() if len(self.env) > 1 else None
        if m and s.p(30):
            self.env[-1][m] = B('enum', [m], const=val + 1)
            out += ', ' + m
        return out + ' };'

    def i_decl(self):
        s = self.s
        n = self.free_name()
        if not n:
            return self.show()
        old = self.look(n)
        if old:
            self.feats.add('shadows-' + old.kind)
        k = s.weighted([(6, 'int'), (3, 'static'), (3, 'typedef'), (3, 'enum'), (3, 'struct'), (2, 'arr'), (2, 'ptr'), (2, 'multi'), (2, 'tdvar'), (1, 'register'), (1, 'fptr'), (1, 'self')])
        e = self.env[-1]
        if k == 'typedef':
            return self.local_typedef(n)
        if k == 'enum':
            return self.local_enum(n)
        if k == 'int' or k == 'register':
            i = self.any_obs(lambda m, b: m != n) if s.p(50) else str(self.v())
            b = e[n] = self.var_bind('int', n)
            if k == 'register':
                b.obs, b.addr = b.obs[:3], None
                return 'register int %s = %s;' % (n, i)
            return '%sint %s = %s;' % ('auto ' if s.p(5) else '', n, i)
        if k == 'self':
            e[n] = self.var_bind('int', n)
            self.feats.add('own-initializer')
            return s.choice(['int %s = sizeof(%s);', 'int %s = sizeof %s + 1;', 'long %s = sizeof(%s);', 'int %s = (&%s != 0);']) % (n, n)
        if k == 'static':
            t = s.choice(['int', 'uchar', 'arr', 'ptr'])
            pre = []
            zero = t != 'ptr' and s.p(20)
            i = None if zero else self.init(t, pre, n)
            e[n] = self.var_bind(t, n)
            e[n].addr = None
            self.feats.add('static-local')
            return ' '.join(pre) + 'static %s%s;' % (self.decl_text(t, n), '' if zero else ' = ' + i)
        if k == 'struct':
            m = s.shuffle(NAMES)[:2]
            e[n] = B('var', ['%s.%s' % (n, m[0]), '%s.%s' % (n, m[1]), 'sizeof(%s)' % n], ['%s.%s++;' % (n, m[1])])
            e[n].type = 'struct'
            self.feats.add('members')
            return '%sstruct { int %s; short %s; } %s = { %d, %d };' % ('static ' if s.p(30) else '', m[0], m[1], n, self.v(), self.v())
        if k == 'arr':
            e[n] = self.var_bind('arr', n)
            return 'int %s[3] = %s;' % (n, '{ %d, %d, %d }' % (self.v(), self.v(), self.v()))
        if k == 'ptr':
            c = [b.addr for m in NAMES if m != n for b in [self.look(m)] if b and b.kind == 'var' and b.addr]
            if not c:
                return self.show()
            a = s.choice(c)
            e[n] = self.var_bind('ptr', n)
            return 'int *%s = %s;' % (n, a)
        if k == 'fptr':
            c = [m for m in NAMES if m != n and self.look(m) and self.look(m).kind == 'func']
            if not c:
                return self.show()
            a = s.choice(c)
            e[n] = self.var_bind('fptr', n)
            return 'int (*%s)(void) = %s;' % (n, a)
        if k == 'multi':
            m = self.free_name()
            m2 = [x for x in NAMES if x not in e and x != n]
            if not m2:
                return self.show()
            m = s.choice(m2)
            e[n] = self.var_bind('int', n)
            v = self.v()
            self.feats.add('declarator-list')
            f = s.n(3)
            if f == 0:
                e[m] = self.var_bind('int', m)
                return 'int %s = %d, %s = %s + 1;' % (n, v, m, n)
            if f == 1:
                e[m] = self.var_bind('ptr', m)
                return 'int %s = %d, *%s = &%s;' % (n, v, m, n)
            e[m] = self.var_bind('arr', m)
            return 'int %s = %d, %s[3] = { %s, 2, %s };' % (n, v, m, n, n)
        c = [m for m in NAMES if self.look(m) and self.look(m).kind == 'typedef' and getattr(self.look(m), 'scalar', False)]
        if not c:
            return self.show()
        td = s.choice(c)
        self.feats.add('typedef-use')
        e[n] = B('var', [n, 'sizeof(%s)' % n], ['%s++;' % n])
        e[n].type = 'td'
        return '%s%s %s = %d;' % (s.choice(['', '', 'const volatile ' if False else '']), td, n, self.v() % 100)


class C21(CDiffCheck):
    id = 'C21'
    batch = 15
    quick_chunks = 240
    thorough_chunks = 6000
    confirm_with = ('gcc2', 'clang', 'san')
    flag_sets = [['exe', 'abc'], ['exe', 'a'], ['pic', 'abc'], ['shared', 'abc'], ['exe', 'bc'], ['shared', 'a'], ['shared', 'bc'], ['pic', 'ab'], ['exe', 'ab'], ['shared', 'c']]
    rule = ('sets of three files in which four names are declared again and again as objects, functions, typedefs, enumeration constants, parameters, members, tags and '
            'labels, with external, internal and no linkage, at file scope (definitions, tentative definitions, extern declarations, prototypes in any order) and in '
            'nested blocks, for statements, prototypes and statement expressions; every declaration has its own value or size, and 10-100 uses print what they denote. '
            'wcc compiles one, two or three of the files, gcc the others, linked as executable, executable of -fPIC code, or executable and shared library. '
            'The global symbols that each object defines are compared as well (kind, size of objects). Non-trivial: some name is shadowed and some name is shared between files')

    def gen(self, src):
        g = G(src)
        g.plan()
        texts = [g.file(t) for t in range(3)]
        order = [src.n(3) for _ in range(2)]
        calls = ' '.join('@run%d();' % i for i in [0, 1, 2] + order)
        protos = 'void @run1(void); void @run2(void);\n'
        nt = any(f.startswith('shadows') for f in g.feats) and bool(g.ext)
        return Unit(protos + texts[0], calls, features=sorted(g.feats), nontrivial=nt, extra={'b': texts[1], 'c': texts[2]})

    def show(self, u):
        return u.text() + ''.join('--- file %s\n%s\n' % (x, u.extra[x].replace('@', 'u_')) for x in 'bc')

    def symbols(self, obj, n, wd):
        r = proc.run(['readelf', '-sW', obj], wd)
        res = [[] for _ in range(n)]
        for l in r.out.decode(errors='replace').split('\n'):
            f = l.split()
            if len(f) == 8 and f[0].endswith(':') and f[4] in ('GLOBAL', 'WEAK') and f[6] != 'UND':
                m = re.match(r'u(\d+)_(.*)$', f[7])
                if m:
                    res[int(m.group(1))].append('%s:%s:%s' % (m.group(2), f[3], f[2] if f[3] == 'OBJECT' else ''))
        return [' '.join(sorted(x)) for x in res]

    def run_tu(self, ctx, units, compiler, wd, flags):
        exe = os.path.join(wd, 't.exe')
        if os.path.exists(exe):
            os.unlink(exe)
        config, mine = flags[:2] if flags else ('exe', '')
        texts = {'a': tu_text(units, self.prelude)}
        for x in 'bc':
            texts[x] = PRELUDE + ''.join('%s\n' % u.extra[x].replace('@', 'u%d_' % i) for i, u in enumerate(units))
        nowrap = [f for f in GCC_FLAGS if f != '-fwrapv']
        tools = {'gcc': ['gcc', '-O0'] + GCC_FLAGS, 'wcc': ['gcc', '-O0'] + GCC_FLAGS, 'gcc2': ['gcc', '-O2'] + nowrap, 'clang': ['clang', '-O1', '-Wno-implicit-int'] + nowrap,
                 'san': ['clang', '-O0', '-g', '-fsanitize=undefined,address', '-fno-sanitize=function,alignment', '-fno-sanitize-recover=all', '-Wno-implicit-int'] + nowrap}
        objs, syms = {}, []
        for x in SIDES:
            src = os.path.join(wd, x + '.c')
            with open(src, 'w') as fp:
                fp.write(texts[x])
            o = os.path.join(wd, x + '.o')
            if os.path.exists(o):
                os.unlink(o)
            pic = ['-fPIC'] if config == 'pic' or config == 'shared' and x != 'a' else []
            if compiler == 'wcc' and x in mine:
                r = proc.run([ctx.wcc, '-c'] + pic + [src, '-o', o], wd)
                if r.timeout:
                    return '!compiler-timeout'
                if r.rc != 0 or not os.path.exists(o):
                    return '!wcc-exit-%d %s' % (r.rc, (r.err + r.out).decode(errors='replace')[-300:])
            else:
                r = proc.run(tools[compiler] + pic + ['-c', src, '-o', o], wd, timeout=120)
                if r.rc != 0:
                    return '!compile-%d %s' % (r.rc, r.err.decode(errors='replace')[-600:])
            objs[x] = o
            if compiler == 'san':       # which pads objects
                plain = o + '.plain'
                proc.run(tools['clang'] + ['-c', src, '-o', plain], wd, timeout=120)
                syms.append(self.symbols(plain, len(units), wd))
            else:
                syms.append(self.symbols(o, len(units), wd))
        san = compiler == 'san'
        link = ['clang', '-fsanitize=undefined,address'] if san else ['gcc']
        rt = ctx.rt_plain if san else ctx.rt
        if config == 'shared' and not san:
            so = os.path.join(wd, 'libt.so')
            linker = [ctx.wcc] if compiler == 'wcc' and 'b' in mine else ['gcc']
            r = proc.run(linker + [objs['b'], objs['c'], '-shared', '-o', so], wd, timeout=120)
            if r.rc != 0:
                return '!link-%d %s' % (r.rc, r.err.decode(errors='replace')[-600:])
            cmd = link + [objs['a'], rt, so, '-o', exe]
        else:
            cmd = link + [objs[x] for x in SIDES] + [rt, '-o', exe]
        if config == 'exe' and not san:
            cmd.append('-no-pie')
        r = proc.run(cmd + self.libs, wd, timeout=120)
        if r.rc != 0:
            return '!link-%d %s' % (r.rc, r.err.decode(errors='replace')[-600:])
        lines = self.run_exe(exe, len(units), wd, san)
        if isinstance(lines, list):
            lines = [l + ' |' + '|'.join(s[i] for s in syms) if '!' not in l else l for i, l in enumerate(lines)]
        return lines


CHECK = C21()
