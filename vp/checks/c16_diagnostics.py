"""C16: programs with one violation of a known kind at a known place are rejected with a diagnostic there, programs without one are accepted."""
import json, os, re
from ..progcheck import ProgCheck, Case
from .. import c16lang as L, proc, pool

TABLE = None
VARS = '\n'.join(l for l in L.DECLS.split('\n') if re.match(r'(char|float|enum v16_e v16|const|int \*|int \(\*|struct v16_s [*v]|struct v16_s \*|int v16_ai)', l) and 'v16_fn(' not in l)


def table():
    global TABLE
    if TABLE is None:
        t = json.load(open(os.path.join(os.path.dirname(L.__file__), 'data', 'c16.json')))
        TABLE = {'a': {}, 'r': {}}
        for op, ks, k2s in L.ops():
            s = t[op]
            for i, c in enumerate(s):
                if c in 'ar':
                    TABLE[c].setdefault(op, []).append((ks[i // len(k2s)], k2s[i % len(k2s)]))
    return TABLE


class Ctx:
    """where a statement is"""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def sub(self, **kw):
        d = dict(self.__dict__)
        d.update(scope=[], kinds={})
        d.update(kw)
        return Ctx(**d)


class G:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.feats = set()
        self.files = {}
        self.stack = []
        self.bad = None
        self.kind = s.weighted([(25, None), (38, 'table'), (18, 'statement'), (9, 'file'), (10, 'directive'), (32, 'context'), (3, 'unterminated')])
        self.target = s.n(14) if self.kind else 0
        self.count = 0
        self.globals = []       # (name, declaration of another type)
        self.functions = []     # (name, number of parameters)
        self.dead = []          # uses of names that are out of scope
        self.cpp_only = True

    def id(self):
        self.n += 1
        return self.n

    # output
    def open(self, name):
        self.files[name] = []
        self.stack.append({'name': name, 'line': 1, 'off': 0, 'pname': None})

    def put(self, text):
        f = self.stack[-1]
        self.files[f['name']].append(text + '\n')
        a = f['line']
        f['line'] += text.count('\n') + 1
        return a + f['off'], f['line'] - 1 + f['off']

    def filler(self):
        s, f = self.s, self.stack[-1]
        k = s.n(16)
        if k == 1:
            self.put('\n' * s.choice([0, 1, 5, 9, 30]))
        elif k == 2:
            self.put(s.choice(['/* one */', '/* a\n b\n*/', '// x', '// x \\\n y', "/* ' \" \n#if */"]))
        elif k == 3:
            self.put('#if 0\n%s\n#endif' % s.choice(['broken (', '#error no\n#unknown', "don't", '#if 1\n#else\n#endif']))
        elif k == 4:
            self.put('#define v16_y%d(a) a \\\n + 1' % self.id())
        elif k == 5 and s.p(40):
            n = s.choice([1, 7, 500, 32000])
            if s.p(50):
                self.put('#line %d' % n)
            else:
                f['pname'] = s.choice(['other.c', 'dir/x.h', 'with space.c'])
                self.put('#line %d "%s"' % (n, f['pname']))
            f['off'] = n - f['line']
            self.feats.add('#line')

    # violations
    def wrapped(self, t):
        """spread over lines"""
        if any(c in t for c in '"\'\\#'):
            return t
        self.feats.add('multi-line')
        return ''.join('\n' if c == ' ' and self.s.n(4) == 0 else c for c in t)

    def violate(self, t, feature, loose=False, directive=False):
        s, f = self.s, self.stack[-1]
        self.feats.add('bad-' + feature)
        if not directive:
            self.cpp_only = False
            t = self.unique(t)
            k = s.n(8) if not loose else 0
            if k in (1, 2):
                t = self.wrapped(t)
            elif k == 3 and not any(c in t for c in '#\\"\'') and not loose:
                self.feats.add('from-macro')
                m = 'v16_bad%d' % self.id()
                self.put('#define %s %s' % (m, t.replace(' ', ' \\\n', 1) if s.n(2) else t))
                self.filler()
                t = m
            elif k == 4:
                t = s.choice(['/* x */ ', '\t', '  ', '/* \n */ ']) + t
            elif k == 5:
                t = t + s.choice([' /* x */', ' // y', '    '])
        else:
            t = t.replace('\\n', '\n')
            if 'va_start' in t:
                self.cpp_only = False       # not for the preprocessor to diagnose
        lo, hi = self.put(t)
        self.bad = {'file': f['pname'] or f['name'], 'header': f['pname'] is None, 'lo': lo, 'hi': 1 << 30 if loose else hi, 'text': t}
        if loose:
            self.bad['lo'] = 0

    def unique(self, t):
        i = self.id()
        t = re.sub(r'\bv16_l(\d|ab)\b', r'v16_l%d_\1' % i, t)
        t = re.sub(r'\bv16_([gm])(\w?)\b', r'v16_\g<1>%d_\2' % i, t)
        return re.sub(r'\bv16_rN\b', 'v16_r%d' % i, t)

    def entry(self, c, avoid=()):
        s = self.s
        t = table()[c]
        while True:
            op = s.choice(list(t))
            if op in avoid:
                continue
            k, k2 = s.choice(t[op])
            return op, L.text(op, k, k2)

    def bad_statement(self, ctx):
        """inject a violation before the next statement"""
        s = self.s
        k = self.kind
        if k == 'context':
            o = self.context(ctx)
            if not o:
                return False
            name, t = s.choice(o)
            self.put(';')
            self.violate(t, 'context-' + name)
        elif k == 'table':
            op, t = self.entry('r', ('return @;', 'return') + (('static init',) if ctx.locals else ()))
            w = s.n(8)
            if op not in L.STMT + list(L.TYPED) and 'v16_pinc' not in t:
                e = t[:-1]
                t = [t, t, t, '(void) (%s);' % e, 'v16_i = ((%s), 1);' % e, 'if (v16_i && ((%s), 1)) v16_i = 1;' % e, 'for ((%s); ; ) break;' % e, '{ int v16_l1 = (%s, 2); }' % e][w]
            self.violate(t, 'operands')
        elif k == 'statement':
            self.put(';')       # no else for a preceding if
            t = s.choice(L.BAD_STMT)
            if t == 'return return;' and ctx.void:
                return False
            self.violate(t, 'statement')
        elif k == 'directive':
            self.violate(s.choice(L.BAD_CPP), 'directive', directive=True)
        else:
            return False
        return True

    def bad_file(self):
        s = self.s
        k = self.kind
        if k == 'file':
            self.violate(s.choice(L.BAD_FILE), 'file')
        elif k == 'directive':
            self.violate(s.choice(L.BAD_CPP), 'directive', directive=True)
        elif k == 'table' and s.n(4) == 0:
            t = table()['r']['return']
            a, b = s.choice(t)
            self.violate(L.text('return', a, b), 'operands')
        elif k == 'unterminated':
            self.violate(s.choice(['#if 1', '#ifdef v16_x', '#if 0', '#ifndef v16_x', '#if 1\n#else', 'int v16_g1(void) {', 'int v16_g1(void) { if (1) {', 'struct v16_g {', 'int v16_g1 = (1', 'int v16_g1[] = {', 'int v16_g1', 'typedef int v16_g1']), 'unterminated', loose=True)
            self.cpp_only = False
        elif k == 'context':
            o = [('redeclared', d) for n, d in self.globals]
            o += [('redeclared', s.choice(['char *%s(double, char);', 'int %s;', 'typedef int %s;', 'int %s(int, int, int, int, int);', 'double %s(void);']) % n) for n, _ in self.functions]
            o += [('redefined-function', 'int %s(%s) { return 1; }' % (n, ', '.join('int p%d' % i for i in range(c)) or 'void')) for n, c in self.functions]
            if not o:
                return False
            name, t = s.choice(o)
            self.violate(t, 'context-' + name)
        else:
            return False
        return True

    def slot(self, ctx=None):
        self.filler()
        self.count += 1
        if self.bad is None and self.kind and self.count > self.target:
            if ctx is not None:
                self.bad_statement(ctx)
            else:
                self.bad_file()

    def context(self, ctx):
        s = self.s
        o = []
        if not ctx.loop:
            o += [('continue', 'continue;'), ('continue', 'if (v16_i) continue;')]
            if ctx.switch is None:
                o += [('break', 'break;'), ('break', 'if (v16_i) ; else { break; }')]
        if ctx.switch is None:
            o += [('case', 'case %d: ;' % s.n(3)), ('case', 'default: ;'), ('case', '{ case 5: v16_i = 1; }')]
        else:
            for c in ctx.switch:
                o.append(('duplicate-case', 'default: ;' if c is None else s.choice(['case %d: ;', 'case 1 + %d - 1: ;', '{ case %d: ; }', 'if (v16_i) case %d: v16_i = 1;']) % c))
        for l in ctx.labels:
            o.append(('duplicate-label', '%s: ;' % l))
        for l in self.old_labels:
            o.append(('label-of-other-function', 'goto %s;' % l))
        for d in self.dead:
            o.append(('out-of-scope', d))
        for n in ctx.scope:
            o.append(('redeclared-in-scope', s.choice(['char %s;', 'int %s;', 'static long %s;', 'typedef char *%s;', 'enum { %s };', 'int %s(double);', 'int v16_l1, *%s;']) % n))
        for n, k in ctx.kinds.items():
            if k == 'const':
                o.append(('read-only', s.choice(['%s = 1;', '%s++;', '--%s;', '%s += 2;', '*&%s = 2;', 'if ((%s = 3)) ;', '%s <<= 1;']) % n))
            elif k == 'const-member':
                o.append(('read-only', s.choice(['%s = %s_;', 'if (v16_i) %s = %s_;', '*&%s = %s_;', '(%s_) = %s;', '*(1 ? &%s : &%s_) = %s;', 'for (; v16_i; %s = %s_) ;', '%s = %s;']).replace('%s', n)))
            elif k == 'const-struct':
                o.append(('read-only', s.choice(['%s.a = 1;', '%s.b++;', '%s = v16_vs;', '(&%s)->a = 2;']) % n))
            elif k == 'pconst':
                o.append(('read-only', s.choice(['*%s = 1;', '%s[1] = 2;', '(*%s)++;', '*(%s + 1) -= 1;']) % n))
            elif k == 'struct':
                o.append(('no-member', s.choice(['%s.zz = 1;', 'v16_i = %s.a.b;', '%s->m = 1;', 'v16_i = (&%s)->zz;', 'v16_i = %s + 1;', '%s = v16_vs;', 'v16_vs = %s;', 'if (%s) ;', '%s();', '%s[0];']) % n))
            elif k == 'int':
                o.append(('bad-operand', s.choice(['%s();', '%s.a;', '*%s;', '%s[%s];', '%s = v16_vs;', '%s->a;', 'v16_vs = %s;', '%s = v16_vf();', '&(%s + 1);', '%s + 1 = 2;', '%s(1)(2);', '%s++ ++;', '%s ? v16_vs : 1;']).replace('%s', n)))
        for n, c in self.functions:
            o.append(('arguments', s.choice(['%s(%s);' % (n, ', '.join(['1'] * (c + 1))), 'v16_i = %s(%s);' % (n, ', '.join(['1'] * (c + 2)))])))
            if c:
                o.append(('arguments', '%s(%s);' % (n, ', '.join(['v16_vs'] * c))))
            o.append(('function', s.choice(['%s = 0;', '%s.a;', '%s += 1;', '%s->a = 2;', '++%s;', '%s * 2;', '~%s;']) % n))
        o.append(('declared-later', 'v16_i = v16_later + 1;'))
        o.append(('undeclared', s.choice(['v16_i = v16_no%d;', 'v16_no%d = v16_i;', 'v16_no%d *v16_l1;', 'struct v16_no%d v16_l1;', 'sizeof(struct v16_no%d);', 'v16_no%d->a = 1;', 'v16_ps->v16_no%d = 1;', 'goto v16_no%d;', 'v16_vs.v16_no%d++;', 'v16_fn(v16_no%d);', 'for (; v16_no%d; ) ;', '(v16_no%d) 1;', 'return v16_no%d;' if not ctx.void else 'if (v16_no%d) return;', 'switch (v16_no%d) { }', 'v16_ai[v16_no%d] = 2;', '{ int v16_l1 = v16_no%d; }', 'v16_i ? v16_no%d : 1;']) % self.id()))
        if ctx.void:
            o.append(('return-value', s.choice(['return 1;', 'return v16_i;', '{ return v16_pi; }'])))
        if s.n(3):
            r = s.choice(sorted({a for a, _ in o}))
            o = [x for x in o if x[0] == r]
        return o

    # valid statements
    def ok(self, ctx):
        s = self.s
        if s.n(4) == 0:
            t = self.unique(s.choice(L.OK_STMT))
            self.feats.add('ok-statement')
            if ctx.locals and 'extern' in t:
                t = ';'
            self.put(s.choice(['{ %s }', '{\n%s\n}']) % t)
        else:
            op, t = self.entry('a', ('return',) + (('return @;',) if ctx.void else ()) + (('static init',) if ctx.locals else ()))
            self.feats.add('ok-operands')
            self.put(self.wrapped(t) if s.n(6) == 0 else t)

    def block(self, ctx, depth, end='}'):
        """after the {; declarations, statements and the }"""
        s = self.s
        for _ in range(s.n(3)):
            self.declare(ctx)
        if s.n(8) == 0 and not ctx.locals:
            self.put(VARS)
            ctx.locals = True
            self.feats.add('local-variables')
        self.slot(ctx)
        for _ in range(1 + s.n(3)):
            self.statement(ctx, depth)
            self.slot(ctx)
        for n in ctx.scope:
            k = ctx.kinds[n]
            self.dead.append({'typedef': '{ %s v16_l1; }', 'tag': 'sizeof(struct %s);', 'enum': 'v16_i = %s;', 'struct': '%s.m = 1;'}.get(k, 'v16_i = !%s;') % n)
        self.put(end)

    def members(self, depth, const):
        """members of a struct; if const, exactly one of them or of their members is not modifiable"""
        s = self.s
        n = 1 + s.n(4)
        at = s.n(n) if const else -1
        r = []
        for i in range(n):
            m = 'm%d' % self.id()
            k = s.n(3) if depth > 0 else 2
            if k < 2:
                body = '%s { %s }' % (s.choice(['struct', 'union', 'struct']), self.members(depth - 1, i == at))
                r.append('%s %s;' % (body, s.choice([m, m, m + '[2]', m + '[2][3]', ''])))
            elif i == at:
                r.append(s.choice(['const int %s;', 'char *const %s;', 'const struct v16_s %s;', 'const volatile long %s;', 'const int %s[2];', 'const char %s[2][2];', 'int *const %s[3];', 'const unsigned %s:3;', 'enum v16_e const %s;', 'double (*const %s)(void);']) % m)
            else:
                r.append(s.choice(['int %s;', 'const char *%s;', 'struct v16_s %s;', 'volatile long %s;', 'int %s[2];', 'const int *%s[2][2];', 'unsigned %s:5;', 'const int (*%s)[3];', 'const int (*%s)(const int);', 'float %s;']) % m)
        return ' '.join(r)

    def declare(self, ctx):
        s = self.s
        n = 'v16_d%d' % self.id()
        k = s.choice(['int', 'int', 'const', 'typedef', 'tag', 'enum', 'struct', 'const-struct', 'pconst', 'const-member', 'no-const-member'])
        if k.endswith('const-member'):
            self.put('struct { %s } %s, %s_;' % (self.members(3, k == 'const-member'), n, n))
            self.feats.add(k)
            ctx.kinds[n] = k
            ctx.scope.append(n)
            if k == 'no-const-member':
                self.put('if (v16_i) %s = %s_;' % (n, n))
            return
        t = {'int': s.choice(['int %s;', 'int %s = 5;', 'static int %s;', 'char %s = 1, v16_e%%d;', 'register int %s;', 'unsigned long %s;']).replace('%%d', str(self.id())), 'const': s.choice(['const int %s = 1;', 'int const %s = 2;', 'static const char %s = 3;', 'const volatile long %s = 1;', 'int *const %s = 0;']),
             'typedef': 'typedef int %s;', 'tag': 'struct %s { int m; };', 'enum': 'enum { %s };', 'struct': 'struct { int m; int a; } %s;', 'const-struct': 'const struct v16_s %s = { 1 };', 'pconst': s.choice(['const int *%s = 0;', 'char const *%s;', 'const int %s[3] = { 1 };'])}[k]
        self.put(t % n)
        if k != 'tag':
            ctx.scope.append(n)
        else:
            self.dead_tags.append(n)
        if k == 'tag':
            return
        if k == 'int' and 'register' in t:
            k = 'register'
        ctx.kinds[n] = 'int*' if '*const' in t else k
        if '*const' in t:
            ctx.kinds[n] = 'constp'

    def statement(self, ctx, depth):
        s = self.s
        k = s.n(14) if depth > 0 else s.n(5)
        if k < 4:
            self.ok(ctx)
        elif k == 4:
            n = 'v16_lb%d' % self.id()
            self.put('%s: ;' % n)
            ctx.labels.append(n)
        elif k == 5:
            self.put('{')
            self.block(ctx.sub(), depth - 1)
        elif k in (6, 7):
            self.put(s.choice(['if (v16_i) {', 'if (v16_i)\n{']))
            self.block(ctx.sub(), depth - 1, '} else {' if k == 7 else '}')
            if k == 7:
                self.block(ctx.sub(), depth - 1)
        elif k == 8:
            self.put('while (v16_i--) {')
            self.block(ctx.sub(loop=True), depth - 1)
        elif k == 9:
            self.put('do {')
            self.block(ctx.sub(loop=True), depth - 1, '} while (v16_i);')
        elif k in (10, 11):
            if k == 10:
                self.put('for (v16_i = 0; v16_i < 3; v16_i++) {')
                self.block(ctx.sub(loop=True), depth - 1)
            else:
                n = 'v16_d%d' % self.id()
                self.put('for (int %s = 0; %s < 3; %s++) {' % (n, n, n))
                self.block(ctx.sub(loop=True), depth - 1)
                self.dead.append('v16_i = %s;' % n)
        else:
            self.feats.add('switch')
            self.put('switch (v16_i) {')
            cases = []
            c = ctx.sub(switch=cases)
            vals = s.shuffle([0, 1, 2, 5, 100, -1, None])[:1 + s.n(4)]
            for v in vals:
                self.put('default:' if v is None else 'case %d:' % v)
                cases.append(v)
                self.statement(c, 0)
                if s.n(2):
                    self.put('{')
                    self.block(c.sub(), depth - 1)
                self.slot(c)
                if s.n(2):
                    self.put('break;')
            self.put(';')
            self.put('}')

    def function(self, depth):
        s = self.s
        n = 'v16_fn%d' % self.id()
        c = s.n(4)
        void = s.n(4) == 0
        ps = ['v16_p%d' % self.id() for _ in range(c)]
        kinds = {p: 'int' for p in ps}
        decl = ['int ' + p for p in ps]
        for i in range(c):
            if s.n(3) == 0:
                kinds[ps[i]] = 'const'
                decl[i] = 'const int ' + ps[i]
        if c and s.n(5) == 0:
            self.put('%s %s(%s)' % ('void' if void else 'int', n, ', '.join(ps)))
            self.put('%s;' % '; '.join(decl))
            knr = True
        else:
            self.put('%s %s(%s)' % ('void' if void else 'int', n, ', '.join(decl) or 'void'))
            knr = False
        self.put('{')
        labels = []
        ctx = Ctx(loop=False, switch=None, labels=labels, scope=list(ps), kinds=dict(kinds), locals=False, void=void)
        self.block(ctx, depth)
        self.old_labels += labels
        if not void:
            (self.functions if not knr else self.knr).append((n, c))

    def element(self, depth):
        s = self.s
        k = s.n(10)
        if k < 3:
            self.function(s.n(4))
        elif k < 6:
            self.put(re.sub(r"\\n(?!')", '\n', self.unique(s.choice(L.OK_FILE))))
            self.feats.add('ok-file')
        elif k == 6:
            a, b = s.choice(table()['a']['return'])
            self.put(self.unique(L.text('return', a, b)))
        elif k == 7:
            n = 'v16_w%d' % self.id()
            d, o = s.choice([('int %s;', 'char %s;'), ('extern int %s[3];', 'int %s[4];'), ('static int %s = 1;', 'static int *%s;'), ('int %s(void);', 'char %s(void);'), ('int %s(int, char *);', 'int %s(int, int);'), ('struct v16_s %s;', 'struct v16_t %s;'), ('int %s = 3;', 'int %s = 4;'),
                             ('typedef int %s;', 'int %s;'), ('enum { %s };', 'int %s;'), ('int %s(int);', 'int %s;'), ('struct %s { int a; };', 'struct %s { int a; };'), ('struct %s { int a; };', 'union %s { int a; };'), ('int *%s;', 'const char **%s;'), ('int %s;', 'int %s(void);'), ('int %s(int a) { return a; }', 'int %s(int b) { return b; }'), ('double %s(void);', 'float %s(void);')])
            self.put(d % n)
            self.globals.append((n, o % n))
        elif k == 8 and depth > 0:
            self.feats.add('header')
            name = s.choice(['h%d.h', 'sub/h%d.h', 'inc/h%d.h']) % self.id()
            inc = {'h': '"%s"' % name, 's': '"%s"' % name, 'i': '<%s>' % name[4:]}[name[0]]
            cur = self.stack[-1]['name']
            if '/' in cur:
                name, inc = cur.rsplit('/', 1)[0] + '/n%d.h' % self.id(), None
                inc = '"%s"' % name.rsplit('/', 1)[1]
            self.put('#include ' + inc)
            self.open(name)
            for _ in range(1 + s.n(3)):
                self.element(depth - 1)
                self.slot()
            self.stack.pop()
        else:
            self.filler()

    def gen(self):
        s = self.s
        self.old_labels, self.knr, self.dead_tags = [], [], []
        main = s.choice(['a.c', 'a.c', './a.c', 'src/a.c'])
        self.open(os.path.normpath(main))
        self.stack[-1]['arg'] = main
        decls = L.DECLS + L.ARGS
        if s.n(6) == 0:
            t, f = pool.program(s, max_units=1, all_kinds=False)
            self.put(t)
            self.feats |= f
        if s.n(4) == 0:
            self.files['inc/decls.h'] = [decls]
            self.put('#include <decls.h>')
        else:
            self.put(decls)
        for _ in range(2 + s.n(5)):
            self.element(2)
            self.slot()
        if self.kind and self.bad is None:
            self.count = self.target
            self.slot()
            if self.bad is None:
                self.function(1)
            if self.bad is None:
                self.put('int v16_last(void) {')
                self.kind = self.kind if self.kind in ('table', 'statement', 'directive') else 'table'
                self.bad_statement(Ctx(loop=False, switch=None, labels=[], scope=[], kinds={}, locals=False, void=False))
                self.put('return 1; }')
        self.put('int v16_later;')
        files = {n: ''.join(t) for n, t in self.files.items()}
        m = s.n(8)
        out = s.choice([None, 'out', 'sub2/out.x'])
        args = []
        if m < 4 or self.kind is None and m < 6:
            mode = '-S'
        elif m < 7:
            mode = '-c'
        else:
            mode = ''
        if self.kind and self.cpp_only and s.n(3) == 0:
            mode = '-E'
            out = 'out'
        if self.kind is None and mode == '':
            mode = '-c'
        if mode == '' and self.kind is not None:
            self.feats.add('link')
        args = ['-Iinc'] + ([mode] if mode else []) + (['-o', out] if out else []) + s.choice([[], [], [], ['-fPIC'], ['-g'], ['-O2']]) + [main]
        if out and '/' in out:
            files[os.path.dirname(out) + '/keep'] = ''
        want = out or {'-S': os.path.normpath(main)[:-2] + '.s', '-c': os.path.normpath(main)[:-2] + '.o', '': 'a.out'}[mode]
        if self.bad:
            self.bad['main'] = main
        else:
            self.feats.add('valid')
        return Case(files, {'args': args, 'want': want, 'bad': self.bad}, self.feats, len(files[os.path.normpath(main)]) > len(decls) or True)


class C16(ProgCheck):
    id = 'C16'
    nontrivial_rule = 'a program with statements or declarations of which a table, made with gcc and clang, says whether they are valid; with one violation at a known place, or with none'
    quick_chunks = 480
    thorough_chunks = 20000
    batch = 20

    def gen(self, s):
        return G(s).gen()

    def judge(self, ctx, case, wd, counters=None):
        m = case.meta
        r = proc.run([ctx.wcc] + m['args'], wd, timeout=60)
        text = r.err.decode('utf-8', 'replace') + r.out.decode('utf-8', 'replace')
        left = os.path.exists(os.path.join(wd, m['want']))
        if r.timeout or r.rc not in (0, 1):
            return 'wcc ended with %s: %s' % (r.rc, text[-300:])
        b = m['bad']
        errs = re.findall(r'(?m)^(.*):(\d+): (?:internal )?error: (.*)', text)
        if b is None:
            if r.rc or errs:
                return 'a valid program was rejected, exit status %d: %s' % (r.rc, text[:600])
            if not left:
                return 'no output file'
            return None
        if r.rc == 0:
            return 'an invalid program was accepted; expected an error in %s, lines %d to %d: %s' % (b['file'], b['lo'], b['hi'], b['text'])
        if left:
            return 'an output file was left by a failing compilation'
        if not errs:
            return 'no diagnostic with a position; expected %s, lines %d to %d: %s: %s' % (b['file'], b['lo'], b['hi'], b['text'], text[:300])
        f, l, msg = errs[0]
        if not b['lo'] <= int(l) <= b['hi']:
            return 'the diagnostic is for line %s, expected %s, lines %d to %d: %s: %s' % (l, b['file'], b['lo'], b['hi'], b['text'], msg)
        if (os.path.normpath(f) if b['header'] else f) != b['file'] and b['lo']:
            return 'the diagnostic is for file %s, expected %s: %s' % (f, b['file'], msg)


CHECK = C16()
