"""C26: -g changes no code, and the line table has the lines of the statements."""
import os, re
from ..progcheck import ProgCheck, Case, wcc, read
from .. import ctok, pool, proc


def code(asm):
    """instructions and data of an assembly text, without what -g adds"""
    out = []
    skip = False
    for l in asm.decode('utf-8', 'surrogateescape').split('\n'):
        t = l.split()
        if not t:
            continue
        if t[0] == '.section' and t[1].startswith('.debug'):
            skip = True
        elif t[0] in ('.section', '.text', '.data', '.bss', '.comm', '.local'):
            skip = False
        if skip or t[0] == '.loc' or t[0] == '.file' and len(t) > 2:
            continue
        out.append(' '.join(t))
    return out


class G:
    """functions whose statements hold calls of functions named after the place they are written at"""
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.files = {}
        self.where = {}     # function -> (file, line)
        self.feats = set()
        self.fn = 0
        self.nh = 0
        self.ng = 0

    def call(self, w):
        self.n += 1
        n = 'call_%d' % self.n
        self.where[n] = [w.pf, w.phys + w.off]
        self.calls.append(n)
        return n + '()'

    def stmt(self, w, d, loop):
        s = self.s
        k = s.n(22)
        if k < 5 or d <= 0:
            w.line('%s%s;' % (s.choice(['', '  ', 'x = ', 'x += ', 'x = 1 + ']), self.call(w)))
        elif k == 5:
            w.line('x = %s + ' % self.call(w))
            w.line('    %s * ' % self.call(w))
            w.line('    %s;' % self.call(w))
            self.feats.add('expression-on-several-lines')
        elif k in (6, 7):
            self.feats.add('if')
            w.line('if (%s) {' % self.call(w))
            self.block(w, d - 1, loop)
            if s.p(50):
                w.line('}')
                w.line(s.choice(['else {', '\nelse\n{']))
                self.block(w, d - 1, loop)
            w.line('}')
        elif k == 8:
            self.feats.add('loop')
            v = 'i%d' % d
            w.line('for (%s = 0; %s < 2; %s++) {' % (v, v, v))
            self.block(w, d - 1, True)
            w.line('}')
        elif k == 9:
            self.feats.add('loop')
            v = 'i%d' % d
            w.line('%s = 0;' % v)
            w.line('while (%s++ < 2) {' % v)
            self.block(w, d - 1, True)
            w.line('}')
        elif k == 10:
            self.feats.add('loop')
            v = 'i%d' % d
            w.line('%s = 0;' % v)
            w.line('do {')
            self.block(w, d - 1, True)
            w.line('} while (++%s < 2);' % v)
        elif k == 11:
            self.feats.add('switch')
            w.line('switch (%s & 3) {' % self.call(w))
            for c in range(1 + s.n(4)):
                w.line('case %d:' % c)
                self.block(w, d - 1, False)
                w.line(';')
                if s.p(60):
                    w.line('break;')
            if s.p(50):
                w.line('default:')
                self.block(w, d - 1, False)
            w.line(';')
            w.line('}')
        elif k == 12:
            self.feats.add('blank-lines')
            w.line('\n' * s.choice([0, 1, 3, 7, 8, 9, 20, 300]))
        elif k == 13:
            w.line(s.choice(['/* comment */', '/* a\n b\n*/', '// x', '/*\n\n\n\n\n\n\n\n\n\n\n*/']))
        elif k == 14:
            self.feats.add('#line')
            n = s.choice([1, 50, 5000, 100000])
            if s.p(50):
                f = s.choice(['other.c', 'dir/gram.y', 'x y.c'])
                w.line('#line %d "%s"' % (n, f))
                w.pf = f
            else:
                w.line('#line %d' % n)
            w.off = n - w.phys
        elif k == 15:
            self.feats.add('macro')
            w.line('x = ID(%s);' % self.call(w))
        elif k == 16:
            self.feats.add('multi-line-macro')
            # not on one line: anything may count
            w.line('x = ID(\n2\n) + 1;')
        elif k == 17:
            self.feats.add('skipped')
            w.line('#if 0\n x\n y\n#endif')
        elif k == 18 and loop:
            w.line(s.choice(['if (x > 1000) break;', 'if (x > 1000) continue;']))
        elif k == 19:
            w.line('{')
            self.block(w, d - 1, loop)
            w.line('}')
        elif k == 20:
            self.feats.add('condition')
            w.line('x = x > 3 ? %s : %s;' % (self.call(w), self.call(w)))
        elif k == 21:
            self.feats.add('condition')
            w.line('x = x > 3 && %s || %s;' % (self.call(w), self.call(w)))
        else:
            w.line('x = x * 3 + y;')

    def block(self, w, d, loop):
        for _ in range(1 + self.s.n(3)):
            self.stmt(w, d, loop)

    def function(self, w):
        self.fn += 1
        s = self.s
        w.line(s.choice(['int fn_%d(int y) {', 'int fn_%d(int y)\n{', 'int\nfn_%d(int y) {', 'static int st_%d(int y) {']) % self.fn if False else 'int fn_%d(int y) {' % self.fn)
        w.line('int x = 0, i0, i1, i2, i3;')
        w.line('(void) i0; (void) i1; (void) i2; (void) i3;')
        for _ in range(2 + s.n(6)):
            self.stmt(w, 3, False)
        if s.p(50):
            w.line('return %s;' % self.call(w))
        else:
            w.line('return x;')
        w.line('}')

    def file(self, name, depth):
        from .c13_positions import W
        s = self.s
        w = W(self, name)
        if name == 'a.c':
            w.line('#define ID(x) x')
            self.decls_at = len(w.out)
            w.line('#include "decls.h"')
        for _ in range(1 + s.n(3)):
            k = s.n(4)
            if k == 0 and depth:
                self.nh += 1
                self.feats.add('include')
                n = 'h%d.h' % self.nh
                self.file(n, depth - 1)
                w.line('#include "%s"' % n)
            else:
                self.function(w)
            if s.p(30):
                self.ng += 1
                w.line('int global_%d = 1;' % self.ng + '\n' * s.n(4))
        if name == 'a.c' and not self.fn:
            self.function(w)
        self.files[name] = ''.join(w.out)

    def gen(self):
        self.calls = []
        self.file('a.c', 2)
        self.files['decls.h'] = ''.join('int %s(void);\n' % c for c in self.calls)
        self.files['b.c'] = ('int printf(const char *, ...);\nstatic int n;\n' + ''.join('int %s(void) { printf("%s\\n"); return n++ %% 7; }\n' % (c, c) for c in self.calls)
                             + 'int fn_1(int);' + ''.join('int fn_%d(int);\n' % (i + 1) for i in range(self.fn))
                             + 'int main(void) {' + ' '.join('printf("%%d\\n", fn_%d(%d));' % (i + 1, i) for i in range(self.fn)) + ' return 0; }\n')
        return self.files


class C26(ProgCheck):
    id = 'C26'
    batch = 8
    quick_chunks = 180
    thorough_chunks = 15000
    rule = ('programs of all generators and programs made of calls in all kinds of statements, headers, macros, #line directives and skipped groups: the instructions with and without -g are the same, the '
            'line table of the linked program has each call at the file and line it is written on, readelf reads the debug information without complaint, and the programs print the same.  '
            'Non-trivial: three features or more')
    assumptions = ['addr2line and readelf read line tables correctly']

    def gen(self, s):
        opts = list(s.choice([[], [], ['-fPIC'], ['-fno-optimize-arithmetic'], ['-fno-live-range-coalescing'], ['-fno-vreg-renumbering']]))
        d = s.choice(["it's", 'say "hi"', 'back\\slash', 'a b', '100%s', 'tab\\there', '\\1', "'", '""', '/'.join(['d' * 190] * (2 + s.n(14)))]) if s.n(100) >= 90 else None
        if s.n(4) == 0:
            text, feats = pool.program(s, 3)
            return Case({'a.c': text}, {'opts': opts, 'calls': None, 'dir': d}, sorted(feats), len(feats) > 1)
        g = G(s)
        g.gen()
        return Case(g.files, {'opts': opts, 'calls': g.where, 'dir': d}, sorted(g.feats), len(g.feats) >= 3)

    def judge(self, ctx, case, wd, counters=None):
        m = case.meta
        if m.get('dir'):
            wd = os.path.join(wd, m['dir'])
            os.makedirs(wd)
            for n, t in case.files.items():
                with open(os.path.join(wd, n), 'w') as f:
                    f.write(t)
        a = wcc(ctx.wcc, ['-S'] + m['opts'] + ['a.c', '-o', 'n.s'], wd)
        b = wcc(ctx.wcc, ['-S', '-g'] + m['opts'] + ['a.c', '-o', 'g.s'], wd)
        if a.rc or b.rc:
            return 'rejected: %s %s' % (a.err[-300:], b.err[-300:])
        x, y = code(read(os.path.join(wd, 'n.s'))), code(read(os.path.join(wd, 'g.s')))
        if x != y:
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return 'the code differs with -g: without %r, with %r' % (x[i:i + 4], y[i:i + 4])
        o = proc.run(['as', '--64', 'g.s', '-o', 'g.o'], wd)
        # wcc's comparisons of an int in memory with zero have no size suffix: the default is right
        if o.rc or re.sub(rb'(?m)^.*(Assembler messages:|no instruction mnemonic suffix given.*)\n', b'', o.err):
            return 'the assembler says %s' % o.err.decode('utf-8', 'replace')[-300:]
        r = proc.run(['readelf', '--debug-dump=info,abbrev,line,str', 'g.o'], wd)
        if r.rc or b'arning' in r.err or b'rror' in r.err:
            return 'readelf: %s' % r.err.decode('utf-8', 'replace')[-300:]
        info = r.out.decode('utf-8', 'replace')
        if not re.search(r'DW_AT_name\s*:.*\ba\.c\b', info) or not re.search(r'DW_AT_comp_dir\s*:.*%s' % re.escape(wd), info):
            return 'no name or directory of the compilation unit in the debug information'
        if m['calls'] is None:
            return None
        for e, s in (('n', 'n.s'), ('g', 'g.o')):
            l = proc.run(['gcc', '-w', '-o', e, s, 'b.c'], wd)
            if l.rc:
                return 'does not link: %s' % l.err[-300:]
        p, q = proc.run(['./n'], wd), proc.run(['./g'], wd)
        if (p.rc, p.out) != (q.rc, q.out):
            return 'the program behaves otherwise with -g: %r %r' % (p.out[-200:], q.out[-200:])
        d = proc.run(['objdump', '-d', '--no-show-raw-insn', 'g'], wd).out.decode('utf-8', 'replace')
        fn, sites = None, []
        for l in d.split('\n'):
            t = re.match(r'^[0-9a-f]+ <(\w+)>:', l)
            if t:
                fn = t.group(1)
                continue
            t = re.search(r'^\s*([0-9a-f]+):.*\bcall\s+[0-9a-f]+ <(call_\d+)>', l)
            if t and fn and fn.startswith('fn_'):
                sites.append((t.group(1), t.group(2)))
        # not objdump -l: it prints nothing when only the file changes
        lines = proc.run(['addr2line', '-e', 'g'] + [x for x, _c in sites], wd).out.decode('utf-8', 'replace').split('\n')
        seen = {}
        for (_x, c), l in zip(sites, lines):
            f, _, line = l.split(' (')[0].rpartition(':')
            seen.setdefault(c, set()).add((f, int(line)) if line.isdigit() else None)
        n = 0
        for c, (f, line) in m['calls'].items():
            for w in seen.get(c, ()):
                n += 1
                if w is None:
                    return 'no line for the call of %s' % c
                if w[1] != line or w[0] not in (f, os.path.join(wd, f)) and not w[0].endswith('/' + f):
                    return '%s is written at %s:%d, the line table has %s:%d' % (c, f, line, w[0], w[1])
        counters['calls'] = counters.get('calls', 0) + n
        if n < len(m['calls']) // 2:
            return 'calls of only %d of %d functions found' % (n, len(m['calls']))


CHECK = C26()
