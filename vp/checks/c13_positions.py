"""C13: source positions known by construction."""
import re
from ..progcheck import ProgCheck, Case, wcc
from .. import ctok, proc


class G:
    def __init__(self, s):
        self.s = s
        self.feats = set()
        self.files = {}
        self.n = 0
        self.tok = {}           # token -> [file, line]
        self.lines_ = {}        # token -> value __LINE__ has beside it
        self.names = {}         # token -> value of __FILE__ beside it
        self.nh = 0
        self.err = None
        self.want_err = s.p(50)
        self.quiet = False      # in a skipped group

    def id(self, p='t'):
        self.n += 1
        return '%s%d_' % (p, self.n)

    def file(self, name, depth, budget):
        s = self.s
        w = W(self, name)
        if name == 'a.c':
            w.put(HEAD)
        for _ in range(2 + s.n(budget)):
            self.element(w, depth, budget)
        if s.p(85):
            w.put('int %s;' % w.mark())
        text = ''.join(w.out)
        if s.p(80) and not text.endswith('\n'):
            text += '\n'
        if s.p(10):
            text = text.rstrip('\n')
        self.files[name] = text

    def element(self, w, depth, budget):
        s = self.s
        k = s.n(30)
        if k < 6:
            w.line('int %s;' % w.mark())
        elif k < 9:
            t = w.mark()
            self.lines_[t] = w.pl()
            w.line('int %s = __LINE__;' % t)
        elif k == 9:
            t = w.mark()
            self.names[t] = w.pf
            w.line('char *%s = __FILE__;' % t)
        elif k == 10:
            self.feats.add('blank-lines')
            w.line('\n' * s.choice([1, 2, 5, 7, 8, 9, 10, 20, 50, 300]))
        elif k == 11:
            self.feats.add('comment')
            w.line(s.choice(['/* one */', '/* a\n b\n c */', '// x', '// x \\\n y', '/*\n*/', '/* "\n\' */', '/*' + '\n' * s.n(20) + '*/']) + (' int %s;' % w.mark_after(True) if False else ''))
        elif k == 12:
            # a comment with line ends, then a token on the same line
            self.feats.add('comment')
            c = s.choice(['/* a\n */', '/*\n\n\n*/', '/* x */'])
            lo = w.pl()
            w.put(c + ' ')
            w.line('int %s;' % w.mark(lo))
        elif k == 13:
            self.feats.add('splice')
            lo = w.pl()
            w.put(s.choice(['int \\\n', 'int\\\n ', 'in\\\nt ', '\\\nint ', 'int \\\n\\\n\\\n']))
            w.line('%s;' % w.mark(lo))
        elif k in (14, 15):
            self.feats.add('skipped-group')
            body = '\n'.join(s.choice(['int x;', '', '#define Q 1', "don't", '#line 1000 "skipped.c"', '/* a\n b */', '#error no', 'x \\\n y', '# 77 "skipped2.c"']) for _ in range(s.n(12)))
            form = s.n(3)
            if form == 0:
                w.line('#if 0\n%s\n#endif' % body)
            elif form == 1:
                w.line('#ifdef NOT_DEFINED\n%s\n#else' % body)
                w.line('int %s;' % w.mark())
                w.line('#endif')
            else:
                w.line('#if 1')
                w.line('int %s;' % w.mark())
                w.line('#elif 1 \\\n || 0\n%s\n#endif' % body)
        elif k == 16:
            self.feats.add('long-define')
            w.line('#define %s(x) x \\\n' % self.id('LONG') + '\\\n' * s.n(5) + ' + 1')
        elif k in (17, 18):
            self.feats.add('multi-line-call')
            m = s.choice(['ID', 'TWICE', 'NONE', 'FIRST', 'STR'])
            arg = s.choice(['1', '1\n', '\n1', '\n1\n', '1\n\n+\n2', '(\n1,\n2)', '/* \n */ 1'])
            if m == 'FIRST':
                arg += s.choice([',\n 2', ', 2', '\n,\n 3\n'])
            call = m + s.choice(['(', '\n(', '( \n']) + arg + ')'
            v = self.id('v')
            lo = w.pl()
            if m == 'STR':
                w.put('char *%s = %s' % (v, call))
            elif m == 'NONE':
                w.put('int %s %s' % (v, call))
            else:
                w.put('int %s = 0 + %s' % (v, call))
            # tokens on the line the call ends on
            if s.p(60):
                w.put('; int %s' % w.mark(lo))
            w.line(';')
        elif k == 19:
            self.feats.add('#line')
            w.line('#line %d' % w.set_line(s.choice([1, 2, 10, 100, 5000, 32767, 1000000])))
        elif k == 20:
            self.feats.add('#line-file')
            f = s.choice(['other.c', 'dir/name.h', 'a.c', 'y.y', 'long' * 60 + '.c', 'with space.c'])
            n = w.set_line(s.choice([1, 7, 999]))
            w.line(s.choice(['#line %d "%s"', '#line %d "%s"', '# %d "%s"']) % (n, f))
            w.pf = f
        elif k == 21:
            self.feats.add('#line-macro')
            m = self.id('LM')
            w.line('#define %s %d' % (m, 50))
            w.set_line(50)
            w.line('#line %s' % m)
        elif k in (22, 23, 24) and depth > 0:
            self.feats.add('include')
            self.nh += 1
            d = w.name.rsplit('/', 1)[0] + '/' if '/' in w.name else ''
            base = s.choice(['h%d.h', 'sub/h%d.h', 'inc/h%d.h']) % self.nh
            if base.startswith('inc/'):
                name, inc = base, '<%s>' % base[4:]
            elif d:
                # beside the including file
                name = d + base.split('/')[-1]
                inc = '"%s"' % base.split('/')[-1]
            else:
                name, inc = base, '"%s"' % base
            self.file(name, depth - 1, max(1, budget // 2))
            w.line('#include ' + inc)
        elif k == 25:
            w.line('#define %s' % self.id('E'))
        elif k == 26:
            w.line(s.choice(['#', '#pragma x', '# /* x\n y */', '#undef NOTHING']))
        elif k == 27:
            self.feats.add('several-on-a-line')
            w.line('int %s; int %s;' % (w.mark(), w.mark()))
        elif k == 28:
            self.feats.add('function')
            w.line('int %s(void)' % self.id('f'))
            w.line('{')
            for _ in range(s.n(4)):
                w.line(s.choice(['', 'int x = 1;', '/* \n */', '']) if s.p(50) else '')
            w.line('return %s;' % '0')
            w.line('}')
        else:
            w.line('')
        if self.want_err and self.err is None and s.p(8):
            self.error(w)

    def error(self, w):
        s = self.s
        k = s.n(14)
        self.feats.add('diagnostic')
        n = self.id('bad')
        if k > 9:
            # any number of line ends between the tokens before the wrong one
            self.feats.add('spread-diagnostic')
            text = s.choice(['int a_%s ; int %s ( void ) { return sizeof ( @', 'int a_%s ; int %s ( void ) { return sizeof ( a_%s ) + @', 'int %s ( int a ) { a = ( int ) ( long ) @', 'int %s ( int a ) { a ; a = @', 'int %s ( int a ) { x : a = @',
                             'int %s ( int a ) { goto y ; y : ; a = @', 'int %s ( int a ) { if ( a ) a = 1 ; else a = @', 'int %s ( int a ) { for ( a = 1 ; a < @', 'int %s ( int a ) { ( a ) ; a = ( @', 'int %s ( int a ) { a = sizeof ( ( a ) ) + sizeof ( int ) + @',
                             'struct s_%s { int a ; } v_%s ; int %s ( void ) { return v_%s . a + @', 'int %s ( int a ) { switch ( a ) { case 1 : a = @', 'int %s ( int a , int b ) { return a ? b : @', 'int %s ( int a ) { int b = a , c = @',
                             'int %s ( int a ) { do a ; while ( a > @', 'typedef int T_%s ; int %s ( int a ) { T_%s b ; b = ( T_%s ) a + @', 'int %s ( int a ) { a ++ ; -- a ; a += @', 'int %s ( int a ) { return sizeof a + @', 'int %s ( int a ) { return sizeof ( a ) [ & a ] + @'])
            toks = text.replace('%s', n).split()
            for t in toks[:-1]:
                w.put(t + s.weighted([(6, ' '), (4, '\n'), (1, '\n\n'), (1, ' /* x */\n '), (1, ' // x\n')]))
            self.err = [w.pf, w.pl(), 'compile']
            w.line('undeclared_%s ; }' % n)
        elif k < 5:
            self.err = [w.pf, w.pl(), 'compile']
            w.line(s.choice(['int %s = undeclared_%s + 1;', 'int %s(void) { return undeclared_%s + 1; }', 'struct undefined_%s %s;' if False else 'int %s = 1 + undeclared_%s ;',
                             'int %s(int a) { a = 1; { a = undeclared_%s; } return 1; }']) % (n, n))
        elif k == 5:
            self.err = [w.pf, w.pl(), 'compile']
            w.line('int %s = 1 2;' % n)
        elif k == 6:
            self.err = [w.pf, w.pl(), 'cpp']
            w.line('#error message %s' % n)
        elif k == 7:
            self.err = [w.pf, w.pl(), 'cpp']
            w.line('#include "nowhere_%s.h"' % n)
        elif k == 8:
            self.err = [w.pf, w.pl(), 'cpp']
            w.line(s.choice(['#bogus', '#if 1 +', '#if (1', '#ifdef 7', '#define 3', '#if', '#line "x"', '#define X(a']))
        else:
            self.err = [w.pf, w.pl(), 'compile']
            w.line('int %s(void) { return 1 }' % n if False else 'int %s[3] = { 1, undeclared_%s, 3 };' % (n, n))


class W:
    """writes one file and knows the presumed position"""
    def __init__(self, g, name):
        self.g, self.name, self.pf = g, name, name
        self.out = []
        self.phys, self.off = 1, 0

    def put(self, t):
        self.out.append(t)
        self.phys += t.count('\n')

    def line(self, t):
        self.put(t + '\n')

    def pl(self):
        return self.phys + self.off

    def mark(self, lo=None):
        """a token here; joined to earlier lines from lo on, when it may count as being on any of them"""
        t = self.g.id()
        self.g.tok[t] = [self.pf, lo or self.pl(), self.pl()]
        return t

    def set_line(self, n):
        """the line after the current one has number n"""
        self.off = n - (self.phys + 1)
        return n


HEAD = '#define ID(x) x\n#define TWICE(x) x + x\n#define NONE(x)\n#define FIRST(x, y) x\n#define STR(x) #x\n'


def positions(b):
    """token -> (file, line) according to the line markers, and the text"""
    pos, f, l, pre = {}, None, 1, []
    t = b.decode('utf-8', 'surrogateescape')
    for x in t.split('\n'):
        m = re.match(r'^#(?:line)? *(\d+) "((?:[^"\\]|\\.)*)"', x)
        if m:
            l, f = int(m.group(1)), m.group(2)
            continue
        for y in re.findall(r'\bt\d+_\b', x):
            pos[y] = (f, l)
        l += 1
    return pos


class C13(ProgCheck):
    id = 'C13'
    batch = 14
    quick_chunks = 480
    thorough_chunks = 40000
    rule = ('a file and up to 10 nested headers made of lines with marker tokens, __LINE__ and __FILE__, blank lines, comments and continuations, skipped groups, multi-line '
            'macro calls, #line and line marker directives, whose position in file and line is known by construction; the positions by the markers of wcc -E, the values of '
            '__LINE__ and __FILE__ and the position in the diagnostic of an error put somewhere have to be the known ones.  Non-trivial: at least four kinds of feature')
    assumptions = ['gcc -E, used to confirm, has the positions right']

    def gen(self, s):
        g = G(s)
        g.file('a.c', 3, 14)
        return Case(g.files, {'tok': g.tok, 'lines': g.lines_, 'names': g.names, 'err': g.err}, sorted(g.feats), len(g.feats) >= 4)

    def judge(self, ctx, case, wd, counters=None):
        m = case.meta
        err = m['err']
        o = ['-I', 'inc', '-I', '.']
        w = wcc(ctx.wcc, ['-E'] + o + ['a.c'], wd)
        if w.rc not in (0, 1):
            return 'wcc -E ends with %d' % w.rc
        if err:
            c = wcc(ctx.wcc, ['-S'] + o + ['a.c', '-o', 'x.s'], wd)
            first = c.err.decode('utf-8', 'replace').split('\n')
            first = next((l for l in first if ' error: ' in l), '')
            want = '%s:%d: error: ' % (err[0], err[1])
            if c.rc != 1 or not first.startswith(want):
                g = proc.run(['gcc', '-fsyntax-only', '-w', '-std=gnu90'] + o + ['a.c'], wd)
                gf = next((l for l in g.err.decode('utf-8', 'replace').split('\n') if ' error: ' in l), '')
                if re.match(re.escape('%s:%d:' % (err[0], err[1])), gf) or ': fatal error: ' in g.err.decode('utf-8', 'replace'):
                    return 'exit %d, diagnostic %r, expected %r' % (c.rc, first, want)
                counters['gcc_differs'] = counters.get('gcc_differs', 0) + 1
                return None
            if err[2] == 'cpp':
                return None
        if w.rc != 0:
            return 'wcc -E rejects it: exit %d %s' % (w.rc, w.err.decode(errors='replace')[-300:])
        bad = self.compare(m, w.out)
        if bad:
            g = proc.run(['gcc', '-E', '-w', '-std=gnu90'] + o + ['a.c'], wd)
            gb = self.compare(m, g.out)
            if g.rc == 0 and bad[0] not in [x for x in (gb or ())]:
                return bad[1]
            counters['gcc_differs'] = counters.get('gcc_differs', 0) + 1

    def compare(self, m, out):
        pos = positions(out)
        text = out.decode('utf-8', 'surrogateescape')
        for t, v in m['tok'].items():
            f, l = pos.get(t, ('nowhere', 0))
            if f != v[0] or not v[1] <= l <= v[2]:
                return t, '%s is at %s:%d by the line markers, written at %s:%d-%d' % (t, f, l, v[0], v[1], v[2])
        for t, v in m['lines'].items():
            r = re.search(r'\b%s\s*=\s*(\d+)\s*;' % t, text)
            if not r or int(r.group(1)) != v:
                return t + 'L', '__LINE__ beside %s is %s, should be %d' % (t, r and r.group(1), v)
        for t, v in m['names'].items():
            r = re.search(r'\b%s\s*=\s*"([^"]*)"\s*;' % t, text)
            if not r or r.group(1) != v:
                return t + 'F', '__FILE__ beside %s is %s, should be %s' % (t, r and r.group(1), v)


CHECK = C13()
