"""C17: no input makes the compiler crash, touch memory it does not own, or run without end."""
import os, re
from ..progcheck import ProgCheck, Case, wcc, read
from .. import ctok, pool, mutator
from . import c11_macros, c12_conditional, c13_positions

OPTS = [[], [], [], ['-g'], ['-fPIC'], ['-fno-optimize-arithmetic'], ['-fno-live-range-coalescing'], ['-fspill-furthest-liveness-end'], ['-fno-dont-spill-short-live-ranges'], ['-fno-vreg-renumbering'],
        ['-D', 'X=1'], ['-D', 'F(x)=x + 1'], ['--trigraphs'], ['-g', '-fPIC'], ['-Werror'], ['-D', 'M'], ['-Iinc']]

# one of everything, in a few lines each, to be damaged
SNIPPETS = [
    'int main(int argc, char **argv) { int i; for (i = 0; i < argc; i++) { if (i == 2) continue; if (i > 7) break; argc += i; } return argc; }',
    'struct s { int a; char b[3]; struct t { long x; } t; struct s *next; } g = { 1, "ab", { 2 }, &g }; int f(struct s *p) { return p->next->t.x + p->b[1]; }',
    'union u { int i; float f; double d[2]; } u = { 5 }; double f(union u v, union u *p) { v.f = 2.0f; *p = v; return p->d[1] + v.i; }',
    'enum e { A, B = 5, C = B << 2, D } x = C; int f(enum e y) { switch (y) { case A: case B: return 1; case C + 1: { return 2; } default: return x; } }',
    'typedef int (*fp)(int, char); typedef fp arr[3]; int g(int a, char b) { return a + b; } arr t = { g, g }; int f(int i) { return (*t[i])(i, 2) + t[0](1, 2); }',
    'int f(void) { int i = 0; again: i++; if (i < 10) goto again; goto done; i = 100; done: return i; }',
    'int f(int n, ...) { __builtin_va_list ap; int r = 0; __builtin_va_start(ap, n); while (n--) r += __builtin_va_arg(ap, int); return r; } int g(void) { return f(2, 3, 4); }',
    'struct b { unsigned a : 3; int b : 5; int : 0; unsigned c : 32; } x = { 1, -2, 3 }; int f(struct b *p) { p->b += p->a; p->c <<= 3; return p->b ? x.a : p->c; }',
    'float f1(float a, double b, long double c) { return a * b / c + (int) c - (unsigned char) b; } long double z = 1.5L; int g(double d) { return d > z && !(d != 2.0) || -d < 1e10; }',
    'char *s = "abc" "def\\n\\x41\\101"; char t[] = "xyz"; char u[2][4] = { "ab", { 1, 2 } }; int w = sizeof("abc"); int f(void) { return s[1] + *t + u[1][0] + \'a\' + L\'b\' + "q"[0]; }',
    'long f(long a, unsigned long b, short c, unsigned char d) { a += b * 3; b /= 7; c %= 5; d <<= 1; a ^= ~b & c | d; a >>= c; return a ? -b : (c == d) + (a > b) * (c >= d); }',
    'int a[3][4] = { { 1, 2 }, 3, 4, 5 }; int f(int i, int (*p)[4]) { int *q = &a[1][2]; int *e = a[2] + 4; return p[i][1] + *q++ + (e - q) + sizeof(a) / sizeof(a[0]) + *(*(a + 1) + i); }',
    'static int s; extern int e; int t; static int f(int); int g(void) { static int n = 3; extern int h(); register int r = 4; return f(n++) + h(r, s, &e) + t; } static int f(int x) { return x; }',
    'int f(x, y) int x; char *y; { return x + *y; } int g() { return f(1, "a"); }',
    'struct s { int a, b; double d; char c[30]; }; struct s f(struct s x) { struct s y = x; y.a++; return y; } int g(void) { struct s z; z.a = 1; return f(f(z)).a; }',
    'struct p { char c; int i; } __attribute__((packed)); int f(struct p *p) { return sizeof(struct p) + p->i + (int) &((struct p *) 0)->i; }',
    'void f(int *p, const char *q, volatile int v) { do { *p++ = *q ? v : *q++; v--; } while (v > 0); { int p = 3; (void) p; { char p = 4; v = p; } } ; }',
    'int f(int a) { int r = ({ int t = a * 2; t + 1; }); return r; } struct { int x; union { int y; char z; }; } an = { 1, { 2 } }; int g(void) { return an.y + an.z; }',
    'int f(int a, int b) { return a, b ? a ? 1 : 2 : b ? 3 : 4; } int g(int x) { int y = x = f(x, x); return y && x || !y; }',
    'int (*f(int (*p)(void)))(void) { return p; } int (*(*v)[2])(void); int *(*w(char (*)[3], int [], int (int)))[5]; const int * const volatile cp = 0; unsigned long long int q;',
    'typedef struct node node; struct node { node *l, *r; int v; }; int f(node *n) { return n ? f(n->l) + n->v + f(n->r) : 0; } int f2(int), f3(int a) , x3, *y3;',
    'typedef int T; int f(T T) { return T + sizeof(T); } int g(void) { int T = 1; { typedef char T; T c = 3; return c; } } struct T { T T; } T2;',
    '#define A(x, y) x ## y #x __LINE__\n#define B(x) A(x, B) (x) x\n#define C() B(C())\nint f(void) { return sizeof("" B(1 2) ""); }\nC() C ( ) A(,) A((,),)\n#undef A\nA(1,2)\n',
    '#if defined(X) && X > 3 || !defined Y\n#elif 1 ? 2 : 3\nint a;\n#else\n#error no\n#endif\n#ifdef Z\n#if 1\n#else\n#endif\n#endif\n#ifndef Q\n#include "h.h"\n#line 30 "x.c"\nint b = __LINE__;\n#endif\n#pragma x\n#warning w\n',
    'int x = 1 + 2 * 3 - 4 / 2 % 3 << 2 >> 1 & 7 | 8 ^ 1, y = !0 && ~0 || -1 > +1, *p = &x + 1, a[3 + sizeof(int)] = { 1 }; double d = 1.0 / 3 + 2; char *c = "abc" + 1; int *q = (int *) 100;',
]


def big(s):
    """a program with one thing that is large: at, around and beyond every limit"""
    n = s.choice([3, 30, 254, 255, 256, 257, 300, 1000, 1022, 1023, 1024, 1025, 2000, 4093, 4094, 4095, 4096, 5000])
    k = s.n(44)
    if k > 39:
        from .. import scale
        return 'long opaque_l(long); double opaque_d(double); void out_i(long); void out_u(unsigned long); void out_d(double); void out_f(float); void out_ld(long double); void out_mem(void *, unsigned long);\n' + scale.unit(s).text('u')
    if k == 0:
        return 'int %s = 1;\n' % ('i' * n)
    if k == 1:
        return 'char s[] = "%s";\n' % ('s' * n)
    if k == 2:
        return 'char s[] = %s;\n' % ('"%s"\n' % ('t' * 20) * (n // 20 + 1))
    if k == 3:
        return 'struct s { %s } x;\n' % ''.join('int m%d;' % i for i in range(n))
    if k == 4:
        return 'int f(%s) { return 1; }\n' % ','.join('int p%d' % i for i in range(n))
    if k == 5:
        return 'int f(); int g(void) { return f(%s); }\n' % ','.join(['1'] * n)
    if k == 6:
        return '#define M(%s) p0\nint x = M(%s);\n' % (','.join('p%d' % i for i in range(n)), ','.join(['1'] * n))
    if k == 7:
        m = min(n, 1000)
        return 'int x = %s1%s;\n' % ('(' * m, ')' * m)
    if k == 8:
        m = min(n, 1000)
        return 'int f(int a) { return %sa%s; }\n' % ('(' * m, ')' * m)
    if k == 9:
        m = min(n, 300)
        return 'int f(int a) { %s a++; %s return a; }\n' % ('{ if (a) ' * m, '}' * m)
    if k == 10:
        m = min(n, 1000)
        return 'int f(int a) { return %s; }\n' % ' + '.join(['a'] * m)
    if k == 11:
        m = min(n, 1000)
        return 'int %sx;\n' % ('*' * m)
    if k == 12:
        m = min(n, 300)
        return 'int x%s;\n' % ('[1]' * m)
    if k == 13:
        m = min(n, 300)
        return 'int %sx%s;\n' % ('(*' * m, ')(void)' * m)
    if k == 14:
        return ''.join('typedef int t%d;\n' % i for i in range(n))
    if k == 15:
        m = min(n, 500)
        return 'int f(int a) { switch (a) { %s } return 0; }\n' % ''.join('case %d: return %d;' % (i, i + 1) for i in range(m))
    if k == 16:
        m = min(n, 500)
        return 'int f(int a) { %s return a; }\n' % ''.join('l%d: if (a > %d) goto l%d;' % (i, i, i // 2) for i in range(m))
    if k == 17:
        return 'enum e { %s };\n' % ','.join('e%d' % i for i in range(n))
    if k == 18:
        return 'int x = %s;\n' % ('1' * n)
    if k == 19:
        return 'double x = %s.%se%s;\n' % ('1' * min(n, 1000), '2' * (n // 2), s.choice(['1', '-5', '400', '99999999999', '+308']))
    if k == 20:
        return "int x = '%s';\n" % ('a' * n)
    if k == 21:
        return '#%s\n' % (' x' * n)
    if k == 22:
        return '#include "%s"\n' % ('f' * n)
    if k == 23:
        return '#define A %s\nint x = sizeof("" A);\n' % ('"' + 'x' * n + '"')
    if k == 24:
        return '#define S(x) #x\nchar s[] = S(%s);\n' % ('"\\\\' * 0 + 'y ' * n)
    if k == 25:
        return '#define C(a, b) a ## b\nint C(%s, %s);\n' % ('a' * n, 'b' * n)
    if k == 26:
        m = min(n, 1000)
        return ''.join('#if 1\n' for _ in range(m)) + 'int x;\n' + '#endif\n' * (m - s.n(2))
    if k == 27:
        m = min(n, 1000)
        return ''.join('#define m%d m%d + 1\n' % (i, i + 1) for i in range(m)) + '#define m%d 0\nint x = m0;\n' % m
    if k == 28:
        return '/*%s*/\nint x;%s\n' % ('*' * n + '\n' * n, '\t' * n)
    if k == 29:
        return 'int x = 1%s;\n' % (' +\\\n 1' * min(n, 1000))
    if k == 30:
        return 'int a[%d] = { %s };\n' % (n, ','.join('%d' % i for i in range(n + s.n(2))))
    if k == 31:
        return 'struct s { char a[%d]; }; void g(struct s); void f(struct s x) { struct s y = x; g(y); g(x); }\n' % n
    if k == 32:
        return 'int f(int a) { int %s; return a; }\n' % ','.join('v%d = a + %d' % (i, i) for i in range(min(n, 300)))
    if k == 33:
        m = min(n, 300)
        return 'int f(int a) { int %s; return %s; }\n' % (','.join('v%d = a + %d' % (i, i) for i in range(m)), '^'.join('v%d' % i for i in range(m)))
    if k == 34:
        m = min(n, 300)
        return 'struct s { %s int x; %s } v;\n' % ('struct {' * m, '} ;' * m)
    if k == 35:
        m = min(n, 300)
        return 'int f(int a) { return %sa%s; }\n' % ('f(' * m, ')' * m)
    if k == 36:
        m = min(n, 300)
        return 'int f(int a) { return %s a; }\n' % ('a ? 1 : ' * m)
    if k == 37:
        return '#line %s\nint x = ;\n' % ('9' * n)
    if k == 38:
        return '#line 3 "%s"\nint x = ;\n' % ('q' * n)
    m = min(n, 200)
    return 'int f(int a) { %s return a; }\n' % ''.join('for (a = 0; a < %d; a++) { ' % i for i in range(m)) + '}' * m


HEADER = '#ifndef H\n#define H 1\n#define M(a) a + H\nint h1;\n#endif\n'


class C17(ProgCheck):
    id = 'C17'
    batch = 25
    builds = ('plain', 'asan')
    quick_chunks = 300
    thorough_chunks = 20000
    rule = ('programs of all generators and short programs with one of everything, damaged by one to ten edits of tokens and characters, preprocessor inputs, and plain random bytes, under random '
            'options, through a compiler built with address and undefined behaviour sanitizers: it ends by itself, within time and memory, with 0 or with 1 and a message.  Non-trivial: every case')
    assumptions = ['the sanitizers see every wrong access']

    def gen(self, s):
        k = s.n(11)
        feats = set()
        files = {'h.h': HEADER}
        if k < 5:
            text = '\n'.join(s.choice(SNIPPETS) for _ in range(1 + s.n(3)))
            feats.add('snippets')
            text, kinds = mutator.damage(s, text, 1 + s.n(s.choice([2, 5, 10])))
        elif k < 7:
            text, f = pool.program(s, 1)
            feats |= f
            text, kinds = mutator.damage(s, text, 1 + s.n(4))
        elif k == 7:
            c = (c11_macros.CHECK, c12_conditional.CHECK, c13_positions.CHECK)[s.n(3)].gen(s)
            files.update(c.files)
            text, kinds = mutator.damage(s, files['a.c'] if isinstance(files['a.c'], str) else files['a.c'].decode('latin1'), 1 + s.n(5))
            feats.add('preprocessor')
        elif k == 8:
            text = s.choice(SNIPPETS)
            kinds = {'bytes'}
            for _ in range(1 + s.n(4)):
                i = s.n(len(text) + 1)
                j = s.n(4)
                text = text[:i] + s.choice([chr(s.n(256)), s.choice(mutator.CHARS), s.choice(mutator.CHARS)]) + text[i + (j if j < 3 else s.n(len(text))):]
        elif k == 10:
            kinds = {'big'}
            text = big(s)
        else:
            kinds = {'soup'}
            text = ''.join(s.choice([s.choice(mutator.PIECES) + ' ', s.choice(mutator.PIECES), s.choice(mutator.CHARS), s.choice('x1 \n')]) for _ in range(1 + s.n(60)))
        files['a.c'] = text.encode('latin1', 'replace')
        m = {'opts': list(s.choice(OPTS)), 'mode': s.choice(['-S', '-S', '-S', '-S', '-E'])}
        return Case(files, m, sorted(feats | {'damage-' + x for x in kinds}))

    def judge(self, ctx, case, wd, counters=None):
        m = case.meta
        w = wcc(os.path.join(ctx.dirs['asan'], 'wcc'), [m['mode']] + m['opts'] + ['-o', 'out', '-I', '.', 'a.c'], wd, timeout=100, mem_mb=0)
        counters['rc_%d' % w.rc] = counters.get('rc_%d' % w.rc, 0) + 1
        err = w.err.decode('utf-8', 'replace')
        if b'internal error' in w.err:
            counters['internal-error'] = counters.get('internal-error', 0) + 1
        if w.rc == 0:
            return None
        if w.rc == 1:
            return None if err.strip() else 'exit 1 without a message'
        return self.signature(w, err) + '\n' + err[-1500:]

    @staticmethod
    def signature(w, err):
        if w.timeout or w.rc in (-9, -24):
            return 'does not end'
        kind = re.search(r'AddressSanitizer: ([\w-]+)|runtime error: (.*)', err)
        frames = re.findall(r'^\s*#\d+ 0x\w+ in (\w+) .*?(\w+\.c):(\d+)', err, re.M)[:3]
        return 'exit %d: %s at %s' % (w.rc, (kind.group(1) or kind.group(2))[:100] if kind else 'no report', ' < '.join('%s (%s:%s)' % f for f in frames))


CHECK = C17()
