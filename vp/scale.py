"""Units in which one thing is large: identifiers, nesting, numbers of cases, parameters, members, literals, frames, ... below the compiler's limits."""
from .cdiff import Unit

SIZES = [3, 9, 17, 31, 33, 63, 65, 100, 127, 129, 200, 255, 257, 300, 500]


def unit(s):
    k = s.n(30)
    n = s.choice(SIZES) + s.n(3)
    d, b = [], []
    P = lambda t: b.append(t)
    nontrivial = n > 30
    T = s.choice(['int', 'long', 'unsigned', 'short', 'signed char', 'unsigned char', 'unsigned long', 'unsigned short'])
    out = 'out_u' if 'unsigned' in T else 'out_i'
    if k in (0, 1, 2):
        f = 'identifiers'
        L = lambda p: '@' + p + ''.join(s.choice('abXY_019') for _ in range(4)) + 'x' * (n + s.n(3))
        g, h, st, ar, ld, fn, fs = L('g'), L('h'), L('s'), L('a'), L('l'), L('f'), L('F')
        lc, lb = L('c'), L('b')
        d += ['%s %s = 5;' % (T, g), 'static %s %s = 6;' % (T, h), 'struct %s { int %s; double d; char c[9]; };' % (L('t'), lc) if 0 else 'struct @S { int m%s; double d; char c[9]; } %s = {1, 2.5, "abc"};' % (lc[1:], st),
              'int %s[7] = {1, 2, 3, 4, 5, 6, 7};' % ar, 'long double %s = 4.5L;' % ld, 'double %sd = 1.25;' % ld, 'float %sf = 1.25f;' % ld,
              'int %s(int x) { return x + %s; }' % (fn, h), 'static double %s(double x) { return x * %sd; }' % (fs, ld), 'int (*%sp)(int) = %s;' % (fn, fn), 'int *%sq = &%s[2];' % (ar, ar)]
        if s.n(2):
            b.append('int lab = 0; if (lab) goto L%s; lab = 1; L%s: out_i(lab);' % (lb[1:], lb[1:]))
        P('int i = opaque_l(%d);' % s.n(7))
        for _ in range(4 + s.n(8)):
            P(s.choice(['%s(%s);' % (out, g), '%s += %s(i);' % (g, fn), '%s(%s = %s(%s) + %s);' % (out, h, fn, g, h), 'out_i(%s[i]);' % ar, '%s[i] += i;' % ar, 'out_i(*(%sq + 1));' % ar, 'out_ld(%s);' % ld, '%s *= 2;' % ld,
                        'out_d(%s(%sd));' % (fs, ld), 'out_f(%sf);' % ld, '%sf += i;' % ld, '%sd = %s + %sf;' % (ld, ld, ld), 'out_i(%sp(i));' % fn, 'out_i(%sp == %s);' % (fn, fn), 'out_i(&%s[i] - %s);' % (ar, ar),
                        'out_i(%s.m%s);' % (st, lc[1:]), '%s.c[i] = i;' % st, 'out_d(%s.d++);' % st, 'out_i(%s.c[2]);' % st, '{ struct @S t; t = %s; out_d(t.d); t.d = i; %s = t; }' % (st, st), 'out_i((long) &%s.d - (long) &%s);' % (st, st),
                        'out_i(%s(%s) > %s ? %s : %s);' % (fn, g, g, g, h), '%s++; --%s;' % (g, h), 'if (%s) out_i(1); else out_i(2);' % g, '%s(%s / (i + 1)); %s(%s << 2);' % (out, g, out, h), 'out_i((int) %s);' % ld, 'out_ld(%s + %s);' % (g, ld)]))
        P('%s(%s); %s(%s); out_ld(%s); out_d(%sd);' % (out, g, out, h, ld, ld))
    elif k == 3:
        f = 'members'
        d.append('struct @S { ' + ' '.join('%s m%d;' % (s.choice(['int', 'char', 'short', 'long', T]), i) for i in range(n)) + ' } @g;')
        P('struct @S l, *p = &@g;')
        for i in [0, 1, n // 2, n - 2, n - 1]:
            P('p->m%d = %d; l = *p; out_i(l.m%d); out_i((char *) &p->m%d - (char *) p);' % (i, i % 100, i, i))
        P('out_i(sizeof(l));')
    elif k == 4:
        f = 'cases'
        m = s.choice([1, 3, 1 << 20, -1])
        d.append('int @f(%s x) { switch (x) { %s } return -1; }' % (s.choice(['int', 'long']), ' '.join('case %d: %s' % (i * m, s.choice(['return %d;' % i, 'x += %d; break;' % i, ''])) for i in range(n)) + ' default: return x + 1;'))
        for i in [0, 1, 2, n // 2, n - 1, n, n + 1, -1]:
            P('out_i(@f(opaque_l(%d)));' % (i * m))
    elif k == 5:
        f = 'parameters'
        ts = [s.choice(['int', 'long', 'char', 'double', 'float', 'long double', 'short', 'unsigned char']) for _ in range(n)]
        d.append('long @f(' + ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts)) + ') { return ' + ' + '.join('%d * (long) a%d' % (i % 7 + 1, i) for i in range(n)) + '; }')
        P('int i = opaque_l(3); out_i(@f(' + ', '.join(s.choice(['%d' % (i % 100), 'i', 'i + %d' % (i % 90)]) for i in range(n)) + '));')
    elif k == 6:
        f = 'locals'
        P('%s i = opaque_l(7);' % T)
        for i in range(n):
            P('%s v%d = i + %d;' % (s.choice([T, 'int', 'long', 'char', 'double']), i, i % 90))
        P('out_i((long) (' + ' + '.join('v%d' % s.n(n) for i in range(min(n, 60))) + '));')
        P('out_i((long) (' + ' + '.join('v%d' % i for i in range(n)) + '));')
    elif k == 7:
        f = 'nested-blocks'
        n = min(n, 100)
        P('int a = opaque_l(1), c = 0;')
        P(' '.join(s.choice(['if (a) {', '{', 'while (a) {', 'do {', 'for (;a;) {', 'switch (a) { case 1: {']) for i in range(1)) + ' c++; }' if 0 else '')
        P(''.join('if (a + %d > c) { int x%d = c + %d; c = x%d; ' % (i, i, i % 3, i) for i in range(n)) + 'c++;' + '}' * n + ' out_i(c);')
    elif k == 8:
        f = 'nested-loops'
        n = 2 + n % 40
        P('int c = 0;' + ''.join('for (int i%d = 0; i%d < %d; i%d++) { ' % (i, i, 2 if i < 4 else 1, i) for i in range(n)) + 'c += i%d + i0;' % (n - 1) + '}' * n + ' out_i(c);')
    elif k == 9:
        f = 'parentheses'
        op = s.choice(['+', '-', '^', '*', '|', '&'])
        P('unsigned long a = opaque_l(%d), c = %d;' % (s.n(1000), s.n(100)))
        P('out_u(' + ''.join('(%s %s ' % (s.choice(['a', 'c', str(i % 50)]), op) for i in range(min(n, 200))) + 'a' + ')' * min(n, 200) + ');')
        P('out_u(' + '(' * n + 'a' + ')' * n + ');')
    elif k == 10:
        f = 'long-expression'
        P('unsigned long a = opaque_l(%d), c = %d, e[3] = {1, 2, 3};' % (s.n(1000), s.n(100)))
        P('out_u(' + ' '.join('%s %s' % (s.choice(['a', 'c', 'e[c % 3]', '(unsigned char) a', 'a * c', '7']), s.choice('+-^|&')) for i in range(n)) + ' a);')
    elif k == 11:
        f = 'ternaries'
        n = min(n, 200)
        P('int a = opaque_l(%d);' % s.n(n))
        P('out_i(' + ''.join('a == %d ? %d : ' % (i, i * 3) for i in range(n)) + '-1);')
    elif k == 12:
        f = 'calls'
        n = min(n, 200)
        d.append('static int @f(int a) { return a * 3 + 1; } static int @h(int a, int b) { return a - b; }')
        P('int a = opaque_l(2); out_i((int) (unsigned char) ' + ''.join(s.choice(['@f((unsigned char) ', '@h(7, (unsigned char) ', '@f(1 & ']) for i in range(n)) + 'a' + ')' * n + ');')
        P('out_i(' + ''.join('@h(%d, ' % (i % 9) for i in range(n)) + 'a' + ')' * n + ');')
    elif k == 13:
        f = 'strings'
        t = ''.join(s.choice(['a', 'b', '\\n', '\\0', '\\x41" "', '\\101', '?', "'"]) for i in range(min(n * 5, 2000)))
        d.append('char @s[] = "%s"; char *@p = "%s" "z"; static char @t[%d] = "%s";' % (t, t, n * 9, t))
        P('char l[] = "%s"; out_i(sizeof(@s)); out_mem(@s, sizeof(@s)); out_mem(@p, sizeof(@s)); out_mem(l, sizeof(l)); out_mem(@t, sizeof(@t));' % t)
    elif k == 14:
        f = 'frame'
        sz = s.choice([100, 127, 128, 129, 255, 256, 4000, 4096, 5000, 32760, 32768, 40000, 65536, 100000])
        P('char x = opaque_l(5); char big[%d]; %s after = opaque_l(6); short big2[%d]; long double l = 2.5L; struct { int a; char c[%d]; } r, q;' % (sz, T, sz // 2, sz))
        P('big[0] = 1; big[%d] = x; big2[%d] = x + 1; r.a = 4; r.c[%d] = 9; q = r; out_i(big[0] + big[%d]); out_i(big2[%d]); out_i(q.a + q.c[%d]); %s(after); out_ld(l); out_i(x);' % (sz - 1, sz // 2 - 1, sz - 1, sz - 1, sz // 2 - 1, sz - 1, out))
    elif k == 15:
        f = 'offsets'
        sz = s.choice([120, 124, 127, 128, 200, 32760, 32767, 32768, 70000, 1 << 20])
        d.append('struct @R { %s a[%d]; %s b; struct { char c; %s d; } e[3]; }; struct @R @g, *@p = &@g; static struct @R @h;' % (T, sz, T, T))
        P('int i = opaque_l(%d);' % s.n(3))
        for _ in range(8):
            o = s.choice(['@g.', '@p->', '@h.', '(*@p).', '(&@h)->', '(@p + 0)->'])
            m = s.choice(['b', 'e[i].d', 'e[2].c', 'a[%d]' % (sz - 1), 'a[i]', 'a[i + %d]' % (sz - 4), 'e[1].d'])
            P(s.choice(['%s%s = %d;' % (o, m, s.n(100)), '%s(%s%s);' % (out, o, m), '%s%s += 3;' % (o, m), 'out_i((char *) &%s%s - (char *) &%s);' % (o, m, o.replace('.', '').replace('->', '') if o in ('@g.', '@h.') else '*@p' if '@p' in o else '@h')]))
        P('{ struct @R *q = &@h; q->b = 5; %s(q->b + q->e[i].d); }' % out)
    elif k == 16:
        f = 'elements'
        d.append('%s @a[] = {%s}; int @b[%d] = {%s};' % (T, ', '.join(str(s.n(100)) for _ in range(n)), n, ', '.join('[%d]' % 0 if 0 else str(i) for i in range(n - 1))))
        P('%s l[%d] = {%s}; long t = 0; out_i(sizeof(@a) / sizeof(@a[0])); for (int i = 0; i < %d; i++) t = t * 3 + @a[i] + @b[i] + l[i]; out_i(t);' % (T, n, ', '.join(str(s.n(100)) for _ in range(n - s.n(3))), n))
    elif k == 17:
        f = 'dimensions'
        m = 2 + n % 20
        d.append('int @a%s;' % ('[1]' * m + '[2]'))
        P('@a%s[1] = 5; out_i(@a%s[1]); out_i(sizeof(@a));  out_i(sizeof(@a[0]));' % ('[0]' * m, '[0]' * m))
        P('int x = 7; int ' + ', '.join('%sp%d = &%s' % ('*' * (i + 1), i, 'p%d' % (i - 1) if i else 'x') for i in range(m)) + '; %sp%d = 9; out_i(x);' % ('*' * m, m - 1))
    elif k == 18:
        f = 'enumerators'
        d.append('enum @E { ' + ', '.join('@e%d%s' % (i, ' = %d' % s.n(1000) if s.n(9) == 0 else '') for i in range(n)) + ' };')
        P('enum @E v = @e%d; out_i(v);' % (n - 1) + ''.join(' out_i(@e%d);' % s.n(n) for _ in range(6)))
    elif k == 19:
        f = 'functions'
        n = min(n, 120)
        d += ['static %s @f%d(%s x) { return x + %d; }' % (T, i, T, i) for i in range(n)]
        d.append('%s (*@t[])(%s) = { %s };' % (T, T, ', '.join('@f%d' % i for i in range(n))))
        P('for (int i = 0; i < %d; i++) %s(@t[i](i)); %s(@f%d(3));' % (n, out, out, n - 1))
    elif k == 20:
        f = 'literals'
        n = min(n, 200)
        P('double x = opaque_d(1.5); float y = 1; long double z = 1;')
        P(' '.join(s.choice(['x = x * 0.5 + %d.25;' % i, 'y += %d.5f;' % i, 'z = z / 3 + %d.125L;' % i, 'x -= %d;' % i, 'x += y;']) for i in range(n)) + ' out_d(x); out_f(y); out_ld(z);')
    elif k == 21:
        f = 'labels'
        n = min(n, 200)
        P('int a = opaque_l(%d), c = 0;' % s.n(50))
        P(' '.join('l%d: c += %d; if (c > %d && c < %d) goto l%d;' % (i, i % 5 + 1, i * 2 + a, i * 2 + a + 3, min(n - 1, i + 1 + s.n(9))) for i, a in ((i, s.n(20)) for i in range(n))) + ' out_i(c); out_i(a);')
    elif k == 22:
        f = 'struct-nesting'
        n = min(n, 100)
        d.append('struct @S0 { char c; %s x; };' % T + ''.join(' struct @S%d { %sstruct @S%d x; };' % (i + 1, s.choice(['', 'char c; ', 'long c; ']), i) for i in range(n)) + ' struct @S%d @g;' % n)
        P('@g%s.x = 3; %s(@g%s.x); out_i(sizeof(@g)); out_i((char *) &@g%s.x - (char *) &@g); { struct @S%d l = @g; %s(l%s.x++); out_i(l%s.x); }' % ('.x' * n, out, '.x' * n, '.x' * n, n, out, '.x' * n, '.x' * n))
    elif k == 23:
        f = 'anonymous-nesting'
        n = min(n, 60)
        d.append('struct @S { ' + ''.join('%s { int a%d; ' % (s.choice(['struct', 'union']), i) for i in range(n)) + 'long z;' + ' };' * n + ' char e; } @g;')
        P('struct @S *p = &@g; p->z = 77; p->e = 5; out_i(p->z); out_i(p->e); out_i(sizeof(@g)); out_i((char *) &p->z - (char *) p); out_i((char *) &p->a%d - (char *) p); p->a%d = 9; out_i(@g.a%d);' % (n - 1, n // 2, n // 2))
    elif k == 24:
        f = 'declarator-nesting'
        n = 1 + n % 30
        d.append('static int @x = 4; int *@f(void) { return &@x; } typedef int *(*@T0)(void); ' + ' '.join('typedef @T%d *@T%d;' % (i, i + 1) for i in range(n)))
        P('@T0 p0 = @f; ' + ' '.join('@T%d p%d = &p%d;' % (i + 1, i + 1, i) for i in range(n)) + ' out_i(*(%sp%d)()); out_i(*(%sp%d)());' % ('*' * n, n, '*' * (n + 1), n))
    elif k == 25:
        f = 'logical-chain'
        n = min(n, 200)
        op = s.choice(['&&', '||'])
        P('int a = opaque_l(%d), c = 0; out_i(' % s.n(9) + (' %s ' % op).join('(c++, a %s %d)' % (s.choice(['<', '!=', '==', '>']), s.n(10) if s.n(9) == 0 else -1 if op == '||' else 99 if 0 else s.n(3) - 5) for i in range(n)) + '); out_i(c);')
    elif k == 26:
        f = 'variadic'
        n = min(n, 120)
        d.append('#include <stdarg.h>\nlong @f(int n, ...) { va_list ap; unsigned long t = 0; int i; va_start(ap, n); for (i = 0; i < n; i++) { t = t * 3 + va_arg(ap, int); t += (long) va_arg(ap, double); t ^= va_arg(ap, long); } va_end(ap); return t; }')
        m = n // 3
        P('out_i(@f(%d%s));' % (m, ''.join(', %d, %d.5, %dL' % (s.n(100), s.n(100), s.n(1 << 40)) for _ in range(m))))
    elif k == 27:
        f = 'else-if-chain'
        n = min(n, 200)
        P('int a = opaque_l(%d), c = 0; ' % s.n(n) + ' else '.join('if (a == %d) { c += %d; %s }' % (i, i, 'a++;' if s.n(3) == 0 else '') for i in range(n)) + ' else c = -1; out_i(c + a);')
    elif k == 28:
        f = 'assignments'
        n = min(n, 200)
        P(T + ' ' + ', '.join('v%d' % i for i in range(n)) + '; ' + ' = '.join('v%d' % i for i in range(n)) + ' = opaque_l(%d); ' % s.n(300) + '%s(v0); %s(v%d); ' % (out, out, n - 1))
        P('out_i((long) (' + ', '.join('v%d++' % s.n(n) for i in range(n)) + ')); out_i((long) (' + ' ^ '.join('v%d' % i for i in range(n)) + '));')
    else:
        f = 'casts'
        n = min(n, 200)
        P('long a = opaque_l(%d); out_i((long) ' % s.n(1 << 40) + ' '.join('(%s)' % s.choice(['int', 'long', 'short', 'unsigned char', 'unsigned', 'unsigned long', 'unsigned short', 'signed char']) for i in range(n)) + ' a); out_i(' + ' '.join(s.choice('-~!+') for i in range(n)) + ' (a & 7));')
    return Unit('\n'.join(d), '\n'.join(b), features=['scale', 'scale-' + f], nontrivial=nontrivial)
