"""C preprocessing tokens of program text, and layouts of a token sequence that mean the same."""
import re

TOKEN = re.compile(r'''(?P<ws>[ \t\f\v]+)|(?P<nl>\n)|(?P<com>/\*.*?\*/|//[^\n]*)|(?P<num>\.?[0-9](?:[eEpP][+-]|[A-Za-z0-9_.])*)
|(?P<str>L?"(?:\\.|[^"\\\n])*")|(?P<chr>L?'(?:\\.|[^'\\\n])*')|(?P<id>[A-Za-z_][A-Za-z0-9_]*)
|(?P<op>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[*/%+\-&^|]=|\#\#|[^\sA-Za-z0-9_"'])''', re.S | re.X)


def tokens(text):
    """[(kind, text, newline before, white space before)]; comments count as white space"""
    out = []
    pos, nl, ws = 0, True, False
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            out.append(('bad', text[pos], nl, ws))
            pos += 1
            nl = ws = False
            continue
        pos = m.end()
        k = m.lastgroup
        if k == 'nl':
            nl = True
        elif k in ('ws', 'com'):
            ws = True
            if '\n' in m.group():
                pass
        else:
            out.append((k, m.group(), nl, ws))
            nl = ws = False
    return out


def texts(text):
    return [t[1] for t in tokens(text)]


def glue(a, b):
    """would a and b written without space between them become other tokens?"""
    if a[-1:] == '/' and b[:1] in '/*':
        return True
    t = texts(a + b)
    return t != [a, b]


COMMENTS = ['/**/', '/* comment */', '/* a\n b */', '/***/', '/* " */', "/* ' */", '/* // */', '/*\n\n*/', '/* /* */', '/* #define X */', '/* \\ */', '/*\\\n*/', '/* ??/ */']
LINE_COMMENTS = ['// x\n', '//\n', '// " \n', '// /* \n', '// a \\\n continued\n', "// don't\n"]
TRIGRAPHS = {'#': '??=', '\\': '??/', '^': "??'", '[': '??(', ']': '??)', '|': '??!', '{': '??<', '}': '??>', '~': '??-'}


def layout(s, text, splices=True, trigraphs=False, linecomments=True, density=30, comments=True):
    """the same token sequence written differently; directive lines keep to their line.  returns (text, features)"""
    toks = tokens(text)
    lines, cur = [], []
    for t in toks:
        if t[2] and t[1] == '#' and True:
            if cur:
                lines.append((False, cur))
            cur = [t]
            lines.append((True, cur))
            cur = []
            continue
        if lines and lines[-1][0] and lines[-1][1] and not cur and not t[2]:
            lines[-1][1].append(t)
            continue
        cur.append(t)
    if cur:
        lines.append((False, cur))
    out = []
    feats = set()

    def spell(t):
        x = t[1]
        if trigraphs:
            y = ''
            for c in x:
                if c in TRIGRAPHS and s.p(density):
                    y += TRIGRAPHS[c]
                    feats.add('trigraph')
                else:
                    y += c
            x = y
        if splices and s.p(density // 3) and len(x) > 1:
            if '??' not in x:
                i = 1 + s.n(len(x) - 1)
                x = x[:i] + '\\\n' + x[i:]
                feats.add('splice-in-token')
        return x

    def gap(need, directive):
        """white space between two tokens"""
        if not s.p(density):
            return ' ' if need else ''
        k = s.n(9)
        if k == 0:
            return ' ' * (1 + s.n(4))
        if k == 1:
            return '\t' * (1 + s.n(2))
        if k == 2 and comments:
            feats.add('comment')
            c = s.choice(COMMENTS)
            return c
        if k == 3 and splices:
            feats.add('splice-in-space')
            return ' \\\n' + (' ' if s.p(50) else '')
        if directive:
            return ' '
        if k == 4:
            return '\n' * (1 + s.n(3))
        if k == 5:
            feats.add('formfeed')
            return s.choice(['\f', '\v', ' \f '])
        if k == 6 and linecomments:
            feats.add('line-comment')
            return ' ' + s.choice(LINE_COMMENTS)
        if k == 7 and comments:
            feats.add('comment')
            return s.choice(COMMENTS) + s.choice(COMMENTS)
        if k == 8 and s.p(5):
            feats.add('long-space')
            return ' ' * s.choice([100, 1000, 5000])
        return ' '

    for directive, ts in lines:
        for i, t in enumerate(ts):
            if i:
                p = ts[i - 1]
                # in a directive white space can matter (function-like macro, <header>), keep its presence
                need = t[3] or t[2] if directive else glue(p[1], t[1])
                if directive and not need:
                    g = ''
                else:
                    g = gap(need, directive)
                    if directive and not g.strip(' \t\\\n') and not g:
                        g = ' '
                    if need and not (set(g) & set(' \t\n\f\v') or '/*' in g):
                        g += ' '
                    if need and g.replace('\\\n', '') == '':
                        g += ' '
                    # a comment beside a / or a * must not change how it is read
                    if g[:1] == '/' and p[1][-1:] in '/':
                        g = ' ' + g
                out.append(g)
            elif not directive and s.p(density):
                out.append(s.choice(['', ' ', '\n', '  ']))
            out.append(spell(t))
        out.append('\n')
    return ''.join(out), feats


class Macros:
    """rewrites a program with macros that expand to exactly its tokens"""
    def __init__(self, s, text):
        self.s = s
        self.head = [l for l in text.split('\n') if l.startswith('#')]
        text = '\n'.join(l for l in text.split('\n') if not l.startswith('#'))
        self.toks = [(t[0], t[1]) for t in tokens(text)]
        self.defs, self.feats, self.n = [], set(), 0

    def name(self, p='M_'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def join(self, toks):
        out, prev = '', None
        for k, t in toks:
            if prev is not None and (glue(prev, t) or self.s.p(60)):
                out += ' '
            out += t
            prev = t
        return out

    def define(self, name, params, body):
        self.defs.append((name, params, body))

    def simple(self, t):
        return t[0] in ('id', 'num') or t[0] == 'str' or t[0] == 'chr'

    def step(self):
        s = self.s
        T = self.toks
        if len(T) < 4:
            return
        i = s.n(len(T) - 1)
        k = s.n(12)
        t = T[i]
        if k == 0 and t[0] == 'id' and len(t[1]) > 1 and not t[1].startswith('M_'):
            # paste a name together
            c = 1 + s.n(len(t[1]) - 1)
            a, b = t[1][:c], t[1][c:]
            if b[0].isdigit() and not re.match(r'^[0-9][0-9]*$', b):
                return
            m = self.name()
            form = s.n(5)
            if form == 0:
                self.define(m, ['xA', 'yA'], 'xA##yA')
                use = '%s(%s, %s)' % (m, a, b)
            elif form == 1:
                self.define(m, ['xA'], 'xA ## ' + b)
                use = '%s(%s)' % (m, a)
            elif form == 2:
                self.define(m, ['xA'], a + '## xA')
                use = '%s( %s )' % (m, b)
            elif form == 3:
                self.define(m, ['xA', 'yA', 'zA'], 'xA##yA##zA')
                use = '%s(%s,,%s)' % (m, a, b)
            else:
                self.define(m, ['xA', 'yA', 'zA'], 'xA##yA##zA')
                use = s.choice(['%s(,%s,%s)', '%s(%s,%s,)']) % (m, a, b)
            self.feats.add('paste')
            self.toks[i:i + 1] = [('use', use)]
            return
        if k == 1 and t[0] == 'str' and not t[1].startswith('L'):
            # a literal made by stringizing: only where the spelling is unchanged by it
            inner = t[1][1:-1]
            if re.match(r'^[A-Za-z0-9_+*/<>=.;:!%-]+$', inner) and '/*' not in inner and '//' not in inner:
                m = self.name()
                self.define(m, ['x'], '#x')
                self.toks[i] = ('use', '%s( %s )' % (m, inner))
                self.feats.add('stringize')
            return
        if k == 2:
            m = self.name()
            self.define(m, None, '')
            self.toks[i:i] = [('use', m)]
            self.feats.add('empty')
            return
        if k == 3 and t[0] == 'id' and not t[1].startswith('M_') and t[1] not in ('defined',):
            # a function-like macro with the name of a function or variable: not expanded without (, or expanding to itself
            if any(d[0] == t[1] for d in self.defs):
                return
            self.define(t[1], None, t[1])
            self.feats.add('own-name')
            return
        ln = 1 + s.n(s.choice([1, 3, 8, 30]))
        seq = T[i:i + ln]
        m = self.name()
        if s.p(45):
            self.define(m, None, self.join(seq))
            self.toks[i:i + ln] = [('use', m)]
            self.feats.add('object-like')
            return
        # function-like: some of the tokens come through parameters
        params, args, body = [], [], []
        for tk in seq:
            if self.simple(tk) and s.p(40) and len(params) < 6:
                old = [p for p, a in zip(params, args) if a == tk[1]]
                if old and s.p(70):
                    body.append(('id', old[0]))
                    continue
                p = 'p%d_%s' % (len(params), m)
                params.append(p)
                args.append(tk[1])
                body.append(('id', p))
            elif tk[0] == 'use' and s.p(40) and len(params) < 6 and self.balanced(tk[1]):
                p = 'p%d_%s' % (len(params), m)
                params.append(p)
                args.append(tk[1])
                body.append(('id', p))
            else:
                body.append(tk)
        sp = (lambda: s.choice(['', ' ', '', '  ']))
        use = m + s.choice(['', '', ' ']) + '(' + sp() + (',' + sp()).join(args) + sp() + ')'
        self.define(m, params, self.join(body))
        self.toks[i:i + ln] = [('use', use)]
        self.feats.add('function-like')

    def balanced(self, t):
        d = 0
        for x in texts(t):
            d += (x == '(') - (x == ')')
            if d < 0:
                return False
        return d == 0

    def run(self, steps):
        for _ in range(steps):
            self.step()
        lines = []
        for name, params, body in self.defs:
            head = '#define ' + name + ('' if params is None else '(' + ', '.join(params) + ')')
            lines.append(head + (' ' + body if body or self.s.p(50) else ''))
        if self.s.p(50):
            # the order of the definitions does not matter
            j = self.s.n(max(1, len(lines)))
            lines = lines[j:] + lines[:j]
        out, col, prev = [], 0, None
        for k, t in self.toks:
            if prev is not None and glue(prev, t):
                out.append(' ')
            elif prev is not None and col > 100:
                out.append('\n')
                col = 0
            elif prev is not None and self.s.p(30):
                out.append(' ')
            out.append(t)
            col += len(t) + 1
            prev = t
        return '\n'.join(self.head + lines), ''.join(out) + '\n', self.feats


def macroize(s, text, steps):
    """(definitions, program text, features) with the meaning of text"""
    return Macros(s, text).run(steps)
