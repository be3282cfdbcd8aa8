"""C11: macro definitions and calls of every shape, against two preprocessors and a reference model."""
import re
from ..progcheck import ProgCheck, Case, wcc
from .. import ctok, proc
from ..cppmodel import Model, Bad, lex

OPS = ['+', '-', '*', '/', '<', '>', '=', '&', '|', '!', '^', '%', '.', ';', '?', ':', '~', '[', ']', '{', '}', '->', '++', '--', '<<', '>>', '<=', '==', '&&', '||',
       '+=', '<<=', '>>=', '-=']
LITS = ['"s"', "'c'", '"a b"', '"\\n"', "'\\''", '"\\""', '"\\\\"', "'\"'", 'L"w"', "L'w'", '"("', "','", '""', '"//"', '"/*"', '"\\x41"']
NUMS = ['0', '1', '42', '0x1F', '1.5', '.5', '1e5', '1E+3', '7UL', '1.5f', '0777', '3.', '1e-5']
IDS = ['a', 'b', 'c', 'x1', '_u', 'foo', 'E', 'L', 'define', 'if', 'defined', 'include', 'line', 'else', 'int', 'return', 'error', 'pragma']
NAMES = ['F', 'G', 'H', 'I', 'J', 'K', 'O', 'P', 'Q', 'R', 'S', 'T', 'if_', 'b']


class G:
    def __init__(self, s):
        self.s = s
        self.feats = set()
        self.macros = {}        # name -> (params, uses #)
        self.direct = s.p(60)   # stringizing only of arguments written in the text, so that all white space is specified

    def sp(self):
        return self.s.choice(['', '', ' ', '  ', '\t', ' /* , ) */ ']) if self.s.p(40) else ''

    def word(self):
        s = self.s
        return s.weighted([(5, s.choice(IDS)), (3, s.choice(NUMS)), (2, s.choice(LITS)), (4, s.choice(OPS))])

    def join(self, parts):
        """texts with the spaces they need, and some they do not"""
        out = ''
        for p in parts:
            if not p:
                continue
            if out and (ctok.glue(ctok.texts(out)[-1] if ctok.texts(out) else '', ctok.texts(p)[0] if ctok.texts(p) else '') or self.s.p(50)):
                out += self.s.choice([' ', ' ', '  ', '\t', ' /**/'])
            out += p
        return out

    def call(self, name, d, items):
        """a call of a function-like macro with the right number of arguments, usually"""
        s = self.s
        params = self.macros[name][0]
        if params is None:
            return name
        k = s.n(20)
        if k == 19:
            self.feats.add('name-alone')
            return name
        n = len(params)
        args = []
        for i in range(n):
            if s.p(12):
                self.feats.add('empty-argument')
                args.append('')
            elif s.p(12):
                args.append('(' + self.seq(d - 1, items, 3, True) + ')')
                self.feats.add('comma-in-parentheses')
            else:
                args.append(self.seq(d - 1, items, 3, False))
        return name + self.sp() + '(' + self.sp() + (',' + self.sp()).join(args) + self.sp() + ')'

    def seq(self, d, items, n, commas):
        s = self.s
        parts = []
        for _ in range(1 + s.n(n)):
            k = s.n(12)
            if k < 5 or not items or d <= 0:
                parts.append(self.word() if not (items and s.p(20)) else s.choice(items))
            elif k < 10:
                parts.append(self.call(s.choice(items), d, items))
            elif k == 10:
                parts.append('(' + self.seq(d - 1, items, 2, True) + ')')
            elif commas:
                parts.append(',')
            else:
                parts.append(self.word())
        return self.join(parts)

    def body(self, params, names):
        """(text, uses #)"""
        s = self.s
        parts, h = [], False
        for _ in range(s.n(7)):
            k = s.n(16)
            if k < 4 and params:
                parts.append(s.choice(params))
            elif k < 7:
                parts.append(self.word())
            elif k < 10 and names:
                n = s.choice(names)
                ps = self.macros.get(n, (None,))[0]
                if n in self.macros and s.p(70):
                    items = params + [x for x in names if not (self.direct and self.macros.get(x, (0, 0))[1])]
                    if not (self.direct and self.macros[n][1]):
                        if ps is not None:
                            args = [s.choice(params) if params and s.p(60) else self.seq(0, [], 2, False) for _ in ps]
                            parts.append(n + self.sp() + '(' + ', '.join(args) + ')')
                        else:
                            parts.append(n)
                elif not (self.direct and self.macros.get(n, (0, 0))[1]):
                    parts.append(n)
                    self.feats.add('undefined-or-later')
            elif k in (10, 11) and params:
                # stringize: without white space before it
                parts.append(s.choice(['(', '[', '=']) + '#' + s.choice(['', '', ' ']) + s.choice(params) + s.choice([')', ']', ';']))
                h = True
                self.feats.add('stringize')
            elif k in (12, 13, 14):
                # paste names and numbers
                left = s.choice(params) if params and s.p(70) else s.choice(['a', 'x', 'F', 'n_', 'if', 'L'])
                right = s.choice(params) if params and s.p(70) else s.choice(['1', 'b', '_', '22', 'e5'])
                g = s.choice(['##', ' ## ', '## ', ' ##'])
                t = left + g + right
                if s.p(25):
                    t += g + (s.choice(params) if params else '9')
                parts.append(t)
                self.feats.add('paste')
            elif k == 15:
                parts.append(s.choice(['(', ')', ',']))
        if self.direct and h:
            pass
        return self.join(parts), h

    def gen(self):
        s = self.s
        lines = []
        if self.direct:
            self.feats.add('direct')
        pool = [n for n in NAMES]
        n = 2 + s.n(9)
        text_lines = 0
        m = Model()
        for i in range(n + 4 + s.n(14)):
            if i < n or s.p(15):
                name = s.choice(pool)
                if name in self.macros:
                    lines.append('#undef ' + name)
                    del self.macros[name]
                    del m.m[name]
                    if s.p(20):
                        continue
                    self.feats.add('redefined')
                params = None if s.p(35) else ['p', 'q', 'r', 'a', 'L', 'z'][:s.n(5)] if s.p(60) else [['x1'], ['_u', 'foo'], ['if', 'b'], ['define', 'E', 'c']][s.n(4)]
                b, h = self.body(params or [], pool)
                if params is None and '#' in b.replace('##', ''):
                    continue
                head = '#' + s.choice(['', '', ' ', '\t']) + 'define ' + name
                if params is not None:
                    head += '(' + (s.choice([', ', ',', ' , '])).join(params) + ')'
                    self.feats.add('function-like')
                lines.append(head + (s.choice([' ', '  ', ' /* c */ ']) + b if b else ''))
                self.macros[name] = (params, h)
                m.define(name, params, b)
            elif self.macros:
                items = sorted(self.macros)
                # with # in play, macros that stringize are only called from the text, never inside an argument
                if self.direct:
                    inner = [x for x in items if not self.macros[x][1]]
                    parts = []
                    for _ in range(1 + s.n(3)):
                        parts.append(self.call(s.choice(items), 2, inner) if s.p(70) else self.word())
                    t = self.join(parts)
                else:
                    t = self.seq(3, items, 4, True)
                if s.p(15):
                    # a call over several lines
                    ts = t.replace('(', '(\n', 1) if s.p(50) else t.replace(',', '\n,\n')
                    if '\n' in ts and "'" not in t and '"' not in t:
                        self.feats.add('multi-line')
                        t = ts
                if not any(l.lstrip().startswith('#') for l in t.split('\n')):
                    # lines that are not valid (a wrong number of arguments, a paste that is no token) are left out
                    try:
                        m.work = 0
                        m.expand(lex('%s ;' % t))
                    except Bad:
                        continue
                    text_lines += 1
                    lines.append('line_%d: %s ;' % (text_lines, t))
        return Case({'a.c': '\n'.join(lines) + '\n'}, {'direct': self.direct}, sorted(self.feats), len(self.feats) >= 3 and text_lines >= 3)


def model(text):
    """tokens by the reference model; the group of lines between two directives is expanded at once"""
    m = Model()
    out, group = [], []

    def flush():
        out.extend(t.t for t in m.expand(lex('\n'.join(group))))
        group.clear()
    for l in text.split('\n'):
        if l.startswith('#'):
            flush()
            l = l[1:].strip()
            if l.startswith('undef'):
                m.m.pop(l.split()[1], None)
                continue
            r = re.match(r'define\s+([A-Za-z_]\w*)(\([^)]*\))?(.*)$', l, re.S)
            ps = r.group(2)
            m.define(r.group(1), None if ps is None else [p.strip() for p in ps[1:-1].split(',') if p.strip()], r.group(3))
        else:
            group.append(l)
    flush()
    return out


def strip_markers(b):
    return '\n'.join(l for l in b.decode('utf-8', 'surrogateescape').split('\n') if not re.match(r'^#( |$)', l))


def nospace(ts):
    return [re.sub(r'\s+', '', t) if t[:1] in '"L\'' and '"' in t else t for t in ts]


class C11(ProgCheck):
    id = 'C11'
    batch = 14
    quick_chunks = 900
    thorough_chunks = 60000
    rule = ('files with 2 to 15 macro definitions and redefinitions (object-like and function-like; parameters, # and ##, literals, other and own names, unbalanced '
            'parentheses in the replacement) and lines that call them with nested calls, empty arguments, commas in parentheses, comments and line ends inside calls; the '
            'tokens of wcc -E have to be those that gcc and clang agree on, or those of the reference model where the standard leaves nesting open.  Non-trivial: at '
            'least three text lines and three kinds of macro feature')
    assumptions = ['where gcc and clang agree and the reference model differs, either is accepted (nested re-expansion is unspecified)',
                   'white space inside a stringized argument is only compared where the argument was written in the text']

    def gen(self, s):
        return G(s).gen()

    def judge(self, ctx, case, wd, counters=None):
        text = case.files['a.c']
        w = wcc(ctx.wcc, ['-E', 'a.c'], wd)
        g = proc.run(['gcc', '-E', '-P', '-w', '-std=gnu90', '-undef', '-fno-diagnostics-show-caret', 'a.c'], wd)
        if g.rc != 0:
            counters['rejected_by_gcc'] = counters.get('rejected_by_gcc', 0) + 1
            if w.rc < 0 or w.rc not in (0, 1):
                return 'wcc -E ends with %d' % w.rc
            return None
        gt = ctok.texts(g.out.decode('utf-8', 'surrogateescape'))
        if w.rc == 0:
            wt = ctok.texts(strip_markers(w.out))
            if wt == gt:
                return None
            if not case.meta['direct'] and nospace(wt) == nospace(gt):
                return None
        c = proc.run(['clang', '-E', '-P', '-w', '-std=gnu89', '-undef', 'a.c'], wd)
        if c.rc != 0:
            counters['rejected_by_clang'] = counters.get('rejected_by_clang', 0) + 1
            return None
        ct = ctok.texts(c.out.decode('utf-8', 'surrogateescape'))
        if nospace(ct) != nospace(gt):
            counters['gcc_and_clang_differ'] = counters.get('gcc_and_clang_differ', 0) + 1
            return None
        if w.rc != 0:
            try:
                model(text)
            except Bad:
                counters['open_by_the_model'] = counters.get('open_by_the_model', 0) + 1
                return None
            return 'wcc -E rejects it: exit %d %s' % (w.rc, w.err.decode(errors='replace')[-300:])
        try:
            mt = model(text)
        except Bad:
            mt = None
        if mt is not None and nospace(mt) == nospace(wt) and nospace(wt) != nospace(gt):
            counters['unspecified_nesting'] = counters.get('unspecified_nesting', 0) + 1
            return None
        i = next((i for i, (p, q) in enumerate(zip(wt, gt)) if p != q), min(len(wt), len(gt)))
        return 'tokens differ at %d: wcc %r, gcc %r' % (i, ' '.join(wt[max(0, i - 3):i + 8]), ' '.join(gt[max(0, i - 3):i + 8]))


CHECK = C11()
