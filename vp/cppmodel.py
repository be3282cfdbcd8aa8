"""Reference model of macro expansion: Dave Prosser's algorithm over tokens (text, hide set, space before)."""
import re
from . import ctok

MAX = 6000


class Bad(Exception):
    pass


class Tok:
    __slots__ = ('t', 'hs', 'sp')

    def __init__(self, t, hs=frozenset(), sp=False):
        self.t, self.hs, self.sp = t, hs, sp


def lex(text):
    return [Tok(t, frozenset(), nl or ws) for k, t, nl, ws in ctok.tokens(text)]


def stringize(arg):
    out = ''
    for i, k in enumerate(arg):
        if i and k.sp:
            out += ' '
        if re.match(r'''^L?["']''', k.t):
            out += k.t.replace('\\', '\\\\').replace('"', '\\"')
        else:
            out += k.t
    return Tok('"' + out + '"')


def glue(ls, rs):
    a, b = ls[-1], rs[0]
    t = a.t + b.t
    if ctok.texts(t) != [t]:
        raise Bad('invalid paste ' + t)
    return ls[:-1] + [Tok(t, a.hs & b.hs, a.sp)] + rs[1:]


class Model:
    def __init__(self):
        self.m = {}             # name -> (params or None, body tokens)
        self.work = 0

    def define(self, name, params, body):
        self.m[name] = (params, lex(body))

    def expand(self, ts):
        out = []
        ts = list(reversed(ts))
        while ts:
            self.work += 1
            if self.work > MAX:
                raise Bad('too much')
            t = ts.pop()
            d = self.m.get(t.t)
            if d is None or t.t in t.hs:
                out.append(t)
                continue
            params, body = d
            if params is None:
                r = self.subst(body, [], [], t.hs | {t.t})
            else:
                if not ts or ts[-1].t != '(':
                    out.append(t)
                    continue
                args, cur, depth, j = [], [], 0, len(ts) - 2
                while True:
                    if j < 0:
                        raise Bad('unterminated call')
                    k = ts[j]
                    if k.t == ')' and depth == 0:
                        break
                    if k.t == ',' and depth == 0:
                        args.append(cur)
                        cur = []
                    else:
                        depth += (k.t == '(') - (k.t == ')')
                        cur.append(k)
                    j -= 1
                args.append(cur)
                hs = (t.hs & ts[j].hs) | {t.t}
                del ts[j:]
                if not params:
                    if len(args) != 1 or args[0]:
                        raise Bad('arguments')
                    args = []
                if len(args) != len(params):
                    raise Bad('arguments')
                r = self.subst(body, params, args, hs)
            if r:
                r[0] = Tok(r[0].t, r[0].hs, t.sp)
            ts.extend(reversed(r))
        return out

    def subst(self, body, params, args, hs):
        os, i = [], 0
        empty = True            # is the left operand of a coming ## empty?
        paste = False
        while i < len(body):
            t = body[i]
            nxt = body[i + 1] if i + 1 < len(body) else None
            if t.t == '##':
                paste = True
                i += 1
                continue
            if t.t == '#' and nxt is not None and nxt.t in params:
                r = [stringize(args[params.index(nxt.t)])]
                r[0].sp = t.sp
                i += 2
                nxt = body[i] if i < len(body) else None
            elif t.t in params:
                a = args[params.index(t.t)]
                if paste or (nxt is not None and nxt.t == '##'):
                    r = list(a)
                else:
                    r = self.expand(list(a))
                if r:
                    r[0] = Tok(r[0].t, r[0].hs, t.sp)
                i += 1
            else:
                r = [Tok(t.t, t.hs, t.sp)]
                i += 1
            if not paste:
                os += r
                empty = not r
            elif empty:
                os += r
                empty = not r
            elif r:
                os = glue(os, r)
            paste = False
        return [Tok(t.t, t.hs | hs, t.sp) for t in os]
