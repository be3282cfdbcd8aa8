"""C24: the control flow, dataflow and register allocation code computes what its definitions say, on every function."""
import os, re, subprocess
from collections import Counter
from ..engine import Check, ChunkResult, Failure
from .. import proc, wccbuild, pool
from ..src import Src

M64 = (1 << 64) - 1
REGS = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)] + ['xmm%d' % i for i in range(16)]
NUM = {n: i for i, n in enumerate(REGS)}
# register names of every width -> number
for _a, _l in (('a', 0), ('b', 1), ('c', 2), ('d', 3)):
    for _n in ('e%sx' % _a, '%sx' % _a, '%sl' % _a, '%sh' % _a):
        NUM[_n] = _l
for _n, _l in (('esi', 4), ('si', 4), ('sil', 4), ('edi', 5), ('di', 5), ('dil', 5)):
    NUM[_n] = _l
for _i in range(8, 16):
    for _x in 'bwd':
        NUM['r%d%s' % (_i, _x)] = _i
# the order in which live ranges number the registers
LIVE_RANGE = [NUM[x] for x in 'rax rbx rcx rdx rsi rdi r8 r9 r12 r13 r14 r15'.split()] + list(range(16, 32))
CALLER_SAVED = {NUM[x] for x in 'rax rcx rdx rsi rdi r8 r9 r10 r11'.split()} | set(range(16, 32))


# ---------------------------------------------------------------- generator of intermediate representation

def gen_ir(s):
    """instruction lines "label op dst src1 src2" of a random function"""
    feats = set()
    nv = s.choice([1, 2, 3, 5, 8, 13, 18, 30])
    nd = s.choice([0, 0, 0, 2, 18]) if nv < 18 else 0
    nb = 1 + s.n(s.choice([3, 6, 12, 25]))
    initialise = s.p(85)
    temps = [nv + nd]
    lines = ['0 nop - - -']
    ints = ['v%d' % (i + 1) for i in range(nv)]
    dbls = ['d%d' % (i + 1 + nv) for i in range(nd)]

    def temp(t):
        temps[0] += 1
        return '%s%d' % (t, temps[0])
    if initialise:
        for i, x in enumerate(ints + dbls):
            lines.append('0 move %s c%d -' % (x, s.choice([0, 1, 2, 3, 5, -1, i + 2])))
    else:
        feats.add('undefined-variables')
    open_temps = []

    def operand(pool_, no=None):
        for _ in range(4):
            x = s.choice(pool_)
            if x != no:
                return x
        return 'c%d' % s.choice([0, 1, 2, 3, -1, 7])
    dest = []       # label of block
    shape = s.n(4)  # 0: any jumps, 1: mostly forward, 2: mostly loops, 3: diamonds
    kinds = []
    for b in range(nb):
        last = b == nb - 1
        k = 'ret' if last else s.weighted([(4, 'fall'), (4, 'jz'), (4, 'jnz'), (2, 'jmp'), (1 if b else 0, 'ret'), (1, 'ladder')])
        if k in ('fall', 'ret') or last:
            t = None
        elif shape == 1 or (shape == 0 and s.n(2)):
            t = b + 1 + s.n(nb - b - 1)
        elif shape == 2 and b:
            t = 1 + s.n(b)
        elif shape == 3:
            t = min(nb - 1, b + 1 + s.n(3))
        else:
            t = 1 + s.n(nb - 1) if nb > 1 else None
        kinds.append((k, t))
    ladders = {}
    labelled = {t for k, t in kinds if t is not None}
    for b in range(nb):
        k, t = kinds[b]
        need = b in labelled or (b and (kinds[b - 1][0] in ('jmp', 'ret')))
        label = b if (need or (b and s.n(6) == 0)) and b else 0
        body = []
        for _ in range(s.n(7)):
            o = s.n(12)
            if o < 5:
                op = s.choice(['add', 'sub', 'mul', 'and', 'or', 'xor', 'lt', 'eq', 'add', 'sub', 'shl', 'shr', 'div', 'rsub'][:13])
                x = operand(ints)
                y = 'c%d' % s.choice([0, 1, 2, 3, 4, 8, 10, -1]) if s.n(2) else operand(ints, x)
                if op in ('shl', 'shr'):
                    y = 'c%d' % s.n(64)
                    feats.add('shift')
                if op == 'div' and y == 'c0':
                    y = 'c3'
                if x[0] == 'c' and y[0] == 'c':
                    x, y = ints[0], 'c1'
                d = temp('v')
                body.append('%s %s %s %s' % (op, d, x, y))
                if s.n(4) == 0:
                    body.append('out - %s %s' % (d, 'c1'))
                if s.n(5):
                    body.append('move %s %s -' % (s.choice(ints), d))
                    if s.n(3) == 0:
                        body.append('move %s %s -' % (s.choice(ints), d))
                        feats.add('two-copies')
            elif o < 8:
                a, c = s.choice(ints), s.choice(ints)
                if a != c:
                    body.append('move %s %s -' % (a, c))
            elif o == 8:
                body.append('move %s c%d -' % (s.choice(ints), s.n(5)))
            elif o == 9 and dbls:
                a, c = s.choice(dbls), s.choice(dbls)
                if a != c:
                    d = temp('d')
                    body.append('%s %s %s %s' % (s.choice(['add', 'sub', 'mul']), d, a, c))
                    body.append('move %s %s -' % (s.choice(dbls), d))
            elif o == 10 and len(ints) > 2:
                # the parallel copy of a swap or a rotation
                n = 2 + s.n(min(3, len(ints) - 1))
                xs = []
                for _ in range(n):
                    x = s.choice(ints)
                    if x not in xs:
                        xs.append(x)
                d = temp('v')
                body.append('move %s %s -' % (d, xs[0]))
                for p, q in zip(xs, xs[1:]):
                    body.append('move %s %s -' % (p, q))
                body.append('move %s %s -' % (xs[-1], d))
                feats.add('swap')
            else:
                body.append('out - %s c%d' % (s.choice(ints + dbls), s.n(9)))
        if s.n(3) == 0:
            body.append('out - %s c%d' % (s.choice(ints), b))
        first = True
        for x in body:
            lines.append('%d %s' % (label if first else 0, x))
            first = False
        l = label if first else 0
        if k in ('fall',) and t is None:
            if l:
                lines.append('%d nop - - -' % l)
        elif k == 'ret':
            for x in ints[:6] + dbls[:2]:
                lines.append('%d out - %s c0' % (l, x))
                l = 0
            lines.append('%d ret - - -' % l)
        elif t is None:
            lines.append('%d nop - - -' % l)
        elif k == 'jmp':
            lines.append('%d jmp - l%d -' % (l, t))
            if s.n(8) == 0:
                lines.append('0 add %s %s c1' % (temp('v'), ints[0]))
                feats.add('dead-code')
        else:
            d = temp('v')
            lines.append('%d %s %s %s %s' % (l, s.choice(['lt', 'eq', 'and']), d, operand(ints), 'c%d' % s.choice([0, 1, 2, 3, 8])))
            lines[-1] = re.sub(r' (c-?\d+) (c-?\d+)$', lambda m: ' %s %s' % (ints[0], m.group(2)), lines[-1])
            lines.append('0 %s - %s l%d' % ('jz' if k == 'jz' else 'jnz', d, t))
            if k == 'ladder' and b + 1 < nb:
                feats.add('ladder')
                lines.append('0 out - %s c1' % s.choice(ints))
                lines.append('0 jnz - %s l%d' % (d, 1 + s.n(nb - 1) if nb > 1 else t))
                labelled.add(int(lines[-1].split('l')[-1]))
    # labels of ladder targets may have been missed
    have = {int(l.split()[0]) for l in lines}
    want = {int(l.split()[-1][1:]) for l in lines if l.split()[1] in ('jz', 'jnz')} | {int(l.split()[3][1:]) for l in lines if l.split()[1] == 'jmp'}
    out = []
    for l in want - have:
        lines.append('%d nop - - -' % l)
        lines.append('0 ret - - -')
    feats.add('blocks%d' % (nb if nb < 4 else 4 if nb < 10 else 10))
    feats.add('vars%d' % nv)
    if len(lines) > 150:
        feats.add('long')
    return lines, feats, nb


# ---------------------------------------------------------------- parsing of the harness's output

class Val:
    __slots__ = ('v', 'ssa', 'cls', 'preg', 'stack', 'fixed', 'const', 'label', 'text')

    def __init__(self, t):
        self.text = t
        self.v = 0
        self.const = self.label = None
        if t[0] == 'v':
            p = t[1:].split(':')
            self.v, self.ssa, self.cls = int(p[0]), int(p[1]), p[2]
            self.preg, self.stack, self.fixed = int(p[3]), int(p[4]), int(p[5])
        elif t[0] == 'c':
            self.const = int(t[1:])

    def loc(self):
        return ('p', self.preg) if self.preg >= 0 else ('s', self.stack)


class Tac:
    __slots__ = ('label', 'kind', 'op', 'target', 'dst', 'src1', 'src2', 'phi', 'template')

    def __init__(self, line):
        line, _, self.template = line.partition(' | ')
        p = line.split()
        self.label, self.kind, self.op, self.target = int(p[1]), p[2], p[3], int(p[4])
        vs = [None if x == '-' else Val(x) for x in p[5:]]
        self.dst, self.src1, self.src2 = vs[:3]
        self.phi = vs[3:]

    def uses(self):
        return [x for x in (self.src1, self.src2) if x and x.v]

    def d(self):
        return self.dst.v if self.dst and self.dst.v else 0


class Stage:
    def __init__(self, what, name):
        self.what, self.name = what, name
        self.sections = {}
        self.failed = True
        self.text = []

    def parse(self):
        cur = None
        for l in self.text:
            p = l.split(' ')
            if p[0] == 'tacs':
                cur = self.sections[p[1]] = {'tacs': [], 'block': [], 'edge': [], 'ig': set(), 'dom': {}, 'idom': {}, 'df': {}, 'uevar': {}, 'varkill': {}, 'liveout': {}}
            elif p[0] == 't':
                cur['tacs'].append(Tac(l))
            elif p[0] == 'block':
                cur['block'].append((int(p[2]), int(p[3])))
            elif p[0] == 'edge':
                cur['edge'].append((int(p[1]), int(p[2])))
            elif p[0] == 'ig':
                cur['ig'].add((int(p[1]), int(p[2])))
            elif p[0] == 'idom':
                cur['idom'][int(p[1])] = int(p[2])
            elif p[0] in ('dom', 'df', 'uevar', 'varkill', 'liveout'):
                cur[p[0]][int(p[1])] = {int(x) for x in p[2:] if x}
            elif p[0] == 'done':
                self.failed = False


def parse_output(text):
    """stages of each input"""
    res, stages, cur = [], [], None
    for l in text.split('\n'):
        if l.startswith('stage '):
            p = l.split()
            cur = Stage(p[1], p[2])
            stages.append(cur)
        elif l.startswith('finished '):
            res.append(stages)
            stages, cur = [], None
        elif cur:
            cur.text.append(l)
    return res


class Wrong(Exception):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Wrong(msg % args)


# ---------------------------------------------------------------- graph theory by definition

def instruction_successors(tacs):
    at = {}
    for i, t in enumerate(tacs):
        if t.label:
            at.setdefault(t.label, i)
    succ = []
    for i, t in enumerate(tacs):
        s = []
        if t.kind in 'Jj':
            need(t.target in at, 'jump to label %d, which is nowhere', t.target)
            s.append(at[t.target])
        if t.kind not in 'jR' and i + 1 < len(tacs):
            s.append(i + 1)
        succ.append(s)
    return succ


def reach(succ, start, without=None):
    seen, todo = set(), [start]
    if start == without:
        return seen
    seen.add(start)
    while todo:
        for m in succ[todo.pop()]:
            if m not in seen and m != without:
                seen.add(m)
                todo.append(m)
    return seen


class Flow:
    """the control flow graph of a list of instructions, after checking that the compiler's blocks and edges are right"""

    def __init__(self, sec, stage):
        tacs = sec['tacs']
        self.tacs, self.blocks = tacs, sec['block']
        isucc = instruction_successors(tacs)
        n = len(self.blocks)
        pos = 0
        starts = {}
        for b, (x, y) in enumerate(self.blocks):
            need(x == pos and y >= x, '%s: block %d covers instructions %d to %d, expected to start at %d', stage, b, x, y, pos)
            pos = y + 1
            starts[x] = b
        need(pos == len(tacs), '%s: the blocks end at instruction %d of %d', stage, pos, len(tacs))
        edges = []
        dead_tail = set()
        for b, (x, y) in enumerate(self.blocks):
            out = None
            for i in range(x, y + 1):
                t = tacs[i]
                if i > x:
                    need(not t.label, '%s: label %d inside block %d', stage, t.label, b)
                if t.kind in 'JjR' and i < y:
                    need(t.kind != 'J', '%s: conditional jump %d inside block %d', stage, i, b)
                    if out is None:
                        out = isucc[i]
                        dead_tail.add(b)
            if out is None:
                out = isucc[y]
            for m in out:
                need(m in starts, '%s: instruction %d is jumped to, but starts no block', stage, m)
                edges.append((b, starts[m]))
        self.n = n
        self.edges = edges
        got = Counter(sec['edge'])
        want = Counter(edges)
        for e in want - got:
            need(False, '%s: the control flow graph misses the edge %d -> %d', stage, *e)
        for e in got - want:
            # instructions after a return in the same block: the compiler may take them for reachable
            need(e[0] in dead_tail or tacs[self.blocks[e[0]][1]].kind == 'R', '%s: the control flow graph has a wrong edge %d -> %d', stage, *e)
            edges.append(e)
        self.exact = not (got - want)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for a, b in edges:
            self.succ[a].append(b)
            self.pred[b].append(a)
        self.reachable = reach(self.succ, 0)

    def insts(self, b):
        x, y = self.blocks[b]
        return self.tacs[x:y + 1]

    def dominators(self):
        dom = {b: {b} for b in self.reachable}
        for d in self.reachable:
            left = reach(self.succ, 0, without=d)
            for b in self.reachable - left:
                dom[b].add(d)
        return dom

    def liveness(self):
        """uevar, varkill and liveout by walking back from every upward exposed use"""
        n = self.n
        ue, kill = [], []
        for b in range(n):
            u, k = set(), set()
            for t in self.insts(b):
                for x in t.uses():
                    if x.v not in k:
                        u.add(x.v)
                if t.d():
                    k.add(t.d())
            ue.append(u)
            kill.append(k)
        out = [set() for _ in range(n)]
        for b in range(n):
            for v in ue[b]:
                todo, seen = [b], {b}
                while todo:
                    c = todo.pop()
                    for p in self.pred[c]:
                        out[p].add(v)
                        if v not in kill[p] and p not in seen:
                            seen.add(p)
                            todo.append(p)
        return ue, kill, out


def check_sets(sec, flow, stage):
    ue, kill, out = flow.liveness()
    for b in range(flow.n):
        for name, want in (('uevar', ue[b]), ('varkill', kill[b]), ('liveout', out[b])):
            got = sec[name].get(b)
            need(got == want, '%s: %s of block %d is %s, by definition it is %s', stage, name, b, sorted(got or []), sorted(want))
    return out


def check_dominance(sec, flow):
    dom = flow.dominators()
    R = flow.reachable
    idom = {}
    for b in R:
        strict = dom[b] - {b}
        want = -1
        for d in strict:
            if strict == dom[d]:
                want = d
        idom[b] = want
        need(sec['idom'].get(b) == want, 'the immediate dominator of block %d is %s, expected %d', b, sec['idom'].get(b), want)
        if len(R) == flow.n:
            need(sec['dom'].get(b) == dom[b], 'the dominators of block %d are %s, expected %s', b, sorted(sec['dom'].get(b) or []), sorted(dom[b]))
    df = {b: set() for b in R}
    for m in R:
        for p in flow.pred[m]:
            if p in R:
                for b in dom[p]:
                    if b == m or b not in dom[m]:
                        df[b].add(m)
    for b in R:
        need(sec['df'].get(b) == df[b], 'the dominance frontier of block %d is %s, expected %s', b, sorted(sec['df'].get(b) or []), sorted(df[b]))
    return dom, idom, df


def check_ssa(sec, flow0, dom, idom, df, strict):
    flow = Flow(sec, 'ssa')
    need(flow.n == flow0.n, 'the number of blocks changes from %d to %d', flow0.n, flow.n)
    R = flow.reachable
    # placement
    ue, kill, out = flow0.liveness()
    defs = {}
    for b in range(flow0.n):
        for v in kill[b]:
            defs.setdefault(v, set()).add(b)
    globs = set().union(*ue) if ue else set()
    phis = [set() for _ in range(flow.n)]
    plain = []
    for b in range(flow.n):
        body = False
        for t in flow.insts(b):
            if t.op == 'phi':
                need(not body, 'a phi function after other instructions in block %d', b)
                need(t.d() not in phis[b], 'two phi functions for vreg %d in block %d', t.d(), b)
                phis[b].add(t.d())
                need(len(t.phi) == len(flow.pred[b]), 'the phi function for vreg %d in block %d has %d operands, the block has %d predecessors', t.d(), b, len(t.phi), len(flow.pred[b]))
            else:
                body = True
                plain.append(t)
    need(len(plain) == len(flow0.tacs), 'the number of instructions changes')
    for v, ds in defs.items():
        idf, todo = set(), list(ds)
        while todo:
            x = todo.pop()
            for m in (df[x] if x in R else flow0.succ[x]):
                if m not in idf:
                    idf.add(m)
                    todo.append(m)
        idf_reachable, todo = set(), [x for x in ds if x in R]
        while todo:
            for m in df[todo.pop()]:
                if m not in idf_reachable:
                    idf_reachable.add(m)
                    todo.append(m)
        for b in R:
            if v in phis[b]:
                need(b in idf, 'block %d has a phi function for vreg %d, which needs none there', b, v)
            elif b in idf_reachable and v in globs:
                livein = v in ue[b] or (v in out[b] and v not in kill[b])
                need(not livein, 'block %d lacks a phi function for vreg %d', b, v)
    if not strict:
        # the parser's conditional expressions share operands between instructions, so names are not unique
        return
    # renaming: at every use, the name is the one that reaches it
    defined = {}
    order = sorted(R, key=lambda b: len(dom[b]))
    atend = {}
    for b in order:
        names = dict(atend[idom[b]]) if idom[b] >= 0 else {}
        for i, t in enumerate(flow.insts(b)):
            if t.op != 'phi':
                for x in t.uses():
                    if x.v in names:
                        need(x.ssa == names[x.v], 'block %d, instruction %d uses %d_%d, the definition that reaches it is %d_%d', b, i, x.v, x.ssa, x.v, names[x.v])
                    else:
                        defined.setdefault(('use', x.v), set()).add(x.ssa)
            if t.d():
                key = (t.d(), t.dst.ssa)
                need(key not in defined, '%d_%d is defined twice', *key)
                need(t.dst.ssa >= 0, 'a definition of vreg %d has no name', t.d())
                defined[key] = 1
                names[t.d()] = t.dst.ssa
        atend[b] = names
    for key, ss in defined.items():
        if key[0] == 'use':
            for x in ss:
                need((key[1], x) not in defined, 'a use that no definition reaches gets the name %d_%d', key[1], x)
    for b in R:
        for t in flow.insts(b):
            if t.op == 'phi':
                want = Counter()
                unknown = 0
                for p in flow.pred[b]:
                    if p in R and t.d() in atend[p]:
                        want[atend[p][t.d()]] += 1
                    else:
                        unknown += 1
                got = Counter(x.ssa for x in t.phi)
                rest = got - want
                need(not (want - got), 'the phi function for vreg %d in block %d has the operands %s, the predecessors give %s', t.d(), b, sorted(got.elements()), sorted(want.elements()))
                need(sum(rest.values()) == unknown, 'wrong phi operands for vreg %d in block %d', t.d(), b)
                for x in rest:
                    need((t.d(), x) not in defined, 'the phi function for vreg %d in block %d has the operand %d, whose definition does not reach it', t.d(), b, x)


def reaching(flow, tacs):
    """for every operand in reachable code, the instructions whose definition of it may reach it (-1: none)"""
    ue = [set() for _ in range(flow.n)]
    last = [{} for _ in range(flow.n)]
    for b in range(flow.n):
        x, y = flow.blocks[b]
        for i in range(x, y + 1):
            for u in tacs[i].uses():
                if u.v not in last[b]:
                    ue[b].add(u.v)
            if tacs[i].d():
                last[b][tacs[i].d()] = i
    at = {}
    for b in flow.reachable:
        for v in ue[b]:
            found, todo, seen = set(), [b], {b}
            while todo:
                c = todo.pop()
                if c == 0:
                    found.add(-1)
                for p in flow.pred[c]:
                    if p not in flow.reachable:
                        continue
                    if v in last[p]:
                        found.add(last[p][v])
                    elif p not in seen:
                        seen.add(p)
                        todo.append(p)
            at[b, v] = found
    res = {}
    for b in flow.reachable:
        x, y = flow.blocks[b]
        cur = {}
        for i in range(x, y + 1):
            for j, u in enumerate((tacs[i].src1, tacs[i].src2)):
                if u and u.v:
                    res[i, j] = {cur[u.v]} if u.v in cur else at[b, u.v]
            if tacs[i].d():
                cur[tacs[i].d()] = i
    return res


def check_reaching(flow, after, stage):
    tacs = after['tacs']
    need(len(tacs) == len(flow.tacs), 'leaving SSA changes the number of instructions')
    a = reaching(flow, flow.tacs)
    b = reaching(flow, tacs)
    need(a.keys() == b.keys(), 'leaving SSA changes operands')
    for k in a:
        need(a[k] - {-1} == b[k] - {-1}, 'the definitions of operand %d of instruction %d change from %s to %s', k[1], k[0], sorted(a[k]), sorted(b[k]))


# ---------------------------------------------------------------- execution

def fold(op, a, b):
    if op == 'add':
        return (a + b) & M64
    if op == 'sub':
        return (a - b) & M64
    if op == 'mul':
        return (a * b) & M64
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'eq':
        return int(a == b)
    sa, sb = (x - (1 << 64) if x >> 63 else x for x in (a, b))
    if op == 'lt':
        return int(sa < sb)
    if op == 'shl':
        return (a << (b & 63)) & M64
    if op == 'shr':
        return a >> (b & 63)
    if op == 'div':
        if sb == 0:
            return 0
        q = abs(sa) // abs(sb)
        return (q if (sa < 0) == (sb < 0) else -q) & M64
    raise Wrong('unexpected operation ' + op)


def execute(tacs, where, limit=1500):
    """the outputs and branches of a run; None for a value that was never written"""
    succ = instruction_successors(tacs)
    env, trace, pc, steps = {}, [], 0, 0

    def get(x):
        if x.const is not None:
            return x.const & M64
        return env.get(where(x))
    while pc is not None and steps < limit:
        steps += 1
        t = tacs[pc]
        nxt = pc + 1 if pc + 1 < len(tacs) else None
        if t.op in ('nop', 'loop', 'endloop', 'phi'):
            pass
        elif t.kind == 'M':
            env[where(t.dst)] = get(t.src1)
        elif t.op == 'out':
            trace.append((get(t.src1), get(t.src2)))
        elif t.kind == 'J':
            v = get(t.src1)
            take = (v == 0) == (t.op == 'jz')
            trace.append(take)
            nxt = succ[pc][0] if take else nxt
        elif t.kind == 'j':
            nxt = succ[pc][0]
        elif t.kind == 'R':
            trace.append('ret')
            nxt = None
        elif t.dst and t.dst.v:
            a, b = get(t.src1), get(t.src2)
            env[where(t.dst)] = None if a is None or b is None else fold(t.op, a, b)
        pc = nxt
    return trace


def same_trace(a, b):
    """undefined values in the first may be anything in the second, up to a branch on one"""
    for x, y in zip(a, b):
        if isinstance(x, tuple) and isinstance(y, tuple):
            for p, q in zip(x, y):
                if p is not None and p != q:
                    return False
        elif x != y:
            return False
    return True


# ---------------------------------------------------------------- register allocation

EXPLICIT = re.compile(r'%%(\w+)')


def clobbers(t):
    """(registers read, registers written) by what the instruction does besides its operands"""
    tp = t.template
    if not tp:
        return (), ()
    if t.kind == 'C' or tp.startswith('call'):
        return (), tuple(CALLER_SAVED)
    name, _, args = tp.strip().partition(' ')
    if name in ('cltd', 'cqto'):
        return (0,), (3,)
    if name in ('idivl', 'idivq', 'divl', 'divq', 'idivw', 'idivb', 'divb', 'divw'):
        return (0, 3), (0, 3)
    rd, wr = [], []
    ops = [x.strip() for x in args.split(',')]
    for i, x in enumerate(ops):
        for m in EXPLICIT.finditer(x):
            r = NUM.get(m.group(1))
            if r is None:
                continue
            if i == len(ops) - 1 and len(ops) > 1 and x.startswith('%%') and not name.startswith(('cmp', 'test')):
                wr.append(r)
                if not name.startswith(('mov', 'lea', 'cvt', 'set')):
                    rd.append(r)
            elif name.startswith('set') or name.startswith('pop'):
                wr.append(r)
            else:
                rd.append(r)
    return tuple(rd), tuple(wr)


def check_allocation(before, after, flow, feats):
    """no two values live at the same time share a place; registers instructions use implicitly hold nothing live"""
    ue, kill, out = flow.liveness()
    loc, cls = {}, {}
    need(len(before) == len(after), 'register allocation changes the number of instructions')
    defined, fixed = set(), {}
    for t, u in zip(before, after):
        for x, y in ((t.dst, u.dst), (t.src1, u.src1), (t.src2, u.src2)):
            if x and x.v:
                need(y is not None and y.v == x.v, 'register allocation changes a virtual register')
                l = y.loc()
                need(l != ('s', 0), 'vreg %d has neither a register nor a stack slot', x.v)
                need(loc.setdefault(x.v, l) == l, 'vreg %d is in %s and in %s', x.v, loc[x.v], l)
                if l[0] == 'p':
                    need((l[1] >= 16) == (x.cls == 's'), 'vreg %d of class %s is in register %s', x.v, x.cls, REGS[l[1]])
                    need(l[1] not in (6, 7, 10, 11), 'vreg %d is in the reserved register %s', x.v, REGS[l[1]])
                else:
                    feats.add('spilled')
                cls[x.v] = x.cls
                if x.fixed:
                    fixed[x.v] = LIVE_RANGE[x.fixed - 1]
                    need(l == ('p', LIVE_RANGE[x.fixed - 1]), 'vreg %d must be in %s and is in %s', x.v, REGS[LIVE_RANGE[x.fixed - 1]], l)
        if t.d():
            defined.add(t.d())

    def nm(l):
        return REGS[l[1]] if l[0] == 'p' else 'stack slot %d' % l[1]
    for b in range(flow.n):
        x, y = flow.blocks[b]
        live = set(out[b])
        pending = {}
        for i in range(y, x - 1, -1):
            t = before[i]
            d = t.d()
            rd, wr = clobbers(t)
            if d:
                feats.add('defs')
                for w in live:
                    if w == d or loc[w] != loc[d]:
                        continue
                    if t.kind == 'M' and t.src1 and t.src1.v == w:
                        continue
                    need(False, 'vreg %d and vreg %d are live at the same time after instruction %d and are both in %s (%s)', d, w, i, nm(loc[d]), t.template)
                if loc[d][0] == 'p' and loc[d][1] in pending:
                    need(loc[d][1] in wr, 'instruction %d (%s) writes %s, which instruction %d uses implicitly', i, t.template, nm(loc[d]), pending[loc[d][1]])
            for w in live:
                if w != d and loc[w][0] == 'p' and loc[w][1] in wr and not (w in fixed and w not in defined):
                    need(False, 'instruction %d (%s) destroys %s, which holds vreg %d', i, t.template or 'call', nm(loc[w]), w)
            if wr:
                feats.add('call' if t.kind == 'C' else 'implicit-registers')
            for r in wr:
                pending.pop(r, None)
            for r in rd:
                pending[r] = i
            live.discard(d)
            for u in t.uses():
                live.add(u.v)
    return loc


def check_interference(sec, flow):
    ue, kill, out = flow.liveness()
    cls = {}
    for t in sec['tacs']:
        for x in (t.dst, t.src1, t.src2):
            if x and x.v:
                cls[x.v] = x.cls
    ig = sec['ig']
    for b in range(flow.n):
        x, y = flow.blocks[b]
        live = set(out[b])
        for i in range(y, x - 1, -1):
            t = sec['tacs'][i]
            d = t.d()
            if d:
                for w in live:
                    if w != d and cls[w] == cls[d] and not (t.kind == 'M' and t.src1 and t.src1.v == w):
                        need((min(w, d), max(w, d)) in ig, 'vregs %d and %d are live at the same time after instruction %d, the interference graph has no edge', d, w, i)
            live.discard(d)
            for u in t.uses():
                live.add(u.v)


def vreg(x):
    return x.v


def location(x):
    return x.loc()


def judge_ir(stages, feats):
    need(len(stages) == 2, 'the analyses give no answer')
    for s in stages:
        s.parse()
        if s.failed:
            raise Wrong('the %s stage fails: %s' % (s.what, ' '.join(s.text[-3:])[-300:]))
    a, b = stages[0].sections, stages[1].sections
    flow = judge_ssa(a, feats, True)
    want = execute(a['start']['tacs'], vreg)
    feats.add('runs-long' if len(want) > 20 else 'runs-short')
    got = execute(a['ranges']['tacs'], vreg)
    need(same_trace(want, got), 'leaving SSA changes what the function does')
    c = b['coalesced']
    flow = Flow(c, 'coalesced')
    got = execute(c['tacs'], vreg)
    need(same_trace(want, got), 'coalescing changes what the function does')
    if any(x.op == 'nop' and y.op != 'nop' for x, y in zip(c['tacs'], a['start']['tacs'])):
        feats.add('coalesced')
    check_sets_superset(c, flow)
    check_interference(c, flow)
    check_allocation(c['tacs'], b['allocated']['tacs'], flow, feats)
    got = execute(b['allocated']['tacs'], location)
    need(same_trace(want, got), 'register allocation changes what the function does')


def check_sets_superset(sec, flow):
    """after coalescing, the live sets may only be too large"""
    ue, kill, out = flow.liveness()
    for b in range(flow.n):
        missing = out[b] - sec['liveout'].get(b, set())
        need(not missing, 'after coalescing, vregs %s are live at the end of block %d and are not in the set', sorted(missing), b)


def judge_ssa(a, feats, strict):
    sec = a['start']
    flow = Flow(sec, 'start')
    if len(flow.reachable) < flow.n:
        feats.add('unreachable-blocks')
    dom, idom, df = check_dominance(sec, flow)
    if any(b in df[b] for b in df):
        feats.add('loops')
    check_sets(sec, flow, 'start')
    check_ssa(a['ssa'], flow, dom, idom, df, strict)
    check_reaching(flow, a['ranges'], 'start')
    if any(t.op == 'phi' for t in a['ssa']['tacs']):
        feats.add('phi')
    return flow


MAX_BLOCKS, MAX_TACS = 150, 4000


def judge_c(stages, feats, counters):
    for s in stages:
        s.parse()
        if s.failed:
            raise Wrong('function %s: the %s stage fails: %s' % (s.name, s.what, ' '.join(s.text[-3:])[-300:]))
        try:
            if s.what == 'ssa':
                sec = s.sections['start']
                if len(sec['block']) <= MAX_BLOCKS and len(sec['tacs']) <= MAX_TACS:
                    counters['functions analysed'] += 1
                    judge_ssa(s.sections, feats, False)
            else:
                sec = s.sections['selected']
                if len(sec['tacs']) <= 3 * MAX_TACS:
                    counters['functions allocated'] += 1
                    flow = Flow(sec, 'selected')
                    check_sets_superset(sec, flow)
                    check_allocation(sec['tacs'], s.sections['allocated']['tacs'], flow, feats)
        except Wrong as e:
            raise Wrong('function %s, %s stage: %s' % (s.name, s.what, e))


OPTIONS = [[], [], [], ['no-coalescing'], ['spill-short'], ['furthest'], ['no-renumbering'], ['pic']]


class Analyses(Check):
    id = 'C24'
    builds = ('plain',)
    quick_chunks = 900
    thorough_chunks = 30000
    batch = 12
    rule = ('three kinds of chunk: random intermediate representation (up to 25 blocks of any control flow, up to 30 variables, copies, swaps, shifts, loops, unreachable blocks), '
            'and C functions of the program generators; the compiler\'s own analyses run on them in process and every result is compared with its definition. Non-trivial: at least three blocks; distinct by function')
    assumptions = ['the intermediate representation follows the parser\'s rule that operations write fresh temporaries and only moves write variables',
                   'functions of more than %d blocks are only checked after register allocation' % MAX_BLOCKS]

    def setup(self, ctx):
        d = ctx.dirs['plain']
        ctx.exe = os.path.join(ctx.tmp, 'analyses')
        rt = os.path.join(wccbuild.VERIF, 'rt', 'analyses.c')
        r = subprocess.run(['gcc', '-g', '-O1', '-w', '-I', d, rt, os.path.join(d, 'libwcc.a'), '-o', ctx.exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise wccbuild.BuildError('the analyses harness does not build:\n' + r.stdout.decode(errors='replace')[-2000:])

    def make(self, src):
        """(kind, options, text, features, non-trivial)"""
        if src.n(10) < 8:
            opts = src.choice(OPTIONS[:6])
            lines, feats, nb = gen_ir(src)
            return 'ir', opts, '\n'.join(lines), feats, nb >= 3, src.rec
        opts = src.choice(OPTIONS)
        text, feats = pool.program(src, 2)
        return 'c', opts, text, feats | {'c-program'}, True, src.rec

    def run(self, ctx, opts, cases):
        d = ctx.workdir()
        inp = []
        for i, (kind, text) in enumerate(cases):
            if kind == 'ir':
                inp.append('ir %d\n%s\nend\n' % (i, text))
            else:
                f = os.path.join(d, 'f%d' % i)
                with open(f + '.c', 'w') as o:
                    o.write(text)
                r = proc.run([ctx.wcc, '-E', f + '.c', '-o', f + '.i'], d, timeout=60)
                inp.append('c %s.i\n' % f)
        r = proc.run([ctx.exe] + opts, d, inp=''.join(inp).encode(), cpu=120, timeout=150, mem_mb=0)
        return parse_output(r.out.decode('utf-8', 'replace')), r

    def judge(self, ctx, kind, stages, feats, counters):
        try:
            if kind == 'ir':
                judge_ir(stages, feats)
            else:
                judge_c(stages, feats, counters)
        except Wrong as e:
            return str(e)
        return None

    def one(self, ctx, kind, opts, text):
        res, r = self.run(ctx, opts, [(kind, text)])
        if not res:
            if kind == 'c':
                return None
            return 'the analyses give no answer (status %s): %s' % (r.rc, r.err.decode('utf-8', 'replace')[-300:])
        s = self.judge(ctx, kind, res[0], set(), Counter())
        return s and '%s\n%s\n%s' % (s, ' '.join(opts), text[:3000])

    def fails(self, ctx, choices):
        kind, opts, text, feats, nt, rec = self.make(Src(choices=choices))
        s = self.one(ctx, kind, opts, text)
        return (Failure(rec, s, {'kind': kind, 'opts': opts, 'text': text}) if s else None), rec

    def replay(self, ctx, data):
        return self.one(ctx, data['kind'], data['opts'], data['text'])

    def chunk(self, ctx, k):
        r = ChunkResult()
        groups = {}
        for i in range(self.batch):
            c = self.make(ctx.src(k, i))
            groups.setdefault(tuple(c[1]), []).append(c)
        for opts, cases in groups.items():
            res, _ = self.run(ctx, list(opts), [(c[0], c[2]) for c in cases])
            for j, c in enumerate(cases):
                kind, _, text, feats, nt, rec = c
                r.evals += 1
                if j < len(res):
                    s = self.judge(ctx, kind, res[j], feats, r.counters)
                else:
                    s = 'no answer'
                for f in feats:
                    r.counters['f:' + f] += 1
                if nt:
                    r.nontrivial(text)
                if k == 0 and len(r.samples) < 3:
                    r.samples.append(text[:1500])
                if s:
                    s = self.one(ctx, kind, list(opts), text)
                    if s:
                        r.failures.append(Failure(rec, s, {'kind': kind, 'opts': list(opts), 'text': text}))
        return r


CHECK = Analyses()
