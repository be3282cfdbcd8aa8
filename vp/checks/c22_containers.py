"""C22: the container types behave as the mathematical structures they implement, after every history."""
import os, subprocess
from ..engine import Check, ChunkResult, Failure
from ..src import Src
from .. import proc, wccbuild

SLOTS = 6


class H:
    """a history: operation lines and what each has to print"""

    def __init__(self, s):
        self.s = s
        self.lines, self.expect = [], []
        self.feats = set()

    def op(self, line, expect=''):
        self.lines.append(line)
        self.expect.append(expect.rstrip())

    def key_pool(self):
        s = self.s
        k = s.n(5)
        n = s.choice([4, 12, 40, 150])
        if k == 0:
            return [i * 16 for i in range(n)]
        if k == 1:
            return [i * 64 - 1 for i in range(n // 2 + 1)] + list(range(n // 2))
        if k == 2:
            return [(-1) ** i * (i * 7919) for i in range(n)]
        if k == 3:
            return [s.bits(31) - (1 << 30) for _ in range(n)]
        return list(range(n))

    # -- Set
    def set_(self):
        s = self.s
        mx = s.choice([0, 1, 5, 30, 300])
        m = [set() for _ in range(SLOTS)]
        for i in range(SLOTS):
            self.op('set new %d %d' % (i, mx))
        for _ in range(self.length()):
            a, b, c = s.n(SLOTS), s.n(SLOTS), s.n(SLOTS)
            v = s.n(mx + 1)
            k = s.n(20)
            if k < 6:
                m[a].add(v); self.op('set add %d %d' % (a, v))
            elif k < 8:
                m[a].discard(v); self.op('set del %d %d' % (a, v))
            elif k == 8:
                self.op('set in %d %d' % (a, v), '%d' % (v in m[a]))
            elif k == 9:
                self.op('set len %d' % a, '%d' % len(m[a]))
            elif k == 10:
                self.op('set eq %d %d' % (a, b), '%d' % (m[a] == m[b]))
            elif k == 11 and s.n(3) == 0:
                m[a] = set(); self.op('set empty %d' % a)
            elif k == 12:
                m[a] = set(m[b]); self.op('set %s %d %d' % (s.choice(['copy', 'copyto']), a, b))
            elif k == 13:
                m[a] = m[b] | m[c]; self.op('set %s %d %d %d' % (s.choice(['union', 'unionto']), a, b, c))
            elif k == 14:
                m[a] = m[b] & m[c]; self.op('set %s %d %d %d' % (s.choice(['inter', 'interto']), a, b, c))
            elif k == 15:
                m[a] = m[b] - m[c]; self.op('set %s %d %d %d' % (s.choice(['diff', 'diffto']), a, b, c))
            elif k == 16:
                self.op('set print %d' % a, '{%s}' % ', '.join(str(x) for x in sorted(m[a])))
            else:
                self.op('set cache %d' % a, ' '.join(str(x) for x in sorted(m[a])))
        for i in range(SLOTS):
            self.op('set cache %d' % i, ' '.join(str(x) for x in sorted(m[i])))

    def length(self):
        return self.s.choice([10, 40, 40, 150, 600])

    # -- LongSet
    def lset(self):
        s = self.s
        keys = self.key_pool()
        m = [set() for _ in range(SLOTS)]
        for i in range(SLOTS):
            self.op('lset new %d' % i)
        bias = 4 + s.n(8)
        slots = 1 + s.n(SLOTS)
        for _ in range(self.length()):
            a, b, c = s.n(slots), s.n(slots), s.n(slots)
            v = s.choice(keys)
            k = s.n(26)
            if k < bias:
                m[a].add(v); self.op('lset add %d %d' % (a, v))
            elif k < 14:
                m[a].discard(v); self.op('lset del %d %d' % (a, v))
            elif k < 17:
                self.op('lset in %d %d' % (a, v), '%d' % (v in m[a]))
            elif k == 17:
                self.op('lset len %d' % a, '%d' % len(m[a]))
            elif k == 18:
                self.op('lset eq %d %d' % (a, b), '%d' % (m[a] == m[b]))
            elif k == 19 and s.n(3) == 0:
                m[a] = set(); self.op('lset empty %d' % a)
            elif k == 20 and s.n(2) == 0:
                m[a] = set(m[b]); self.op('lset copy %d %d' % (a, b))
            elif k == 21 and s.n(2) == 0:
                m[a] = m[b] | m[c]; self.op('lset union %d %d %d' % (a, b, c))
            elif k == 22 and s.n(3) == 0:
                m[a] = m[b] & m[c]; self.op('lset inter %d %d %d' % (a, b, c))
            elif k == 23:
                self.op('lset iter %d' % a, ' '.join(str(x) for x in sorted(m[a])))
            elif k == 24 and s.n(2) == 0:
                d = 2 + s.n(6)
                m[a] = {x for x in m[a] if x % d}; self.op('lset prune %d %d' % (a, d))
                self.feats.add('delete-while-iterating')
            else:
                self.op('lset in %d %d' % (a, v), '%d' % (v in m[a]))
        for i in range(SLOTS):
            self.op('lset iter %d' % i, ' '.join(str(x) for x in sorted(m[i])))
            self.op('lset len %d' % i, '%d' % len(m[i]))

    # -- LongMap
    def lmap(self):
        s = self.s
        keys = self.key_pool()
        m = [{} for _ in range(SLOTS)]
        hf = s.choice([0, 0, 1, 2, 3, 4])
        self.feats.add('hash%d' % hf)
        for i in range(SLOTS):
            self.op('lmap new %d %d' % (i, hf))
        bias = 5 + s.n(10)
        slots = 1 + s.n(SLOTS)
        for _ in range(self.length()):
            a, b = s.n(slots), s.n(slots)
            k = s.n(24)
            key = s.choice(keys)
            if k < bias:
                v = 1 + s.n(1000)
                m[a][key] = v; self.op('lmap put %d %d %d' % (a, key, v))
            elif k < 16:
                m[a].pop(key, None); self.op('lmap del %d %d' % (a, key))
            elif k < 20:
                self.op('lmap get %d %d' % (a, key), '%d' % m[a].get(key, 0))
            elif k == 20 and s.n(4) == 0:
                m[a] = {}; self.op('lmap empty %d' % a)
            elif k == 21 and s.n(2) == 0:
                m[a] = dict(m[b]); self.op('lmap copy %d %d' % (a, b))
            elif k == 22:
                self.op('lmap keys %d' % a, ' '.join(str(x) for x in sorted(m[a])))
            else:
                self.lmap_iter(m, a)
        for i in range(SLOTS):
            self.lmap_iter(m, i)
            for key in keys[:30]:
                self.op('lmap get %d %d' % (i, key), '%d' % m[i].get(key, 0))

    def lmap_iter(self, m, a):
        ks = sorted(m[a])
        self.op('lmap iter %d' % a, ''.join('%d ' % x for x in ks) + ''.join(':%d' % m[a][x] for x in ks))

    # -- strings
    def strings(self):
        s = self.s
        n = s.choice([4, 12, 40, 150])
        k = s.n(3)
        if k == 0:
            return [b'k%d' % i for i in range(n)]
        if k == 1:
            return [bytes(1 + s.n(255) for _ in range(s.n(6))) for _ in range(n)]
        return [b'prefix_' * s.n(3) + bytes([97 + i % 26]) * (i // 26 + 1) for i in range(n)]

    def strmap(self):
        s = self.s
        keys = self.strings()
        m = [{} for _ in range(SLOTS)]
        for i in range(SLOTS):
            self.op('strmap new %d' % i)
        bias = 5 + s.n(10)
        slots = 1 + s.n(SLOTS)

        def it(a):
            self.op('strmap iter %d' % a, ' '.join('x%s:%d' % (x.hex(), m[a][x]) for x in sorted(m[a])))
        for _ in range(self.length()):
            a = s.n(slots)
            key = s.choice(keys)
            k = s.n(22)
            if k < bias:
                v = 1 + s.n(1000)
                m[a][key] = v; self.op('strmap put %d x%s %d' % (a, key.hex(), v))
            elif k < 16:
                m[a].pop(key, None); self.op('strmap del %d x%s' % (a, key.hex()))
            elif k < 20:
                self.op('strmap get %d x%s' % (a, key.hex()), '%d' % m[a].get(key, 0))
            else:
                it(a)
        for i in range(SLOTS):
            it(i)
            for key in keys[:30]:
                self.op('strmap get %d x%s' % (i, key.hex()), '%d' % m[i].get(key, 0))

    def strset(self):
        s = self.s
        keys = self.strings()
        m = [set() for _ in range(SLOTS)]
        for i in range(SLOTS):
            self.op('strset new %d' % i)

        def it(a):
            self.op('strset iter %d' % a, ' '.join('x%s:1' % x.hex() for x in sorted(m[a])))
        for _ in range(self.length()):
            a, b, c = s.n(SLOTS), s.n(SLOTS), s.n(SLOTS)
            key = s.choice(keys)
            k = s.n(20)
            if k < 11:
                m[a].add(key); self.op('strset add %d x%s' % (a, key.hex()))
            elif k < 14:
                self.op('strset in %d x%s' % (a, key.hex()), '%d' % (key in m[a]))
            elif k == 14:
                m[a] = set(m[b]); self.op('strset dup %d %d' % (a, b))
            elif k == 15:
                m[a] = m[b] | m[c]; self.op('strset union %d %d %d' % (a, b, c))
            elif k == 16:
                m[a] = m[b] & m[c]; self.op('strset inter %d %d %d' % (a, b, c))
            else:
                it(a)
        for i in range(SLOTS):
            it(i)

    # -- sequences
    def list_(self):
        s = self.s
        m = [[] for _ in range(SLOTS)]
        for i in range(SLOTS):
            self.op('list new %d %d' % (i, s.choice([0, 0, 1, 2, 7, 32])))
        for _ in range(self.length()):
            a = s.n(SLOTS)
            if s.n(12):
                v = s.n(10 ** 6)
                m[a].append(v); self.op('list add %d %d' % (a, v))
            else:
                self.op('list all %d' % a, '%d:%s' % (len(m[a]), ''.join(' %d' % x for x in m[a])))
        for a in range(SLOTS):
            self.op('list all %d' % a, '%d:%s' % (len(m[a]), ''.join(' %d' % x for x in m[a])))

    def cll(self):
        s = self.s
        m = [[] for _ in range(SLOTS)]
        for _ in range(min(self.length(), 150)):
            a = s.n(SLOTS)
            if s.n(8):
                v = 1 + s.n(10 ** 6)
                m[a].append(v); self.op('cll add %d %d' % (a, v))
            else:
                self.op('cll all %d' % a, ' '.join(str(x) for x in m[a]))
        for a in range(SLOTS):
            self.op('cll all %d' % a, ' '.join(str(x) for x in m[a]))

    def stack(self):
        s = self.s
        m = [[] for _ in range(SLOTS)]
        for i in range(SLOTS):
            self.op('stack new %d' % i)
        for _ in range(min(self.length(), 150)):
            a = s.n(SLOTS)
            k = s.n(10)
            if k < 5 and len(m[a]) < 10240:
                v = s.n(10 ** 6) - 5
                m[a].append(v); self.op('stack push %d %d' % (a, v))
            elif k < 8 and m[a]:
                self.op('stack pop %d' % a, '%d' % m[a].pop())
            elif k == 8 and m[a]:
                self.op('stack top %d' % a, '%d' % m[a][-1])
            elif k == 9:
                if s.n(2) and len(m[a]) < 10240:
                    n = s.choice([100, 3000, 10240 - len(m[a])])
                    n = min(n, 10240 - len(m[a]))
                    m[a] += range(5, 5 + n)
                    self.op('stack pushn %d %d 5' % (a, n))
                    self.feats.add('full-stack' if len(m[a]) == 10240 else 'deep-stack')
                elif m[a]:
                    n = s.n(len(m[a])) + 1
                    h = 0
                    for _ in range(n):
                        h = (h * 31 + m[a].pop()) % 2 ** 32
                    self.op('stack popn %d %d' % (a, n), '%d' % h)
        for a in range(SLOTS):
            if m[a]:
                self.op('stack top %d' % a, '%d' % m[a][-1])

    def graph(self):
        s = self.s
        m = []
        for i in range(2):
            n = 1 + s.n(6)
            self.op('graph new %d %d %d' % (i, n, s.choice([0, 1, 2, 5, 64])))
            m.append([n, []])

        def show(a):
            n, es = m[a]
            t = '%d %d:' % (n, len(es))
            for i in range(n):
                t += ' %d(%s;%s)' % (i, ''.join('%d>%d,' % e for e in es if e[0] == i), ''.join('%d>%d,' % e for e in es if e[1] == i))
            self.op('graph all %d' % a, t)
        for _ in range(min(self.length(), 150)):
            a = s.n(2)
            k = s.n(12)
            if k < 9:
                e = (s.n(m[a][0]), s.n(m[a][0]))
                self.op('graph edge %d %d %d' % (a, e[0], e[1]), '%d' % len(m[a][1]))
                m[a][1].append(e)
            elif k == 9 and m[a][0] < 40:
                d = 1 + s.n(5)
                m[a][0] += d
                self.op('graph nodes %d %d' % (a, d))
                self.feats.add('grown')
            else:
                show(a)
        show(0)
        show(1)


KINDS = ['set_', 'lset', 'lset', 'lmap', 'lmap', 'lmap', 'strmap', 'strmap', 'strset', 'list_', 'stack', 'cll', 'graph']


class Containers(Check):
    id = 'C22'
    builds = ('asan',)
    batch = 30
    quick_chunks = 1500
    thorough_chunks = 20000
    rule = ('a history of 10 to 600 random operations over up to six containers of one kind, run against the compiler\'s own code under ASan and UBSan; every returned value, and the contents after the history, '
            'are compared with a model. Keys collide and are deleted and put again; long maps also run with other hash functions. Non-trivial: at least 10 operations; distinct by history')
    assumptions = ['operations are used as documented (values within a set\'s maximum, no pop from an empty stack)']

    def setup(self, ctx):
        d = ctx.dirs['asan']
        rt = os.path.join(wccbuild.VERIF, 'rt', 'containers.c')
        ctx.exe = os.path.join(ctx.tmp, 'containers')
        opts = wccbuild.VARIANTS['asan'][0].split()
        r = subprocess.run(['gcc', '-g', '-w'] + opts + ['-I', d, rt, os.path.join(d, 'libwcc.a'), '-o', ctx.exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise wccbuild.BuildError('the container harness does not build:\n' + r.stdout.decode(errors='replace')[-2000:])

    def make(self, src):
        h = H(src)
        kind = src.choice(KINDS)
        getattr(h, kind)()
        h.feats.add(kind.strip('_'))
        h.choices = src.rec
        return h

    def run(self, ctx, hists):
        """[output lines per history or None], error text"""
        inp = ''.join('\n'.join(l) + '\nend %d\n' % i for i, l in enumerate(hists))
        r = proc.run([ctx.exe], ctx.tmp, inp=inp.encode(), mem_mb=0, cpu=60, timeout=90)
        res, cur = [], []
        for l in r.out.decode('utf-8', 'replace').split('\n'):
            if l.startswith('end '):
                res.append(cur)
                cur = []
            else:
                cur.append(l.rstrip())
        res += [None] * (len(hists) - len(res))
        return res, ('does not end' if r.timeout else 'exit status %d: %s' % (r.rc, (r.err.decode('utf-8', 'replace')[:1500]))), cur

    def judge(self, ctx, lines, expect):
        res, err, partial = self.run(ctx, [lines])
        if res[0] is None:
            return 'the history fails after %d of %d operations: %s' % (len(partial) - 1, len(lines), err)
        if res[0] != expect:
            for i, (a, b) in enumerate(zip(res[0], expect)):
                if a != b:
                    return 'operation %d (%s) gives "%s", expected "%s"\nhistory:\n%s' % (i, lines[i], a[:300], b[:300], '\n'.join(lines[:i + 1])[-3000:])
            return 'wrong number of results'
        return None

    def fails(self, ctx, choices):
        h = self.make(Src(choices=choices))
        s = self.judge(ctx, h.lines, h.expect)
        return (Failure(h.choices, s, {'lines': h.lines, 'expect': h.expect}) if s else None), h.choices

    def replay(self, ctx, data):
        return self.judge(ctx, data['lines'], data['expect'])

    def chunk(self, ctx, k):
        r = ChunkResult()
        hs = [self.make(ctx.src(k, i)) for i in range(self.batch)]
        res, err, partial = self.run(ctx, [h.lines for h in hs])
        for i, h in enumerate(hs):
            r.evals += 1
            for f in h.feats:
                r.counters['f:' + f] += 1
            r.counters['operations'] += len(h.lines)
            if len(h.lines) >= 10:
                r.nontrivial('\n'.join(h.lines))
            if k == 0 and len(r.samples) < 3:
                r.samples.append('\n'.join(h.lines[:40]))
            if res[i] != h.expect:
                s = self.judge(ctx, h.lines, h.expect)
                if s:
                    r.failures.append(Failure(h.choices, s, {'lines': h.lines, 'expect': h.expect}))
        return r


CHECK = Containers()
