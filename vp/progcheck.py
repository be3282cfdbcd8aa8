"""Checks that judge what the compiler does with one generated program (or a set of files) at a time."""
import os, shutil
from .engine import Check, ChunkResult, Failure
from .src import Src
from . import proc


class Case:
    def __init__(self, files, meta=None, features=(), nontrivial=True):
        self.files = files              # name -> text (str) or bytes
        self.meta = meta or {}          # JSON
        self.features, self.nontrivial = tuple(features), nontrivial
        self.choices = None

    def data(self):
        f = {n: (t if isinstance(t, str) else {'hex': t.hex()}) for n, t in self.files.items()}
        return {'files': f, 'meta': self.meta}

    @staticmethod
    def from_data(d):
        f = {n: (t if isinstance(t, str) else bytes.fromhex(t['hex'])) for n, t in d['files'].items()}
        return Case(f, d['meta'])

    def write(self, wd):
        for n, t in self.files.items():
            p = os.path.join(wd, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fp:
                fp.write(t if isinstance(t, bytes) else t.encode('utf-8', 'surrogateescape'))

    def text(self):
        return '\n'.join('--- %s\n%s' % (n, t if isinstance(t, str) else t.decode('utf-8', 'backslashreplace')) for n, t in self.files.items())


class ProgCheck(Check):
    """subclasses define gen(src) -> Case and judge(ctx, case, wd) -> None or what is wrong"""
    batch = 20

    def gen(self, src):
        raise NotImplementedError

    def judge(self, ctx, case, wd, counters=None):
        raise NotImplementedError

    def make(self, src):
        c = self.gen(src)
        c.choices = src.rec
        return c

    def run_case(self, ctx, case, counters=None):
        wd = ctx.workdir()
        try:
            case.write(wd)
            s = self.judge(ctx, case, wd, counters if counters is not None else {})
            return s and '%s\n%s\n%s' % (s, case.text()[:6000], case.meta)
        finally:
            shutil.rmtree(wd, ignore_errors=True)

    def fails(self, ctx, choices):
        c = self.make(Src(choices=choices))
        s = self.run_case(ctx, c)
        return (Failure(c.choices, s, c.data()) if s else None), c.choices

    def replay(self, ctx, data):
        return self.run_case(ctx, Case.from_data(data))

    def chunk(self, ctx, k):
        r = ChunkResult()
        for i in range(self.batch):
            c = self.make(ctx.src(k, i))
            r.evals += 1
            for f in c.features:
                r.counters['f:' + f] += 1
            if c.nontrivial:
                r.nontrivial(c.text() + str(c.meta))
                if k == 0 and len(r.samples) < 3:
                    r.samples.append(c.text()[:1500])
            s = self.run_case(ctx, c, r.counters)
            if s:
                r.failures.append(Failure(c.choices, s, c.data()))
        return r


def wcc(exe, args, wd, **kw):
    return proc.run([exe] + list(args), wd, **kw)


def read(path):
    try:
        with open(path, 'rb') as fp:
            return fp.read()
    except FileNotFoundError:
        return None
