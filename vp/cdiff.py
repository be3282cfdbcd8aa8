"""Differential execution of generated C: many small units per translation unit, each judged alone.

A unit is a piece of file scope code plus a body; "@" in its text becomes a per-unit prefix.  All
units of a batch are compiled together by wcc and by gcc -O0 and linked with rt/rt.c, which runs
them one by one and prints one line of observations per unit.  A unit whose lines differ is
run again alone; it counts only if gcc -O0, gcc -O2 and clang agree on it and clang's address and
undefined behaviour sanitizers are silent, so a program with undefined or unspecified behaviour is
never held against wcc."""
import os, re, shutil, subprocess
from .engine import Check, ChunkResult, Failure
from .src import Src
from . import proc

PRELUDE = '''void out_i(long); void out_u(unsigned long); void out_f(float); void out_d(double); void out_ld(long double);
void out_s(const char *); void out_mem(const void *, long); void out_nl(void); long opaque_l(long); double opaque_d(double);
'''
GCC_FLAGS = ['-w', '-std=gnu11', '-fno-strict-aliasing', '-fwrapv', '-ffp-contract=off', '-fno-builtin', '-fcommon']


class Unit:
    def __init__(self, decl, body, expect=None, features=(), nontrivial=True, extra=None):
        self.decl, self.body, self.expect = decl, body, expect
        self.features, self.nontrivial_, self.extra = tuple(features), nontrivial, extra
        self.choices = None

    def text(self, prefix='u_'):
        return (self.decl + '\nvoid @main(void) {\n' + self.body + '\n}\n').replace('@', prefix)

    def data(self):
        return {'decl': self.decl, 'body': self.body, 'expect': self.expect, 'extra': self.extra}

    @staticmethod
    def from_data(d):
        return Unit(d['decl'], d['body'], d.get('expect'), extra=d.get('extra'))


def tu_text(units, prelude=PRELUDE):
    parts = [prelude]
    for i, u in enumerate(units):
        parts.append(u.text('u%d_' % i))
    parts.append('void (*unit_table[])(void) = {' + ', '.join('u%d_main' % i for i in range(len(units))) + '};\n')
    parts.append('int unit_count = %d;\n' % len(units))
    return ''.join(parts)


class CDiffCheck(Check):
    """subclasses define gen(src) -> Unit"""
    batch = 40
    compile_flags = []          # wcc flags
    flag_sets = None            # list of wcc flag lists, chosen by chunk
    prelude = PRELUDE
    use_gcc_reference = True
    confirm_with = ('gcc2', 'clang', 'san')
    libs = ['-lm']

    def gen(self, src):
        raise NotImplementedError

    def make(self, src):
        u = self.gen(src)
        u.choices = src.rec
        return u

    def setup(self, ctx):
        rt = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'rt', 'rt.c')
        ctx.rt = os.path.join(ctx.tmp, 'rt.o')
        ctx.rt_plain = os.path.join(ctx.tmp, 'rt-plain.o')
        for out, d in ((ctx.rt, []), (ctx.rt_plain, ['-DNO_HANDLERS'])):
            r = proc.run(['gcc', '-O1', '-w', '-mno-red-zone', '-fno-stack-protector', '-c', rt, '-o', out] + d, ctx.tmp)
            assert r.rc == 0, r.err

    # -- one compiler over a list of units: returns a list of outcome strings
    def outcomes(self, ctx, units, compiler, wd, flags=()):
        res = [None] * len(units)
        self._outcomes(ctx, units, list(range(len(units))), compiler, wd, list(flags), res)
        return res

    def _outcomes(self, ctx, units, idx, compiler, wd, flags, res):
        if not idx:
            return
        line = self.run_tu(ctx, [units[i] for i in idx], compiler, wd, flags)
        if isinstance(line, list):
            for i, l in zip(idx, line):
                res[i] = l
            return
        if len(idx) == 1:
            res[idx[0]] = line
            return
        h = len(idx) // 2
        self._outcomes(ctx, units, idx[:h], compiler, wd, flags, res)
        self._outcomes(ctx, units, idx[h:], compiler, wd, flags, res)

    def compile_wcc(self, ctx, src, out_s, wd, flags):
        """returns None or a failure string"""
        r = proc.run([ctx.wcc, '-S'] + list(self.compile_flags) + list(flags) + [src, '-o', out_s], wd)
        if r.timeout:
            return '!compiler-timeout'
        if r.rc != 0 or not os.path.exists(out_s):
            return '!wcc-exit-%d %s' % (r.rc, (r.err + r.out).decode(errors='replace')[-300:])
        return None

    def run_tu(self, ctx, units, compiler, wd, flags):
        """list of lines, or one failure string for the whole translation unit"""
        src = os.path.join(wd, 't.c')
        exe = os.path.join(wd, 't.exe')
        for f in (exe,):
            if os.path.exists(f):
                os.unlink(f)
        with open(src, 'w', encoding='utf-8') as fp:
            fp.write(tu_text(units, self.prelude))
        if compiler == 'wcc':
            s = os.path.join(wd, 't.s')
            if os.path.exists(s):
                os.unlink(s)
            e = self.compile_wcc(ctx, src, s, wd, flags)
            if e:
                return e
            cmd = ['gcc', s, ctx.rt, '-o', exe] + self.libs
        elif compiler == 'gcc':
            cmd = ['gcc', '-O0'] + GCC_FLAGS + [src, ctx.rt, '-o', exe] + self.libs
        elif compiler == 'gcc2':
            cmd = ['gcc', '-O2'] + [f for f in GCC_FLAGS if f != '-fwrapv'] + [src, ctx.rt, '-o', exe] + self.libs
        elif compiler == 'clang':
            cmd = ['clang', '-O1'] + [f for f in GCC_FLAGS if f != '-fwrapv'] + [src, ctx.rt, '-o', exe] + self.libs
        elif compiler == 'san':
            cmd = ['clang', '-O0', '-g', '-fsanitize=undefined,address', '-fno-sanitize=function,alignment', '-fno-sanitize-recover=all',
                   ] + [f for f in GCC_FLAGS if f != '-fwrapv'] + [src, ctx.rt_plain, '-o', exe] + self.libs
        r = proc.run(cmd, wd, timeout=120)
        if r.rc != 0:
            return '!link-%d %s' % (r.rc, r.err.decode(errors='replace')[-600:])
        return self.run_exe(exe, len(units), wd, compiler == 'san')

    def run_exe(self, exe, n, wd, san=False):
        r = proc.run([exe], wd, timeout=60, mem_mb=0 if san else 3000, cpu=30)
        if san and r.rc != 0:
            return '!sanitizer %s' % r.err.decode(errors='replace')[:1500]
        lines = r.out.decode(errors='replace').split('\n')
        got = {}
        for l in lines:
            m = re.match(r'U(\d+) (.*)$', l)
            if m:
                got[int(m.group(1))] = m.group(2)
        if r.rc != 0 and n > 1:
            return '!run-%d' % r.rc
        return [got.get(i, '!no-output rc=%d' % r.rc) for i in range(n)]

    def show(self, u):
        return u.text()

    def flags_for(self, k):
        return self.flag_sets[k % len(self.flag_sets)] if self.flag_sets else []

    # -- judging one unit alone
    def judge_unit(self, ctx, u, flags=None, wd=None):
        """summary string if the unit shows a violation"""
        own = wd is None
        if own:
            wd = ctx.workdir()
        try:
            sets = [flags] if flags is not None else (self.flag_sets or [[]])
            ref = self.run_tu(ctx, [u], 'gcc', wd, [])
            if not isinstance(ref, list):
                return None
            ref = ref[0]
            if u.expect is not None and ref != u.expect:
                return None
            for fl in sets:
                w = self.run_tu(ctx, [u], 'wcc', wd, fl)
                w = w[0] if isinstance(w, list) else w
                if w != ref:
                    break
            else:
                return None
            if '!' in ref:
                return None
            for c in self.confirm_with:
                o = self.run_tu(ctx, [u], c, wd, [])
                if not isinstance(o, list) or o[0] != ref:
                    if os.environ.get('VP_DEBUG'):
                        print('BECAUSE', c, o if isinstance(o, str) else o[0], flush=True)
                    return None
            return 'wcc %s\n--- program\n%s--- expected (gcc, clang agree)\n%s\n--- got\n%s' % (
                ' '.join(fl), self.show(u), ref, w)
        finally:
            if own:
                shutil.rmtree(wd, ignore_errors=True)

    def fails(self, ctx, choices):
        src = Src(choices=choices)
        u = self.make(src)
        s = self.judge_unit(ctx, u)
        return (Failure(u.choices, s, u.data()) if s else None), u.choices

    def replay(self, ctx, data):
        return self.judge_unit(ctx, Unit.from_data(data))

    def chunk(self, ctx, k):
        r = ChunkResult()
        wd = ctx.workdir()
        try:
            units = [self.make(ctx.src(k, i)) for i in range(self.batch)]
            flags = self.flags_for(k)
            g = self.outcomes(ctx, units, 'gcc', wd)
            # units gcc refuses or that crash are not valid cases
            ok = []
            for i, u in enumerate(units):
                if '!' in g[i]:
                    r.counters['invalid_or_crashing_under_gcc'] += 1
                    if os.environ.get('VP_DEBUG'):
                        print('INVALID', g[i][:700], '\n', u.text()[:1500], flush=True)
                elif u.expect is not None and g[i] != u.expect:
                    r.counters['model_disagrees_with_gcc'] += 1
                    if os.environ.get('VP_DEBUG'):
                        print('MODEL', u.expect, '|', g[i], '\n', u.text()[:1500], flush=True)
                else:
                    ok.append(i)
            w = self.outcomes(ctx, [units[i] for i in ok], 'wcc', wd, flags)
            for j, i in enumerate(ok):
                u = units[i]
                r.evals += 1
                for f in u.features:
                    r.counters['f:' + f] += 1
                if u.nontrivial_:
                    r.nontrivial(u.text())
                if k == 0 and len(r.samples) < 3 and u.nontrivial_:
                    r.samples.append(u.text()[:1500] + ' => ' + g[i][:200])
                if w[j] != g[i]:
                    s = self.judge_unit(ctx, u, flags, wd)
                    if s:
                        r.failures.append(Failure(u.choices, s, u.data()))
                    else:
                        r.counters['mismatch_discarded_as_undefined_or_not_alone'] += 1
                        if os.environ.get('VP_DEBUG'):
                            print('DISCARD', w[j][:300], '|', g[i][:300], '\n', u.text()[:1500], flush=True)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        return r
