"""Differential execution across two compilers: a unit has two source files, wcc compiles one of them."""
import os
from .cdiff import CDiffCheck, Unit, PRELUDE, GCC_FLAGS, tu_text
from . import proc


def other_text(units):
    return PRELUDE + ''.join('%s\n' % u.extra['other'].replace('@', 'u%d_' % i) for i, u in enumerate(units))


class TwoFileCheck(CDiffCheck):
    """flags are (which files wcc compiles: 'a', 'b' or 'ab', gcc options of the other file); unit.extra['other'] is the second file"""
    confirm_with = ('gcc2', 'clang', 'mixa', 'mixb', 'san')     # mix: gcc and clang have to agree on the calling convention
    flag_sets = [['a', '-O0'], ['b', '-O2'], ['a', '-O2'], ['b', '-O0'], ['ab', '-O1']]

    def run_tu(self, ctx, units, compiler, wd, flags):
        exe = os.path.join(wd, 't.exe')
        if os.path.exists(exe):
            os.unlink(exe)
        texts = {'a': tu_text(units, self.prelude), 'b': other_text(units)}
        objs = []
        base = {'gcc': ['gcc', '-O0'], 'gcc2': ['gcc', '-O2'], 'clang': ['clang', '-O1'],
                'san': ['clang', '-O0', '-g', '-fsanitize=undefined,address', '-fno-sanitize=function,alignment', '-fno-sanitize-recover=all']}
        nowrap = [f for f in GCC_FLAGS if f != '-fwrapv']
        for side in 'ab':
            src = os.path.join(wd, side + '.c')
            with open(src, 'w') as fp:
                fp.write(texts[side])
            if compiler == 'wcc' and side in flags[0]:
                s = os.path.join(wd, side + '.s')
                if os.path.exists(s):
                    os.unlink(s)
                e = self.compile_wcc(ctx, src, s, wd, flags[2:])
                if e:
                    return e
                objs.append(s)
            else:
                o = os.path.join(wd, side + '.o')
                tool = base['clang' if compiler[3:] == side else 'gcc'] if compiler[:3] == 'mix' else base.get(compiler)
                cmd = (['gcc', flags[1]] + GCC_FLAGS) if compiler == 'wcc' else tool + (GCC_FLAGS if compiler == 'gcc' else nowrap)
                r = proc.run(cmd + ['-c', src, '-o', o], wd, timeout=120)
                if r.rc != 0:
                    return '!compile-%d %s' % (r.rc, r.err.decode(errors='replace')[-600:])
                objs.append(o)
        san = compiler == 'san'
        cmd = (['clang', '-fsanitize=undefined,address'] if san else ['gcc']) + objs + [ctx.rt_plain if san else ctx.rt, '-o', exe] + self.libs
        r = proc.run(cmd, wd, timeout=120)
        if r.rc != 0:
            return '!link-%d %s' % (r.rc, r.err.decode(errors='replace')[-600:])
        return self.run_exe(exe, len(units), wd, san)

    def show(self, u):
        return u.text() + '--- second file\n' + u.extra['other'].replace('@', 'u_') + '\n'
