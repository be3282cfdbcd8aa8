"""C19: the same input gives the same output, whatever else is going on."""
import os, re
from ..progcheck import ProgCheck, Case, wcc, read
from .. import ctok, pool

OPTS = [[], [], ['-g'], ['-fPIC'], ['-fno-optimize-arithmetic'], ['-fno-live-range-coalescing'], ['-fspill-furthest-liveness-end'], ['-fno-vreg-renumbering'], ['-D', 'X=1'], ['-g', '-fPIC']]
NAMES = ['a.c', 'b.c', 'c.c', 'a_rather_long_file_name_for_a_source_file.c', 'sub/d.c']


def named(b):
    # the assembler and linker mention the names of temporary files
    return re.sub(rb'/tmp/\w{6}(\.\w)?\b', b'/tmp/X', b)


class C19(ProgCheck):
    id = 'C19'
    batch = 8
    quick_chunks = 100
    thorough_chunks = 12000
    rule = ('one to four files of generated programs, which share names of macros, types, statics and externals, compiled alone, again with other contents of uninitialised memory, another '
            'environment, output name and stack size, and together in several orders, with -S, -c, -E: each file gives the same output byte for byte.  Non-trivial: at least two files')
    assumptions = ['the assembler is deterministic']

    def gen(self, s):
        n = 1 + s.n(4)
        names = s.shuffle(NAMES)[:n]
        files = {}
        feats = set()
        for x in names:
            text, f = pool.program(s, 2)
            feats |= f
            if s.p(50):
                text, f2 = pool.macro_program(s, text, 3 + s.n(10))
                feats |= f2
            if s.p(50):
                # the same names with another meaning in every file
                text = ('typedef %s vp_t; static %s vp_s = 1; struct vp_s { %s m[%d]; } ; enum { VP_E = %d }; int vp_f(%s);\n#define VP_M %d\n'
                        % (s.choice(['int', 'char *', 'double']), s.choice(['int', 'long', 'char']), s.choice(['int', 'char']), 1 + s.n(9), s.n(99), s.choice(['int x', 'void', 'char *p, ...']), s.n(99))
                        ) + text + '\nstatic int *vp_user(void) { static int vp_l = VP_M; vp_l += VP_E + sizeof(vp_t) + sizeof(struct vp_s); return &vp_l; }\nint %s_main(void) { return *vp_user() + (int) vp_s; }\n' % ('f%d' % len(files))
                feats.add('same-names')
            files[x] = text
        order = s.shuffle(names)
        m = {'opts': list(s.choice(OPTS)), 'mode': s.choice(['-S', '-S', '-S', '-c', '-E']), 'order': order, 'vary': s.n(5)}
        return Case(files, m, sorted(feats), n > 1)

    def judge(self, ctx, case, wd, counters=None):
        m = case.meta
        mode, opts, order = m['mode'], m['opts'], m['order']
        ext = {'-S': '.s', '-c': '.o', '-E': '.i'}[mode]
        single = {}
        for f in sorted(case.files):
            o = f[:-2] + ext
            a = wcc(ctx.wcc, [mode] + opts + [f] + (['-o', o] if mode == '-E' else []), wd, env={'MALLOC_PERTURB_': '0'})
            if a.rc:
                return '%s is rejected: %s' % (f, a.err.decode('utf-8', 'replace')[-300:])
            p = os.path.join(wd, o)
            # without -o the output goes into the current directory or beside the source
            if not os.path.exists(p):
                p = os.path.join(wd, os.path.basename(o))
            single[f] = (read(p), named(a.out), named(a.err))
            if not single[f][0]:
                return '%s gives no output' % f
            os.unlink(p)
            v = m['vary']
            env = [{'MALLOC_PERTURB_': '165'}, {'MALLOC_PERTURB_': '90', 'X' * 1000: 'y' * 3000}, {'MALLOC_PERTURB_': '1', 'MALLOC_ARENA_TEST': '1', 'TERM': 'x', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8'},
                   {'MALLOC_PERTURB_': '255', 'MALLOC_TOP_PAD_': '1000000', 'MALLOC_MMAP_THRESHOLD_': '4096'}, {'MALLOC_PERTURB_': '127', 'HOME': '/nonexistent', 'TMPDIR': '/nonexistent', 'TZ': 'Asia/Tokyo'}][v]
            o2 = os.path.join(wd, 'other-output-name%d' % v)
            b = wcc(ctx.wcc, [mode, '-o', o2, f] + opts, wd, env=env)
            if (b.rc, read(o2), named(b.out), named(b.err)) != (0,) + single[f]:
                return 'the output for %s differs in another environment %r: exit %d %s' % (f, env, b.rc, b.err.decode('utf-8', 'replace')[-300:])
        if len(order) > 1:
            if mode == '-E':
                a = wcc(ctx.wcc, [mode] + opts + order, wd)
                want = b''.join(single[f][0] for f in order)
                if (a.rc, a.out) != (0, want):
                    return '-E of %s is not the output for each of them' % ' '.join(order)
                return None
            a = wcc(ctx.wcc, [mode] + opts + order, wd)
            if a.rc:
                return 'together they are rejected: %s' % a.err.decode('utf-8', 'replace')[-300:]
            for f in order:
                o = f[:-2] + ext
                p = os.path.join(wd, o)
                if not os.path.exists(p):
                    p = os.path.join(wd, os.path.basename(o))
                if read(p) != single[f][0]:
                    return 'compiled together, as %s, the output for %s is another than alone%s' % (' '.join(order), f, '' if read(p) is not None else ': there is none')


CHECK = C19()
