"""C20: the driver writes what its options ask for, where they ask for it, and reports failures."""
import os, re, shutil, stat
from ..progcheck import ProgCheck, Case, read
from .. import proc

DIRS = ['', '', '', 'sub/', 'sub/deeper/', 'a b/', 'dir.d/', "q'x/", 'dir.c/']
STEMS = ['x', 'y', 'main', 'with space', 'two.dots', 'a$HOME', 'p(q)', 'semi;x', 'amp&', 'st*r', 'quo"te', "it's", 'back\\slash', 'h#sh', '~t', '`tick`', 'a=b', 'UPPER', '\u00e9', 'long_' + 'n' * 100, 'a|b', '<x>', '{y}', '[z]', '!bang', '%d%s', 'x,y', 'x@y']
OUTS = ['out', 'out.txt', 'sub/out', 'a b/o x', "q'x/o$t", 'prog.exe', 'dir.d/o', 'o"q', './o']
HARMLESS = ['-O', '-O0', '-O1', '-O2', '-O3', '-Os', '-fno-live-range-coalescing', '-fspill-furthest-liveness-end', '-fno-dont-spill-short-live-ranges', '-fno-optimize-arithmetic', '-fno-vreg-renumbering', '-v']


class Model:
    def __init__(self, s):
        self.s = s
        self.feats = set()

    def name(self, used, ext):
        s = self.s
        for i in range(50):
            n = s.choice(DIRS) + s.choice(STEMS)
            if i > 10:
                n += str(i)
            if os.path.splitext(os.path.basename(n))[0] and n not in used and not any(u.startswith(n + '.') for u in used) and n + ext not in used:
                # a stem names one file whatever the extensions
                used.add(n)
                if n.count('.') and os.path.basename(n).count('.'):
                    self.feats.add('dots')
                if re.search(r"[^\w./]", n):
                    self.feats.add('odd-name')
                return n
        raise AssertionError

    def case(self):
        s = self.s
        mode = s.choice(['link', 'link', 'link', '-c', '-S', '-E', 'shared'])
        self.feats.add('mode-' + mode)
        files, pre, used = {}, [], set()
        n = 1 + s.n(4)
        kinds = ['c'] + [s.choice(['c', 'c', 'c', 's', 'o', 'noext']) for _ in range(n - 1)]
        if s.n(8) == 0:
            kinds[0] = 'noext'
        kinds = s.shuffle(kinds)
        main = s.choice([i for i, k in enumerate(kinds) if k in ('c', 'noext')])

        # options
        groups = []
        macros, again = {}, None
        for m in ('A', 'B', 'LONG_MACRO'):
            if s.n(2):
                t, v = s.choice([('', 1), ('=5', 5), ('=0', 0), ('=(3+4)', 7), ('=-2', -2), ('=1 + 1', 2), ("='a'", 97), ('="two words"', -10), ('=0x10', 16)])
                groups.append(['-D', m + t] if s.n(2) else ['-D' + m + t])
                macros[m] = (t, v)
        if macros:
            self.feats.add('-D')
            if s.n(4) == 0:
                # the last definition counts
                m = s.choice(list(macros))
                again = [s.choice(['-D' + m + '=77', '-D' + m, '-D' + m + '=(1'])]
                self.feats.add('-D-again')
        incs = []
        for d in ('inc1', 'inc2', 'inc 3', 'missing'):
            if s.n(3) == 0:
                incs.append(d)
                e = d + s.choice(['', '/'])
                groups.append(['-I', e] if s.n(2) else ['-I' + e])
        incs_order = s.shuffle(list(range(len(groups))))
        groups = ([again] if again else []) + [groups[i] for i in incs_order]
        order = [g[-1].replace('-I', '').rstrip('/') for g in groups if g[0].startswith('-I')]
        have = [d for d in order if d != 'missing']
        header = have[0] if have else None
        for i, d in enumerate(('inc1', 'inc2', 'inc 3')):
            files[d + '/vp_val.h'] = '#define VP_VAL %d\n' % (100 * (i + 1))
        if header:
            self.feats.add('-I')
        libval = None
        if mode in ('link', 'shared') and s.n(3) == 0:
            self.feats.add('-l')
            ldirs = [d for d in ('lib1', 'lib 2') if s.n(3)] or ['lib1']
            # a chain of libraries, of which each needs the next one
            chain = [s.choice(['vp', 'mid', 'zz', 'a', 'o d', 'q$x'])]
            while len(chain) < 4 and s.n(2):
                chain.append(s.choice([c for c in ('vp', 'mid', 'zz', 'a', 'b', 'y', 'p(q)', "it's") if c not in chain]))
            if len(chain) > 1:
                self.feats.add('library-chain')
            for i, d in enumerate(('lib1', 'lib 2')):
                for j, c in enumerate(chain):
                    f = 'vp_lib%s' % (j or '')
                    if j + 1 < len(chain):
                        pre.append(['a', d + '/lib%s.a' % c, 'int vp_lib%d(void); int %s(void) { return vp_lib%d(); }\n' % (j + 1, f, j + 1)])
                    else:
                        pre.append(['a', d + '/lib%s.a' % c, 'int %s(void) { return %d; }\n' % (f, 1000 * (i + 1))])
            ldirs = s.shuffle(ldirs)
            libval = 1000 if ldirs[0] == 'lib1' else 2000
            for d in ldirs:
                e = d + s.choice(['', '/'])
                groups.append(['-L', e] if s.n(2) else ['-L' + e])
            for c in chain:
                groups.append(['-l', c] if s.n(2) else ['-l' + c])
            if s.n(2):
                groups.append(s.choice([['-lm'], ['-l', 'm']]))
        trig = s.n(5) == 0
        if trig:
            groups.append(['--trigraphs'])
            self.feats.add('trigraphs')
        debug = s.n(4) == 0
        if debug:
            groups.append(['-g'])
            self.feats.add('-g')
        if s.n(4) == 0 or mode == 'shared':
            groups.append(['-fPIC'])
        if mode == 'shared':
            groups.append(['-shared'])
        warn = s.n(6) == 0
        werror = s.n(6) == 0
        wno = warn and s.n(3) == 0
        if werror:
            groups.append(['-Werror'])
        if wno:
            groups.append(['-Wno-integer-constant-too-large'])
        if warn:
            self.feats.add('warning')
        mapfile = None
        if mode in ('link', 'shared') and s.n(6) == 0:
            mapfile = s.choice(['map.txt', 'map.txt', 'm$p.txt', "m'p x.txt", 'a;b', 'sub/m(p)'])
            groups.append([s.choice(['-Wl,-Map=', '-Wl,-Map,']) + mapfile])
            self.feats.add('-Wl')
        if mode in ('link', 'shared') and s.n(16) == 0:
            self.feats.add('long-command-line')
            groups.append(['-Wl,-rpath,/' + 'r' * s.choice([10, 90000, 100000, 102400, 110000, 120000])])
        for _ in range(s.n(3)):
            groups.append([s.choice(HARMLESS)])
        groups.append(['--print-filenames'])

        fault = s.choice(['syntax', 'missing-input', 'missing-header', 'bad-asm', 'undefined', 'as-fails', 'as-killed', 'unknown-option', 'no-directory', 'type']) if s.n(3) == 0 else None
        if fault == 'undefined' and mode != 'link' or fault in ('as-fails', 'as-killed', 'bad-asm') and mode in ('-S', '-E') or fault in ('syntax', 'type') and mode == '-E':
            fault = None
        cs = [i for i, k in enumerate(kinds) if k in ('c', 'noext')]
        if fault == 'bad-asm' and 's' not in kinds:
            fault = 'as-fails'
        victim = s.choice([i for i, k in enumerate(kinds) if k == 's']) if fault == 'bad-asm' else s.choice(cs)
        if fault:
            self.feats.add('fault-' + fault)

        # the files
        inputs, values = [], []
        warner = s.choice(cs) if warn else None
        for i, k in enumerate(kinds):
            ext = {'c': '.c', 's': '.s', 'o': '.o', 'noext': ''}[k]
            nm = self.name(used, ext) + ext
            if k == 'noext':
                if '.' in os.path.basename(nm):
                    nm = nm.replace('two.dots', 'nodots')
                self.feats.add('no-extension')
            inputs.append(nm)
            c = s.n(1000)
            if k in ('s', 'o'):
                pre.append([k, nm, 'int f%d(void) { return %d; }\n' % (i, c)])
                values.append(c)
                self.feats.add('input-' + k)
                continue
            t, v = 'int printf(const char *, ...);\n', c
            e = [str(c)]
            if header and s.n(2):
                t += s.choice(['#include "vp_val.h"\n', '#include <vp_val.h>\n'])
                e.append('VP_VAL')
                v += {'inc1': 100, 'inc2': 200, 'inc 3': 300}[header]
            for m, (mt, mv) in macros.items():
                if mv == -10:
                    e.append('(int) sizeof(%s)' % m)
                    v += 10
                else:
                    e.append('(%s)' % m)
                    v += mv
            for m in ('A', 'B'):
                if m not in macros:
                    t += '#ifdef %s\n#error %s is defined\n#endif\n' % (m, m)
            if s.n(3) == 0:
                e.append('(int) sizeof("??(")')
                v += 2 if trig else 4
            if i == warner:
                t += 'unsigned long f%d_w = 9223372036854775808;\n' % i
            t += 'int f%d(void) {\n    return %s;\n}\n' % (i, ' + '.join(e))
            if fault == 'syntax' and i == victim:
                t += 'int broken( {\n'
            if fault == 'type' and i == victim:
                t += 'int broken(void) { struct { int a; } s; return s + 1; }\n'
            if fault == 'missing-header' and i == victim:
                t += '#include "vp_no_such_header.h"\n'
            values.append(v)
            files[nm] = t
        expect = ['%d' % v for v in values] + ([str(libval)] if libval else [])
        mt = ''.join('int f%d(void);\n' % i for i in range(n)) + ('int vp_lib(void);\n' if libval else '')
        mt += 'int printf(const char *, ...);\nint main(int argc, char **argv) {\n' + ''.join('    printf("%%d\\n", f%d());\n' % i for i in range(n)) + ('    printf("%d\\n", vp_lib());\n' if libval else '')
        if fault == 'undefined':
            mt = 'int vp_undefined(void);\n' + mt + '    vp_undefined();\n'
        mt += '    return argc;\n}\n'
        if mode == 'shared':
            if libval:
                files[inputs[main]] += 'int vp_lib(void); int vp_user(void) { return vp_lib(); }\n'
                mt = mt.replace('vp_lib', 'vp_user')
        else:
            files[inputs[main]] += mt
        # results
        outs = []         # (path, inputs index)
        if mode in ('-c', '-S'):
            for i, k in enumerate(kinds):
                if k == 'o' or mode == '-S' and k == 's':
                    continue
                outs.append((i, os.path.splitext(inputs[i])[0] + {'-c': '.o', '-S': '.s'}[mode] if '.' in os.path.basename(inputs[i]) else inputs[i] + {'-c': '.o', '-S': '.s'}[mode]))
        ofile = None
        if (mode in ('link', 'shared') or n == 1) and (s.n(3) or fault == 'no-directory'):
            ofile = s.choice(OUTS)
            if mode in ('-S',) and s.n(4) == 0 and fault != 'no-directory':
                ofile = '-'
                self.feats.add('-o-')
            if fault == 'no-directory':
                ofile = 'no_such_directory/' + ofile
            groups.append(['-o', ofile] if s.p(70) else ['-o' + ofile])
            self.feats.add('-o')
        elif fault == 'no-directory':
            fault = None
        if mode in ('link', 'shared'):
            outs = [(-1, ofile or 'a.out')]
        elif ofile and mode != '-E':
            outs = [(0, ofile)]
        elif mode == '-E':
            outs = [(0, ofile)] if ofile else []
        if ofile == '-':
            outs = []
        stale = s.n(4) == 0 and bool(outs) and fault != 'no-directory'
        if stale:
            self.feats.add('stale-output')
        if mapfile:
            outs.append((-2, mapfile))
        # the command line
        if mode in ('-c', '-S', '-E'):
            groups.append([mode])
        if fault == 'unknown-option':
            groups.append([s.choice(['--nonsense', '-Z', '-fnonsense', '--', '-cc', '-Ex', '-c1', '-SS', '-gg', '-vv', '-sharedx', '-fPICx', '-Werror=', '-EE'])])
        cmd_inputs = list(inputs)
        if fault == 'missing-input':
            cmd_inputs.insert(s.n(n + 1), 'no such file.c')
            if ofile and mode not in ('link', 'shared'):
                groups = [g for g in groups if g[0][:2] != '-o']
                outs = [o for o in outs if o[0] < 0]
                outs = outs + [(i, os.path.splitext(inputs[i])[0] + {'-c': '.o', '-S': '.s'}[mode] if '.' in os.path.basename(inputs[i]) else inputs[i] + {'-c': '.o', '-S': '.s'}[mode]) for i, k in enumerate(kinds) if k != 'o' and not (mode == '-S' and k == 's')] if mode != '-E' else outs
                ofile = None
        # the relative order of -I and -L options and of inputs matters, nothing else does
        slots = [('g', g) for g in groups] + [('f', [f]) for f in cmd_inputs]
        perm = s.shuffle(slots)
        gi, fi = iter([g for g in groups if g[0][:2] in ('-I', '-L', '-D', '-l')]), iter(cmd_inputs)
        argv = []
        for k, g in perm:
            if k == 'f':
                argv.append(next(fi))
            elif g[0][:2] in ('-I', '-L', '-D', '-l'):
                argv += next(gi)
            else:
                argv += g
        fails = fault is not None or (warn and werror and not wno and mode != '-E')
        meta = {'argv': argv, 'mode': mode, 'inputs': inputs, 'kinds': kinds, 'pre': pre, 'outs': outs, 'expect': expect, 'fails': fails, 'fault': fault, 'victim': victim, 'n': n, 'main': main,
                'stale': stale, 'libval': libval, 'debug': debug, 'stdout': mode == '-E' and not ofile or ofile == '-', 'warning': warn and not wno and mode != '-E', 'main_text': mt if mode == 'shared' else None}
        for d in DIRS:
            if d:
                files[d + 'keep'] = 'x'
        return Case(files, meta, sorted(self.feats), n > 1 or len(argv) > 4)


TEMP = re.compile(rb'/tmp/[A-Za-z0-9]{6}\.[so]\b')


def snapshot(wd):
    r = {}
    for d, _, fs in os.walk(wd):
        for f in fs:
            p = os.path.join(d, f)
            r[os.path.relpath(p, wd)] = read(p)
    return r


class Driver(ProgCheck):
    id = 'C20'
    batch = 8
    quick_chunks = 250
    thorough_chunks = 4000
    rule = ('a random command line over 1-4 generated inputs (.c, .s, .o, no extension; odd names and directories) with -E, -S, -c, linking or -shared, -o, -D, -I, -L, -l, -Wl, -g, -Werror, --trigraphs and '
            'options without effect on the result, in any order; a third with an injected failure. Compared with a model: exit status, files created, inputs unchanged, temporary files gone, contents linked and run. '
            'Non-trivial: several inputs or more than four arguments')
    assumptions = ['gcc, as and ar work']

    def gen(self, s):
        return Model(s).case()

    def judge(self, ctx, case, wd, counters=None):
        m = case.meta
        aux = ctx.workdir()
        try:
            return self.judge2(ctx, m, wd, aux)
        finally:
            shutil.rmtree(aux, ignore_errors=True)

    def judge2(self, ctx, m, wd, aux):
        def gcc(args, inp=None):
            r = proc.run(['gcc', '-w'] + args, wd, inp=inp)
            return r

        def fail(what):
            return '%s\ncommand: wcc %s' % (what, ' '.join(m['argv']))
        for kind, path, text in m['pre']:
            p = os.path.join(wd, path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if kind == 'a':
                o = os.path.join(aux, 'l.o')
                r = gcc(['-x', 'c', '-', '-fPIC', '-c', '-o', o], text.encode())
                assert r.rc == 0, r.err
                r = proc.run(['ar', 'rcs', p, o], wd)
            else:
                o = os.path.join(aux, 'pre.' + kind)
                r = gcc(['-x', 'c', '-', '-fPIC', '-S' if kind == 's' else '-c', '-o', o], text.encode())
                if r.rc == 0:
                    shutil.copyfile(o, p)
            assert r.rc == 0, r.err
        if m['fault'] == 'bad-asm':
            with open(os.path.join(wd, m['inputs'][m['victim']]), 'a') as f:
                f.write('\tnosuchinstruction %rax, %rbx\n')
        env = {}
        if m['fault'] in ('as-fails', 'as-killed'):
            p = os.path.join(aux, 'as')
            with open(p, 'w') as f:
                f.write('#!/bin/sh\n' + ('exit 3\n' if m['fault'] == 'as-fails' else 'kill -9 $$\n'))
            os.chmod(p, 0o755)
            env['AS'] = p
        outs = {p: i for i, p in m['outs']}
        if m['stale']:
            for p in outs:
                with open(os.path.join(wd, p), 'w') as f:
                    f.write('stale')
        before = snapshot(wd)
        r = proc.run([ctx.wcc] + m['argv'], wd, env=env)
        after = snapshot(wd)
        if r.timeout:
            return fail('wcc does not end')
        temps = sorted(set(TEMP.findall(r.out)))
        left = [t for t in temps if os.path.exists(t)]
        if left:
            for t in left:
                os.unlink(t)
            return fail('temporary files are left behind: %s' % left)
        if r.rc < 0:
            return fail('wcc is killed by signal %d' % -r.rc)
        if bool(r.rc) != m['fails']:
            return fail('exit status is %d, expected %s: %s' % (r.rc, 'a failure (%s)' % m['fault'] if m['fails'] else '0', r.err.decode('utf-8', 'replace')[-400:]))
        norm = {os.path.normpath(p): i for p, i in outs.items()}
        for p, b in before.items():
            if p not in after:
                if p in norm and m['fails']:
                    continue
                return fail('%s is removed' % p)
            if after[p] != b and p not in norm:
                return fail('%s is modified' % p)
        for p in after:
            if p not in before and p not in norm:
                return fail('unexpected file %s' % p)
        if m['fails']:
            # the step that failed has no output
            whole = m['mode'] in ('link', 'shared')
            for p, i in norm.items():
                if i == -2:
                    continue
                bad = whole or m['fault'] in ('unknown-option', 'no-directory', 'as-fails', 'as-killed') or i == m['victim'] and m['fault'] in ('syntax', 'type', 'missing-header', 'bad-asm')
                if bad and p in after and after[p] != before.get(p):
                    return fail('%s is written although the step that makes it failed (%s)' % (p, m['fault']))
            return None
        for p in norm:
            if p not in after or after[p] == b'stale':
                return fail('%s is not written' % p)
        warned = b'arning' in b'\n'.join(l for l in r.err.split(b'\n') if l.startswith(tuple(x.encode() for x in m['inputs'])))
        if '-v' not in m['argv'] and warned != m['warning']:
            return fail('%s warning: %s' % ('no' if m['warning'] else 'unexpected', r.err.decode('utf-8', 'replace')[-300:]))
        # link what was made and run it
        stdout = b'\n'.join(l for l in r.out.split(b'\n') if not l.startswith((b'Compiling ', b'Assembling ', b'Running linker')))
        libs = ['-L' + os.path.join(wd, 'lib1' if m['libval'] == 1000 else 'lib 2'), '-lvp'] if m['libval'] else []
        prog = os.path.join(aux, 'prog')
        # names gcc takes for what they are
        objs = []

        def add(data, ext):
            p = os.path.join(aux, 'i%d%s' % (len(objs), ext))
            with open(p, 'wb') as f:
                f.write(data)
            objs.append(p)
        mode = m['mode']
        if mode == 'link':
            prog = os.path.join(aux, 'prog')
            with open(prog, 'wb') as f:
                f.write([after[p] for p, i in norm.items() if i == -1][0])
            if not os.stat(os.path.join(wd, [p for p, i in norm.items() if i == -1][0])).st_mode & stat.S_IXUSR:
                return fail('the program is not executable')
            os.chmod(prog, 0o755)
        else:
            made = {i for i in norm.values()}
            if mode == 'shared':
                add([after[p] for p, i in norm.items() if i == -1][0], '.so')
                r2 = gcc(['-x', 'c', '-', '-x', 'none', objs[0], '-Wl,-rpath,' + aux, '-o', prog], m['main_text'].encode())
            else:
                ext = {'-c': '.o', '-S': '.s', '-E': '.i'}[mode]
                if m['stdout']:
                    add(stdout, ext)
                    made = {i for i, k in enumerate(m['kinds']) if k in ('c', 'noext')}
                else:
                    for p, i in norm.items():
                        add(after[p], ext)
                if m['debug'] and mode == '-S' and any(b'.loc' not in read(o) for o in objs):
                    return fail('-g has no effect')
                if not m['debug'] and mode == '-S' and any(b'.loc' in read(o) for o in objs):
                    return fail('line numbers without -g')
                for i, k in enumerate(m['kinds']):
                    if i not in made and k in ('s', 'o'):
                        add(after[m['inputs'][i]], '.' + k)
                r2 = gcc(objs + libs + ['-no-pie', '-o', prog])
            if r2.rc:
                return fail('what wcc made cannot be linked: %s' % r2.err.decode('utf-8', 'replace')[-400:])
        r3 = proc.run([prog], wd)
        exp = ''.join(x + '\n' for x in m['expect']).encode()
        if r3.out != exp or r3.rc != 1:
            return fail('the program prints %r and returns %d, expected %r and 1' % (r3.out[:200], r3.rc, exp))
        return None


CHECK = Driver()
