import os, resource, signal, subprocess


class Res:
    __slots__ = ('rc', 'out', 'err', 'timeout')

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def _limits(mem_mb, cpu, fsize_mb):
    def f():
        os.setsid()
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize_mb << 20, fsize_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


BASE_ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C',
            'HOME': os.environ.get('HOME', '/root'),
            'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:abort_on_error=0', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=77:print_stacktrace=1'}


def run(cmd, cwd, timeout=60, mem_mb=3000, cpu=40, inp=None, env=None, fsize_mb=256):
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                         preexec_fn=_limits(mem_mb, cpu, fsize_mb))
    try:
        out, err = p.communicate(inp, timeout=timeout)
        return Res(p.returncode, out, err)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return Res(-9, out, err, True)
