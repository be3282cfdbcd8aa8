"""The program generators of the other checks, as one source of units for checks that need programs of every kind."""
from .checks import c01_int, c02_float, c03_control, c04_memory, c05_bitfields, c06_init

MEMBERS = (c01_int.CHECK, c02_float.CHECK, c03_control.CHECK, c04_memory.CHECK, c05_bitfields.CHECK, c06_init.CHECK)


# the memory the compiler needs grows with the square of the size of a function
MAX_BODY = 60000


def unit(src, only=None):
    m = only or MEMBERS
    c = m[src.n(len(m))]
    for _ in range(4):
        u = c.gen(src)
        if len(u.body) < MAX_BODY:
            break
    else:
        u.body = ''
    u.features = ('from-' + c.id,)
    u.expect = None
    return u


def program(src, max_units=4, all_kinds=True):
    """text of a valid translation unit made of the units of one or several generators"""
    from .cdiff import PRELUDE
    from .checks import c07_abi, c08_varargs, c09_pressure
    from . import scale
    parts = [PRELUDE]
    feats = set()
    for i in range(1 + src.n(max_units)):
        k = src.n(10) if all_kinds else 0
        if k == 9:
            c = (c07_abi.CHECK, c08_varargs.CHECK)[src.n(2)]
            u = c.gen(src)
            f = 'from-' + c.id
        elif k in (7, 8):
            if k == 8 and src.p(30):
                u = scale.unit(src)
                f = 'scale'
            else:
                u = c09_pressure.Gen(src).gen()
                f = 'from-C09'
        else:
            u = unit(src)
            f = u.features[0]
        feats.add(f)
        parts.append(u.text('u%d_' % i))
    return ''.join(parts), feats


def macro_program(src, text, steps):
    """the program text with macros; unchanged when it has directives of its own"""
    from . import ctok
    if '#' in text:
        return text, set()
    d, p, f = ctok.macroize(src, text, steps)
    return d + '\n' + p, set(f) | {'macros'}
