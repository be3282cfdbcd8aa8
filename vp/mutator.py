"""Damage to program text: tokens deleted, repeated, swapped, replaced; characters broken."""
import re
from . import ctok

PIECES = ['int', 'char', 'unsigned', 'long', 'short', 'signed', 'float', 'double', 'void', 'struct', 'union', 'enum', 'typedef', 'static', 'extern', 'const', 'volatile', 'register', 'auto', 'inline',
          'if', 'else', 'while', 'for', 'do', 'switch', 'case', 'default', 'goto', 'break', 'continue', 'return', 'sizeof', '__attribute__', '__restrict', '__asm__',
          '{', '}', '(', ')', '[', ']', ';', ',', '.', '->', '...', '*', '&', '+', '-', '++', '--', '!', '~', '/', '%', '<<', '>>', '<', '>', '<=', '==', '&&', '||', '?', ':', '=', '+=', '<<=', '#', '##',
          '0', '1', '-1', '42', '1.5', '0x7fffffff', '1e400', '1e-400', '18446744073709551615', '99999999999999999999999', '0x', '0b1', '08', '1.0f', '1.5L', '1ul', "'a'", "''", "'\\", "'abcdefghi'",
          "L'x'", '"s"', 'L"w"', '"\\x"', '"\\777"', 'main', 'x', 'undeclared', 'va_list', '__builtin_va_arg', 'defined', '__LINE__', '__FILE__', 'int x;', 'struct { int a; } s;', '(int)', '(void)', '{ }', '({ 1; })',
          '(char *) 0', 'sizeof(int)', 'a ? b : c', 'int (*)(int)', 'int f();', 'label:', 'goto label;', 'case 1:', 'default:', 'else', '[3]', '= { 1, 2 }', '= { { { 1 } } }', ': 3', '\n#if 1\n', '\n#endif\n', '\n#else\n', '\n#define M(x) x\n',
          '\n#define M M\n', 'M(', '\n#include "a.c"\n', '\n#undef M\n', '\n#line 5\n']
CHARS = ['\0', '\\', '"', "'", '\n', '\t', '#', '/*', '*/', '//', '\\\n', '??/', '\x01', '\x7f', '\xc3\xa9', '@', '`', '$', '(', '{', '}', ')', '"\n', '..', '\r', '\x0c']


def damage(s, text, steps):
    """damaged text and the kinds of damage"""
    toks = [t[1] if not (t[2] and i) else '\n' + t[1] for i, t in enumerate(ctok.tokens(text))]
    if not toks:
        return text, set()
    kinds = set()
    lo = 0
    for _ in range(steps):
        if not toks:
            break
        # most of the damage in the later part; the prelude is not interesting
        i = s.n(len(toks))
        k = s.n(12)
        if k == 0:
            del toks[i]
            kinds.add('delete')
        elif k == 1:
            toks.insert(i, toks[i])
            kinds.add('repeat')
        elif k == 2:
            j = s.n(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
            kinds.add('swap')
        elif k == 3:
            toks[i] = s.choice(PIECES)
            kinds.add('replace')
        elif k == 4:
            toks.insert(i, s.choice(PIECES))
            kinds.add('insert')
        elif k == 5:
            # another token of the program
            toks[i] = toks[s.n(len(toks))].lstrip('\n')
            kinds.add('replace-by-own')
        elif k == 6:
            n = 1 + s.n(8)
            del toks[i:i + n]
            kinds.add('delete-run')
        elif k == 7:
            n = 1 + s.n(12)
            j = s.n(len(toks))
            toks[j:j] = toks[i:i + n]
            kinds.add('copy-run')
        elif k == 8:
            toks[i] = toks[i] + s.choice(CHARS)
            kinds.add('character')
        elif k == 9:
            t = toks[i]
            c = s.n(len(t))
            toks[i] = t[:c] + s.choice(['', s.choice(CHARS)]) + t[c + 1:]
            kinds.add('character')
        elif k == 10:
            # a declaration or a statement goes
            j = i
            while j < len(toks) and toks[j] != ';':
                j += 1
            del toks[i:j + 1]
            kinds.add('delete-statement')
        else:
            del toks[i:]
            kinds.add('truncate')
    return ' '.join(toks), kinds
