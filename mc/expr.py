"""Expression programs: nested tuples, with two independent readings.

  cpp(ast)          the C++ text handed to the library's compute()
  value(alg, ast)   the mathematical value, computed with mc.ref on numpy vectors of inputs

Node kinds
  ('in', i)                     i-th input
  ('lit', blade, n)             integer multiple of a basis blade literal (n_e12 ...)
  ('c', name, num, den)         named constant: (num/den)*PI or E (only under * and /)
  binary: + - * ^ & >> | % sp(scalar_product) /
  unary:  neg ~ ! sqrt sin cos tan exp
  with integer parameter: ('imul', n, x)  n*x    ('idiv', x, n) x/n    ('iadd', n, x) n+x
                          ('addi', x, n)  x+n    ('isub', n, x) n-x    ('subi', x, n) x-n
                          ('irec', n, x)  n/x
                          ('[]', x, e)  ('grade', x, g)
"""
import numpy as np
from . import ref

NAMES = list('abcdefgh') + ['i%d' % i for i in range(8, 300)]
BIN = {'+', '-', '*', '^', '&', '>>', '|', '%', 'sp', '/'}
FUN = {'sqrt', 'sin', 'cos', 'tan', 'exp'}
UN = {'neg', '~', '!'} | FUN

LITS = {
    'vga': {1: 'e0', 2: 'e1', 4: 'e2', 3: 'e01', 5: 'e02', 6: 'e12', 7: 'e012'},
    'pga': {1: 'e0', 2: 'e1', 4: 'e2', 8: 'e3', 3: 'e01', 5: 'e02', 9: 'e03', 6: 'e12', 10: 'e13',
            12: 'e23', 7: 'e012', 11: 'e013', 13: 'e023', 14: 'e123', 15: 'e0123'},
    'pga2': {1: 'e0', 2: 'e1', 4: 'e2', 3: 'e01', 5: 'e02', 6: 'e12', 7: 'e012'},
    'cga': {1: 'e1', 2: 'e2', 4: 'e3', 8: 'no', 16: 'ni', 31: 'ps'},
    'cga2': {1: 'e1', 2: 'e2', 4: 'no', 8: 'ni', 15: 'ps'},
}


def cpp(alg, n):
    k = n[0]
    c = lambda x: cpp(alg, x)
    if k == 'in':
        return NAMES[n[1]]
    if k == 'lit':
        return '(%d_%s)' % (n[2], LITS[alg][n[1]])
    if k == 'c':
        s = '::gal::' + n[1]
        if n[2] != 1:
            s = '(%d * %s)' % (n[2], s)
        if n[3] != 1:
            s = '(%s / %d)' % (s, n[3])
        return s
    if k == 'sp':
        return 'scalar_product(%s, %s)' % (c(n[1]), c(n[2]))
    if k in BIN:
        return '(%s %s %s)' % (c(n[1]), k, c(n[2]))
    if k == 'neg':
        return '(-%s)' % c(n[1])
    if k in ('~', '!'):
        return '(%s%s)' % (k, c(n[1]))
    if k in FUN:
        return '%s(%s)' % (k, c(n[1]))
    if k == 'imul':
        return '(%d * %s)' % (n[1], c(n[2]))
    if k == 'irec':
        return '(%d / %s)' % (n[1], c(n[2]))
    if k == 'idiv':
        return '(%s / %d)' % (c(n[1]), n[2])
    if k == 'iadd':
        return '(%d + %s)' % (n[1], c(n[2]))
    if k == 'isub':
        return '(%d - %s)' % (n[1], c(n[2]))
    if k == 'addi':
        return '(%s + %d)' % (c(n[1]), n[2])
    if k == 'subi':
        return '(%s - %d)' % (c(n[1]), n[2])
    if k == '[]':
        return '%s[%d]' % (c(n[1]), n[2])
    if k == 'grade':
        return '%s.select_grade(%d)' % (c(n[1]), n[2])
    raise ValueError(k)


class Undefined(Exception):
    pass


CONST = {'PI': float(np.pi), 'E': float(np.e)}


def value(A, n, env):
    """env: list of multivectors in the *natural* basis; result in the natural basis."""
    k = n[0]
    v = lambda x: value(A, x, env)
    if k == 'in':
        return env[n[1]]
    if k == 'lit':
        return A.to_natural({n[1]: np.float64(n[2])})
    if k == 'c':
        return {0: np.float64(CONST[n[1]] * n[2] / n[3])}
    if k == '+':
        return A.add(v(n[1]), v(n[2]))
    if k == '-':
        return A.add(v(n[1]), A.neg(v(n[2])))
    if k == '*':
        return A.gp(v(n[1]), v(n[2]))
    if k == '^':
        return A.ep(v(n[1]), v(n[2]))
    if k == '&':
        return A.regressive(v(n[1]), v(n[2]))
    if k == '>>':
        return A.lc(v(n[1]), v(n[2]))
    if k == '|':
        return A.sip(v(n[1]), v(n[2]))
    if k == '%':
        return A.sandwich(v(n[1]), v(n[2]))
    if k == 'sp':
        return A.comp(A.gp(v(n[1]), v(n[2])), 0)
    if k == '/':
        return A.scale(1 / scalar(v(n[2])), v(n[1]))
    if k == 'irec':
        return {0: n[1] / scalar(v(n[2]))}
    if k == 'neg':
        return A.neg(v(n[1]))
    if k == '~':
        return A.rev(v(n[1]))
    if k == '!':
        return A.dual(v(n[1]))
    if k in ('sqrt', 'sin', 'cos', 'tan'):
        return {0: getattr(np, k)(scalar(v(n[1])))}
    if k == 'imul':
        return A.scale(n[1], v(n[2]))
    if k == 'idiv':
        return A.scale(1.0 / n[2], v(n[1]))
    if k == 'iadd':
        return A.add({0: np.float64(n[1])}, v(n[2]))
    if k == 'addi':
        return A.add(v(n[1]), {0: np.float64(n[2])})
    if k == 'isub':
        return A.add({0: np.float64(n[1])}, A.neg(v(n[2])))
    if k == 'subi':
        return A.add(v(n[1]), {0: np.float64(-n[2])})
    if k == '[]':       # components are those of the user's basis
        return A.comp(A.to_null(v(n[1])), n[2])
    if k == 'grade':
        return A.select(v(n[1]), n[2])
    raise ValueError(k)


def scalar(x):
    for b, c in x.items():
        if b != 0 and np.any(c != 0):
            raise Undefined('not a scalar')
    return x.get(0, np.float64(0.0))


def kids(n):
    return [x for x in n[1:] if isinstance(x, tuple)]


def subs(n):
    yield n
    for x in kids(n):
        yield from subs(x)


def inputs(n):
    return {x[1] for x in subs(n) if x[0] == 'in'}


def size(n):
    """number of operator nodes"""
    return sum(1 for x in subs(n) if x[0] not in ('in', 'lit', 'c'))


def expand(n):
    """derived operators in terms of the primitive ones they are defined by"""
    k = n[0]
    if k == '%':
        a, b = expand(n[1]), expand(n[2])
        return ('*', ('*', b, a), ('~', b))
    if k == '&':
        return ('!', ('^', ('!', expand(n[1])), ('!', expand(n[2]))))
    return tuple(expand(x) if isinstance(x, tuple) else x for x in n)


def repeats(n):
    """True if some non-leaf subexpression occurs more than once (possible sharing)"""
    seen = set()
    for x in subs(expand(n)):
        if x[0] in ('in', 'lit', 'c'):
            continue
        if x in seen:
            return True
        seen.add(x)
    return False


SCALE = {'neg', 'imul', 'idiv'}


def same_value(alg, n, env):
    """True if two different computations inside n have proportional values: the library may recognise them as one
    and share them, so the exact component set is not promised"""
    A = ref.ALG[alg]
    subs_ = [x for x in dict.fromkeys(subs(expand(n))) if x[0] not in ('in', 'lit', 'c') and x[0] not in SCALE]
    vals = []
    for x in subs_:
        try:
            v = value(A, x, env)
        except Undefined:
            return True
        v = {b: float(c) for b, c in v.items() if abs(float(c)) > 1e-9}
        if not v:
            continue
        m = min(v)
        vals.append({b: c / v[m] for b, c in v.items()})
    for i in range(len(vals)):
        for j in range(i):
            if vals[i].keys() == vals[j].keys() and all(abs(vals[i][b] - vals[j][b]) < 1e-9 * max(1, abs(vals[i][b])) for b in vals[i]):
                return True
    return False
