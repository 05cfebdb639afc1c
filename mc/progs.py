"""The program spaces explored end to end, shared by the checks."""
import itertools
import numpy as np
from . import expr, gen, ref
from .e2e import Prog
from .types import K

a, b, c, d = gen.ins(4)
ALGS = ('vga', 'pga', 'pga2', 'cga', 'cga2')
# per model: pairs of input kinds used by expression sweeps (mixed grades, overlapping and disjoint blades)
PAIRS = {'vga': ('vga.mix', 'vga.b2'), 'pga': ('pga.mix', 'pga.v2'), 'pga2': ('pga2.mix', 'pga2.line'),
         'cga': ('cga.v2', 'cga.mix'), 'cga2': ('cga2.v2', 'cga2.mix')}
SCALARS = {'vga': ('float', 'vga.scalar'), 'pga': ('pga.scalar', 'float'), 'pga2': ('float', 'pga2.scalar'), 'cga': ('cga.scalar', 'float'), 'cga2': ('float', 'cga2.scalar')}
IUN = [('imul', 0), ('imul', -1), ('imul', 2), ('imul', 3), ('idiv', -1), ('idiv', 2), ('idiv', 3), ('iadd', 1), ('iadd', 0), ('addi', -2), ('isub', 1), ('subi', 2)]
FUN = ['sqrt', 'sin', 'cos', 'tan']


def plain(alg, kinds, asts, **kw):
    """programs with the component-exactness requirement wherever it applies"""
    return [Prog(alg, kinds, x, exact=exactable(x, kinds, alg), **kw) for x in asts]


def has(x, names):
    return any(s[0] in names for s in expr.subs(x))


_ENV = {}


def _env(kinds):
    """one generic point per tuple of kinds"""
    if kinds not in _ENV:
        out, q = [], 0
        for k in kinds:
            xs = []
            for _ in range(K[k].n):
                q += 1
                xs.append(np.float64(((q * 7919) % 1009) / 97.0 + 0.37 * (-1) ** q))
            out.append(K[k].mv(xs))
        _ENV[kinds] = out
    return _ENV[kinds]


def exactable(x, kinds, alg):
    """the exact component set is promised: no repeated computation, no division, function or named constant"""
    if expr.repeats(x) or has(x, ('/', 'irec', 'sqrt', 'sin', 'cos', 'tan', 'exp', 'c')) or any('rotor' in k for k in kinds):
        return False
    A = ref.ALG[alg]
    return not expr.same_value(alg, x, [A.to_natural(m) for m in _env(tuple(kinds))])


def sized(n, leaves, bins, uns):
    out = []
    for i in range(1, n + 1):
        out += gen.exact_size(i, leaves, bins, uns)
    return out


def every(seq, k, off=0):
    """deterministic 1-in-k thinning for the quick tier (the thorough tier uses k = 1)"""
    return list(seq)[off % k::k] if k > 1 else list(seq)
