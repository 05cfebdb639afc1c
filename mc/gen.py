"""Exhaustive enumerators of expression programs (every one up to the stated bound)."""
import itertools
from . import expr

BIN = ['+', '-', '*', '^', '&', '>>', '|', '%', 'sp']
UN = ['neg', '~', '!']


def exact_size(n, leaves, bins=BIN, uns=UN, cache=None):
    """all expressions with exactly n operator nodes"""
    cache = {} if cache is None else cache
    if n in cache:
        return cache[n]
    if n == 0:
        r = list(leaves)
    else:
        r = []
        for u in uns:
            for x in exact_size(n - 1, leaves, bins, uns, cache):
                r.append(wrap(u, x))
        for i in range(n):
            L = exact_size(i, leaves, bins, uns, cache)
            R = exact_size(n - 1 - i, leaves, bins, uns, cache)
            for op in bins:
                for l in L:
                    for q in R:
                        r.append((op, l, q))
    cache[n] = r
    return r


def wrap(u, x):
    """u: unary operator name, or a tuple (kind, parameter)"""
    if isinstance(u, tuple):
        k, p = u
        if k in ('imul', 'iadd', 'isub', 'irec'):
            return (k, p, x)
        return (k, x, p)
    return (u, x)


def canonical_inputs(asts, k):
    """keep one representative per renaming of interchangeable inputs: inputs appear in order"""
    out = []
    for a in asts:
        seen = []
        for s in expr.subs(a):
            if s[0] == 'in' and s[1] not in seen:
                seen.append(s[1])
        if seen == sorted(seen):
            out.append(a)
    return out


def ins(n):
    return [('in', i) for i in range(n)]
