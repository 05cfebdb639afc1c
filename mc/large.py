"""Programs at the large end: many inputs, long chains, many shared intermediates, many results, big constants, values that
are not numbers where nothing may look.  Every size up to a bound, then sizes around the powers of two beyond it."""
import numpy as np
from . import ref
from .e2e import Prog
from .types import K

I = lambda i: ('in', i)


def left(op, xs):
    e = xs[0]
    for t in xs[1:]:
        e = (op, e, t)
    return e


def right(op, xs):
    e = xs[-1]
    for t in xs[-2::-1]:
        e = (op, t, e)
    return e


def bal(op, xs):
    if len(xs) == 1:
        return xs[0]
    h = len(xs) // 2
    return (op, bal(op, xs[:h]), bal(op, xs[h:]))


def sizes(x):
    return [5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 33, 40] + x.pick([], [50, 64, 66, 80])


def ins(n):
    return [I(i) for i in range(n)]


def chains(x):
    """sums, differences and products of n inputs, in the three basic tree shapes"""
    out = []
    for n in sizes(x):
        xs = ins(n)
        for j, f in enumerate((left, right, bal)):
            out.append(Prog('vga', ('float',) * n, f('+', xs)))
            out.append(Prog('vga', ('float',) * n, f('-', xs)))
            out.append(Prog('vga', ('float',) * n, f('*', xs), tol=1e-8))
            ks = [('vga.v2', 'vga.b2', 'vga.mix', 'float')[(i + j) % 4] for i in range(n)]
            out.append(Prog('vga', ks, f('+', xs)))
            out.append(Prog('vga', ks, f('-', [('imul', i % 7 - 3, t) for i, t in enumerate(xs)])))
            if n <= x.pick(17, 24):
                out.append(Prog('vga', ('vga.v1',) * (n - 2) + ('vga.v2', 'vga.b2'), f('*', xs)))
                out.append(Prog('vga', ('vga.scalar',) * (n - 2) + ('vga.v2', 'vga.b2'), f('^', xs)))
        out.append(Prog('pga', ('pga.v2',) * n, left('+', [('*', xs[i], xs[n - 1 - i]) for i in range(n // 2)])))
        out.append(Prog('cga2', ('cga2.v2',) * n, bal('+', [('^', xs[i], xs[(i + 1) % n]) for i in range(n)])))
    return out


def deep(x):
    """one or two inputs under long towers of unary and binary operators"""
    out = []
    a, b = I(0), I(1)
    for n in sizes(x):
        e, f, g, h = a, a, a, a
        for i in range(n):
            e = [('~', e), ('!', e), ('imul', -1, e), ('neg', e), ('addi', e, 1)][i % 5]
            f = [('+', f, b), ('~', f), ('-', b, f), ('!', f)][i % 4]
            g = ('+', ('imul', 1 if i % 2 else -1, g), b)
            h = ('^', h, b) if i % 2 else ('+', b, h)
        out += [Prog('vga', ('vga.mix',), e), Prog('vga', ('vga.mix', 'vga.b2'), f), Prog('pga', ('pga.mix', 'pga.v2'), g), Prog('pga2', ('pga2.mix', 'pga2.line'), h)]
        out.append(Prog('vga', ('vga.mix', 'vga.b2'), left('+', [[('*', a, b), ('^', b, a), a, ('imul', 2, b), ('~', a), ('>>', a, b)][i % 6] for i in range(n)])))
    return out


def polynomials(x):
    out = []
    for n, k in ((4, 4), (5, 4), (6, 3), (8, 3), (3, 8), (2, 12), (12, 2)) + x.pick((), ((4, 6), (10, 3), (20, 2))):
        ks, xs = ('float',) * n, ins(n)
        rot = [left('+', [('imul', j + 1, t) for j, t in enumerate(xs[i % n:] + xs[:i % n])]) for i in range(k)]
        out.append(Prog('vga', ks, left('*', rot), tol=1e-8))
        out.append(Prog('vga', ks, bal('*', rot), tol=1e-8))
        out.append(Prog('vga', ks, ('-', left('*', rot), right('*', rot)), tol=1e-8))
    for n in x.pick((14, 20, 31, 33, 40, 65), (14, 20, 31, 33, 40, 65, 100, 130)):
        out.append(Prog('vga', ('float',), left('*', [I(0)] * n), scale=0.25, tol=1e-8))
        out.append(Prog('vga', ('float', 'float'), left('*', [I(i * i % 2) for i in range(n)]), scale=0.25, tol=1e-8))
        out.append(Prog('vga', ('float', 'float'), bal('*', [('+', I(0), I(1)) if i < 2 else I(i % 2) for i in range(n)]), scale=0.25, tol=1e-8))
    for n in x.pick((10, 16), (10, 16, 20)):
        out.append(Prog('vga', ('vga.v2', 'vga.b2'), left('*', [I(i % 2) for i in range(n)]), scale=0.25, tol=1e-8))
        out.append(Prog('pga', ('pga.v2', 'pga.b2'), right('*', [I(i % 2) for i in range(n)]), scale=0.25, tol=1e-8))
    return out


def shares(x):
    out = []
    for n in [m for m in sizes(x) if m <= x.pick(24, 40)]:
        xs = ins(n)
        p = [('*', xs[i], xs[i + 1]) for i in range(n - 1)]
        out.append(Prog('vga', ('float',) * n, left('+', [('*', t, t) for t in p])))                    # n shared intermediates
        out.append(Prog('vga', ('float',) * n, left('+', p + p[::-1])))                                # far apart
        e = ('*', I(0), I(1))
        for i in range(min(n, 10)):                                                                     # shared inside shared
            e = ('+', ('*', e, I(1)), e) if i % 2 else ('-', e, ('*', I(0), e))
        out.append(Prog('vga', ('float', 'float'), e, scale=0.25, tol=1e-7))
        out.append(Prog('vga', ('vga.mix', 'vga.b2'), left('+', [('*', I(0), I(1))] * n)))              # n occurrences
        out.append(Prog('vga', ('vga.mix', 'vga.b2'), left('+', [('imul', i + 1, ('*', I(0), I(1))) for i in range(n)])))
        out.append(Prog('pga2', ('pga2.line', 'pga2.mix'), bal('+', [('*', ('+', I(0), ('imul', i, I(1))), ('+', I(0), ('imul', i, I(1)))) for i in range(min(n, 12))])))
    return out


def functions(x):
    out = []
    for n in [m for m in sizes(x) if m <= x.pick(20, 40)]:
        xs = ins(n)
        F = ('sin', 'cos', 'sqrt')
        out.append(Prog('vga', ('float',) * n, left('+', [(F[i % 2], t) for i, t in enumerate(xs)])))
        out.append(Prog('vga', ('float',) * n, left('+', [('/', I((i + 1) % n), t) for i, t in enumerate(xs)])))
        out.append(Prog('vga', ('float',) * n, left('+', [('*', ('sin', t), ('sin', t)) for t in xs])))
        e = I(0)
        for i in range(min(n, 14)):
            e = (('sin', 'cos')[i % 2], ('+', e, I(1)))
        out.append(Prog('vga', ('float', 'float'), e))
    return out


def results(x):
    out = []
    for n in [m for m in sizes(x) if m <= x.pick(33, 66)]:
        xs = ins(n)
        out.append(Prog('vga', ('float',) * n, [('*', xs[i], xs[(i + 1) % n]) for i in range(n)]))
        out.append(Prog('vga', ('vga.mix', 'vga.b2'), [[('imul', i, I(0)), ('*', I(0), ('imul', i + 1, I(1))), ('lit', 1, i), ('+', I(1), ('idiv', I(0), i + 1)), ('^', I(0), I(1))][i % 5] for i in range(n)]))
        if n < 18:
            s = ('*', I(0), I(1))
            out.append(Prog('cga2', ('cga2.v2', 'cga2.mix'), [('+', ('imul', i, s), ('*', s, s)) if i % 3 else s for i in range(n)]))
    return out


def manyinputs(x):
    out = []
    for n in sizes(x) + x.pick([], [130, 260]):
        # the operands sit last, first and in the middle behind many components nobody uses
        for at in {0, n // 2, n - 2}:
            ks = ['pga.full'] * n
            ks[at], ks[at + 1] = 'pga.v2', 'pga.mix'
            out.append(Prog('pga', ks, ('*', I(at), I(at + 1))))
        ks = [('vga.vector', 'float', 'vga.rotor', 'vga.zero', 'vga.full')[i % 5] for i in range(n)]
        out.append(Prog('vga', ks, ('+', ('*', I(n - 1), I(0)), ('*', I(n // 2), I(1)))))
        out.append(Prog('vga', ks, ('-', I(n - 2), ('*', ('sin', I(1)), ('+', I(n - 1), I(n - 1))))))
    return out


def notnumbers(x):
    """inputs, and components of inputs, that the expression does not use hold infinities and not-a-numbers"""
    out = []
    bad = (float('nan'), float('inf'), -float('inf'))
    a, b = I(0), I(1)

    memo = {}

    def pts(kinds, free):
        key = (sum(K[k].n for k in kinds), tuple(free))
        if key not in memo:
            memo[key] = pts_(kinds, free)
        return memo[key]

    def pts_(kinds, free):
        n = sum(K[k].n for k in kinds)
        rows = []
        for r in range(6):
            rows.append([bad[(r + j) % 3] if j in free else (j * 7 + r * 5) % 11 - 4.5 for j in range(n)])
        return np.array(rows)
    for alg, k in (('vga', ('vga.mix', 'vga.b2')), ('pga', ('pga.mix', 'pga.v2')), ('pga2', ('pga2.mix', 'pga2.line')), ('cga', ('cga.v2', 'cga.mix')), ('cga2', ('cga2.v2', 'cga2.mix'))):
        n0, n1 = K[k[0]].n, K[k[1]].n
        for e in (a, ('*', a, a), ('imul', 2, a), ('/', a, ('addi', ('*', ('[]', a, 0), ('[]', a, 0)), 3)), ('+', ('*', a, a), ('^', a, a)), ('imul', 0, a), ('cos', ('[]', ('*', a, a), 0))):
            out.append(Prog(alg, k, e, pts=pts(k, range(n0, n0 + n1))))
            out.append(Prog(alg, (k[1], k[0], alg + '.full'), sub1(e), pts=pts((k[1], k[0], alg + '.full'), list(range(n1)) + list(range(n0 + n1, n0 + n1 + K[alg + '.full'].n)))))
        if alg in ('vga', 'pga', 'pga2'):
            f = alg + '.full'
            A = ref.ALG[alg]
            for bl in range(0, 1 << A.dim, 1 if alg != 'pga' else 3):
                keep = lambda js: pts((f,), [j for j in range(K[f].n) if j not in js])
                out.append(Prog(alg, (f,), ('[]', a, bl), pts=keep([bl])))
                out.append(Prog(alg, (f,), ('+', ('[]', a, bl), ('imul', 2, ('[]', ('~', a), bl))), pts=keep([bl])))
            for g in range(A.dim + 1):
                js = [e for e in range(1 << A.dim) if A.grade(e) == g]
                out.append(Prog(alg, (f,), ('grade', a, g), pts=pts((f,), [j for j in range(K[f].n) if j not in js])))
                out.append(Prog(alg, (f,), ('*', ('grade', a, g), ('grade', ('~', a), g)), pts=pts((f,), [j for j in range(K[f].n) if j not in js])))
    return out


def sub1(e):
    return ('in', 1) if e == ('in', 0) else tuple(sub1(t) if isinstance(t, tuple) else t for t in e)


def magnitudes(x):
    """the same small programs over inputs from 1e-27 to 1e27"""
    out = []
    a, b = I(0), I(1)
    for alg, k in (('vga', ('vga.mix', 'vga.b2')), ('pga', ('pga.mix', 'pga.v2')), ('cga2', ('cga2.v2', 'cga2.mix'))):
        n = sum(K[q].n for q in k)
        for t in (-90, -40, -24, -10, 10, 24, 40, 90):       # powers of two: the products are exact
            P = np.array([[2.0 ** t * ((j * 7 + r * 5) % 11 - 4.5) for j in range(n)] for r in range(4)])
            for e in (a, ('*', a, b), ('+', a, b), ('~', ('^', a, b)), ('*', ('*', a, b), a), ('/', a, ('[]', ('*', a, a), 0)), ('sqrt', ('[]', ('*', ('[]', ('*', a, a), 0), ('[]', ('*', a, a), 0)), 0)), ('%', a, b)):
                out.append(Prog(alg, k, e, pts=P, floor=1e-280))
    return out
