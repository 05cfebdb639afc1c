"""C01-C10, C19: the algebra, the expression builder and the evaluation engine."""
import itertools
import numpy as np
from . import expr, gen, ref
from .e2e import Prog, Raw, forms
from .types import K, one_blade
from .progs import *
from . import large


def in2(x):
    return gen.canonical_inputs(x, 2)


# ------------------------------------------------------------------------------------------------ C01
def c01(x):
    x.explore('blade products, all signatures', 'blades_rt.cpp', [], defs=('DIM=8',))
    progs = []
    for alg in ALGS + ('m111', 'm030', 'm220', 'm202', 'm021'):
        f = alg + '.full'
        if alg == 'cga':
            ks = [('cga.full', 'cga.mix'), ('cga.mix', 'cga.full'), ('cga.full', 'cga.v2'), ('cga.flat', 'cga.full')]
        else:
            ks = [(f, f)]
        for k in ks:
            for op in ('*', '^', '>>', '|', '&', 'sp'):
                progs.append(Prog(alg, k, (op, a, b), exact=True))
        for u in ('~', '!', 'neg'):
            progs.append(Prog(alg, (f,), (u, a), exact=True))
    for k in (('m500.full', 'm500.mix'), ('m500.vec', 'm500.full')):
        for op in ('*', '^', '>>', '|'):
            progs.append(Prog('m500', k, (op, a, b), exact=True))
    x.run('products of generic multivectors', progs, npts=3, chunk=4)
    # six to eight generators
    progs = []
    for alg in ('m330', 'm222', 'm421', 'm332', 'm080'):
        n = 1 << ref.ALG[alg].dim
        for op in ('*', '^', '>>', '|', '&', 'sp'):
            for k in (('vec', 'mix'), ('mix', 'vec'), ('mix', 'mix'), ('vec', 'vec')):
                progs.append(Prog(alg, tuple(alg + '.' + t for t in k), (op, a, b), exact=True))
        for u in ('~', '!', 'neg'):
            progs += [Prog(alg, (alg + '.vec',), (u, a), exact=True), Prog(alg, (alg + '.mix',), (u, a), exact=True)]
        for i in range(x.pick(40, 400)):
            e, f = (i * 89 + 7) % n, (i * 151 + 30 + i // 7) % n
            progs.append(Prog(alg, (one_blade(alg, e), one_blade(alg, f)), [(op, a, b) for op in ('*', '^', '>>', '|')]))
            progs.append(Prog(alg, (one_blade(alg, e),), ('+', ('~', a), ('imul', 2, ('!', a)))))
    x.run('products in six to eight dimensions', progs, npts=3, chunk=16)
    # single blades: which blade survives, and the sign, in the type itself
    progs = []
    for alg in ('vga', 'pga', 'pga2', 'm111', 'm030', 'm021') + x.pick((), ('m220', 'm202')):
        n = 1 << ref.ALG[alg].dim
        pairs = list(itertools.product(range(n), repeat=2))
        if x.quick and n > 8:
            pairs = [p for p in pairs if (p[0] * 7 + p[1] * 3) % 5 == 0]
        for e, f in pairs:
            progs.append(Prog(alg, (one_blade(alg, e), one_blade(alg, f)), [(op, a, b) for op in ('*', '^', '>>', '|')]))
    x.run('products of single blades', progs, npts=2)
    # pseudoscalar, its inverse and the even / bivector elements through the generic algebra, every signature up to 8
    body, notes = [], []
    sigs = [(p, v, r) for p in range(9) for v in range(9) for r in range(9) if 1 <= p + v + r <= 8]
    pr = []
    for p, v, r in sigs:
        n = p + v + r
        A = ref.metric_algebra(p, v, r)
        inv, full = A.blade_gp(A.full, A.full)
        body = ('using A = ::gal::algebra<::gal::metric<%d, %d, %d>>; auto const& i = A::pseudoscalar; auto const& j = A::pseudoscalar_inv;'
                'o.put(0, i.terms[0].element, double(i.mons[0].q)); o.put(1, j.terms[0].element, double(j.mons[0].q));'
                'auto e = A::even_mv(5); for (unsigned k = 0; k != e.size.term; ++k) o.put(2, e.terms[k].element, e.inds[e.mons[e.terms[k].mon_offset].ind_offset].id);'
                % (p, v, r))
        exp = [{A.full: 1.0}, {A.full: 1.0 * inv if r == 0 else None}, {}]
        ev = [e for e in range(1 << n) if A.grade(e) % 2 == 0]
        exp[2] = {e: 5.0 + i for i, e in enumerate(ev)}
        if n >= 2:
            body += 'auto g = A::bivector_mv(9); for (unsigned k = 0; k != g.size.term; ++k) o.put(3, g.terms[k].element, g.inds[g.mons[g.terms[k].mon_offset].ind_offset].id);'
            exp.append({e: 9.0 + i for i, e in enumerate([e for e in range(1 << n) if A.grade(e) == 2])})
        if r:
            body = body.replace('o.put(1, j.terms[0].element, double(j.mons[0].q));', '')
            exp[1] = {}
        pr.append(Raw(body, 0, (lambda E: lambda P: [{k: np.full(P.shape[0], q) for k, q in e.items()} for e in E])(exp),
                      'pseudoscalar, inverse, even and bivector elements of metric<%d,%d,%d>' % (p, v, r), group='algebra constants'))
    x.run('constants of every signature up to dimension 8', pr, npts=1)


# ------------------------------------------------------------------------------------------------ C02
def c02(x):
    x.explore('symbolic multivector arithmetic', 'mv_rt.cpp', [8, x.pick(2, 3)], timeout=x.pick(500, 3000))
    x.explore('symbolic multivector arithmetic under address and undefined sanitizers', 'mv_rt.cpp', [8, x.pick(1, 2)], flags=('-O1', '-g0', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'), tag='mv_asan', timeout=x.pick(500, 3000))
    x.explore('entities as symbolic multivectors', 'ent_rt.cpp', [])
    # polynomial identities through compute(): sums of products in every order, so like terms meet in every position
    for alg, k in (('vga', ('vga.mix', 'vga.v2')), ('pga2', ('pga2.mix', 'pga2.point')), ('cga2', ('cga2.point', 'cga2.mix'))):
        asts = in2(sized(1, [a, b], ['*', '+', '-', '^', '>>', '|'], ['~', '!', 'neg']))
        big = [(op, l, r) for op in ('+', '-', '*') for l in asts for r in asts if expr.size(l) + expr.size(r) == 2]
        x.run('polynomial identities in %s' % alg, plain(alg, k, every(big, x.pick(3, 1))), npts=4)
    # high powers and cancellation of one- and two-component inputs
    pw = [a]
    progs = []
    for n in range(2, x.pick(9, 14)):
        pw.append(('*', pw[-1], a))
        progs += plain('vga', ('float',), [pw[-1]]) + plain('vga', ('vga.s12',), [pw[-1]])
        progs += plain('vga', ('float', 'float'), [('*', pw[-1], b), ('*', b, pw[-1]), ('+', ('*', b, b), pw[-1]), ('-', pw[-1], pw[-2]), ('+', pw[-2], pw[-1])])
    s = ('+', a, b)
    e = s
    for n in range(2, x.pick(6, 8)):
        e = ('*', e, s)
        progs += plain('vga', ('float', 'vga.scalar'), [e, ('-', e, e)]) + plain('vga', ('vga.v2', 'vga.v1'), [e])
    x.run('powers and binomials', progs, npts=4)
    x.run('large polynomials', large.polynomials(x), npts=3, chunk=1)


# ------------------------------------------------------------------------------------------------ C03
LIKE = [('a', 0b100100), ('b', 0b1001000), ('c', 0b101000)]     # inputs of the same size
LIKE4 = ('vga.v2', 'vga.b2', 'vga.odd', 'vga.s12')
LIKES = [('*', a, b), ('*', b, c), ('*', c, d), ('*', b, a), ('^', a, b), ('^', b, c), ('>>', a, b), ('>>', b, c), ('|', c, d), ('~', a), ('!', b), a]


def upto(l, n):
    """every k-th element, about n of them (the stride is coprime to the inner loops of like_sums)"""
    k = max(1, len(l) // n)
    while k > 1 and any(k % q == 0 for q in (2, 3, 5)):
        k -= 1
    return every(l, k)


def like_sums(T):
    """sums of two, three and four terms taken from T, in every grouping and with both signs"""
    out = [(o, p, q) for o in '+-' for p in T for q in T]
    for p, q, r in itertools.permutations(T, 3):
        out += [('+', ('+', p, q), r), ('-', p, ('+', q, r)), ('-', ('-', p, q), r)]
    for p, q, r in itertools.combinations(T, 3):
        out += [(o, (o2, p, q), (o3, p, r)) for o in '+-*' for o2 in '+-' for o3 in '+-']
    for p, q, r, t in itertools.combinations(T, 4):
        out += [('-', ('+', p, q), ('+', r, t)), ('+', ('-', p, t), ('-', q, r)), ('*', ('+', p, q), ('-', r, t))]
    return out


def c03(x):
    AL = ['a=37', 'b=74']
    x.rpn('operator trees', x.pick(4, 5), ['+', '-', '*', '^', '&', '>>', '|', '%', 'sp', 'neg', '~', '!'], [('a', 0b100101), ('b', 0b1001000)])
    x.rpn('deep sums and products', x.pick(5, 6), ['+', '-', '*', '^', 'neg', '~'], [('a', 0b100101), ('b', 0b1001010)])
    x.rpn('three operands', x.pick(4, 5), ['+', '-', '*', '^', '>>', '|', '~', '!'], [('a', 0b100101), ('b', 0b1001000), ('c', 0b10010110)])
    x.run('every way of writing the lambda', forms([Prog('vga', ('vga.vector', 'vga.vector'), e) for e in ([('%', ('^', a, b), ('-', a, b))], [('&', ('!', a), ('~', ('*', a, b)))], [('|', a, b), ('>>', a, ('^', a, b))])]))
    x.rpn('like expressions of three inputs, combined', x.pick(3, 4), ['+', '-', '*', '^', '>>', '|', '~'], LIKE, tuples=2)
    x.rpn('sums of like products', x.pick(4, 5), ['+', '-', '*', '^', '~'], LIKE, derived=['a', '(* a b)', '(* b c)', '(^ b c)', '(^ a b)'])
    x.run('sums of like terms', plain('vga', LIKE4, upto(like_sums(LIKES), x.pick(300, 3000))) + plain('pga', ('pga.plane', ) * 4, upto(like_sums(LIKES), x.pick(60, 1000))), npts=3)
    for alg in ALGS:
        asts = in2(sized(2, [a, b], gen.BIN, gen.UN))
        x.run('all expressions of up to two operators in ' + alg, plain(alg, PAIRS[alg], asts), npts=4)
        if x.done():
            return
    # every pair of entity kinds under every product
    for alg in ALGS:
        ks = ['float'] + [k for k in K if k.startswith(alg + '.') and 'mask' not in k and '.e' not in k]
        progs = []
        for k1, k2 in itertools.product(ks, repeat=2):
            if 'full' in k1 and 'full' in k2 and alg == 'cga':
                continue
            progs += plain(alg, (k1, k2), [(op, a, b) for op in gen.BIN + ['-']])
        x.run('every pair of entity kinds in ' + alg, every(progs, x.pick(4, 1)), npts=3)
    # every operator on operands with a part of every grade, six to eight generators
    progs = []
    for alg in x.pick(('m330', 'm421', 'm080'), ('m330', 'm222', 'm421', 'm332', 'm080')):
        one = in2(sized(1, [a, b], gen.BIN + ['-'], gen.UN))
        two = every(in2(gen.exact_size(2, [a, b], gen.BIN, gen.UN)), x.pick(60, 6))
        progs += plain(alg, (alg + '.grades', alg + '.mix'), one + two)
    x.run('operators in six to eight dimensions', progs, npts=3, chunk=8)
    # nested sums and exterior products of three operands, in every grouping
    x.run('long chains', large.chains(x), npts=3, chunk=2)
    x.run('deep towers', large.deep(x), npts=3, chunk=2)
    x.run('inputs of every magnitude', large.magnitudes(x), npts=4)
    I3 = [a, b, c]
    for alg, k in (('vga', ('vga.vector', 'vga.mix', 'vga.b2')), ('pga', ('pga.plane', 'pga.mix', 'pga.v2'))):
        asts = [t for t in gen.exact_size(3, I3, ['+', '-', '^'], []) if len(expr.inputs(t)) == 3]
        x.run('nested sums and exterior products in ' + alg, plain(alg, k, every(asts, x.pick(7, 1))), npts=3)
    if not x.quick:
        for alg in ('vga', 'pga', 'cga2'):
            asts = [t for t in gen.exact_size(3, [a, b], ['+', '*', '^', '&', '>>', '|', '-'], ['~', '!'])]
            x.run('expressions of three operators in ' + alg, plain(alg, PAIRS[alg], every(in2(asts), 3)), npts=3)
        for alg in ('m111', 'm030', 'm220', 'm202', 'm021'):
            x.run('expressions of up to two operators in ' + alg, plain(alg, (alg + '.mix', alg + '.vec'), in2(sized(2, [a, b], gen.BIN, gen.UN))), npts=3)
    else:
        for alg in ('m111', 'm202'):
            x.run('operators in ' + alg, plain(alg, (alg + '.mix', alg + '.vec'), in2(sized(1, [a, b], gen.BIN, gen.UN))), npts=3)


# ------------------------------------------------------------------------------------------------ C04
ULP_PTS = {2: np.array([[1.25, 0.7], [-0.3, 1.1], [0.01, -2.3], [-1.7, -0.1], [2.5, 1e3], [0.123456789, 3.0]])}


def ulps(alg, kinds, cases, T):
    """programs whose result is compared with the same formula evaluated in extended precision, in units of the
    rounding error of T: no step may drop to a narrower type.  cases: (expression, formula over long double inputs)"""
    out = []
    decl = '::gal::scalar<::gal::%s::%s_algebra, T>' % (alg, alg)
    names = 'abcd'[:len(kinds)]
    for e, f in cases:
        body = 'using namespace ::gal; constexpr long double PIL = 3.141592653589793238462643383279502884L, EL = 2.718281828459045235360287471352662498L; (void) PIL; (void) EL;'
        for i, (n, k) in enumerate(zip(names, kinds)):
            body += ' %s %s%s; long double %sl = T(p[%d]);' % (decl if k == 's' else 'T', n, '{T(p[%d])}' % i if k == 's' else ' = T(p[%d])' % i, n, i)
        body += ' auto r = ::gal::%s::compute([](%s) { return %s; }, %s);' % (alg, ', '.join('auto ' + n for n in names), e, ', '.join(names))
        body += ' long double w = %s, g = r.template select<0>(); o.put(0, 0, double((g - w) / (std::fabs(w) * std::numeric_limits<T>::epsilon())));' % ''.join(ch + 'l' if ch in names and not (f[i - 1:i].isalnum() or f[i + 1:i + 2].isalnum()) else ch for i, ch in enumerate(f))
        out.append(Raw(body, len(kinds), lambda P: [{0: np.zeros(len(P))}], '%s with %s inputs, against extended precision' % (e, T), T=T, tol=16, alg=alg, pts=ULP_PTS[len(kinds)]))
    return out


PRECISE = ('float', 'double', 'long double')


def c04(x):
    L = [('a', 0b100101), ('b', 0b1001000)]
    x.rpn('integer constants', x.pick(4, 5), ['+', '-', '*', '^', 'neg', '~', '!', 'imul:2', 'imul:0', 'imul:-1', 'idiv:3', 'idiv:-2', 'iadd:1', 'addi:-2', 'isub:1', 'subi:2', 'iadd:0'], L)
    x.rpn('factors, deeper', x.pick(5, 6), ['+', '-', '*', 'imul:2', 'idiv:3', 'neg', 'iadd:1'], L)
    x.rpn('factors on reversed, dual and wedged operands', x.pick(5, 6), ['+', '^', '~', '!', 'imul:3', 'idiv:-2', 'imul:0'], L)
    x.rpn('factors with every product', x.pick(4, 5), ['*', '^', '&', '>>', '|', '%', 'sp', '+', 'imul:-3', 'idiv:2', 'subi:1', 'isub:1'], L)
    x.rpn('factors on literals', x.pick(4, 5), ['+', '-', '*', '^', '~', '!', 'imul:2', 'imul:0', 'idiv:-3', 'iadd:1', 'isub:2', 'neg'], [('a', 0b100101), ('#2_6', 0), ('#0_1', 0)])
    x.rpn('scaled like expressions of three inputs, combined', x.pick(3, 4), ['+', '-', '*', 'imul:2', 'idiv:-3', 'iadd:1'], LIKE, tuples=2)
    x.rpn('sums of scaled like products', x.pick(4, 5), ['+', '-', '*', 'imul:3', 'idiv:2'], LIKE, derived=['a', '(* a b)', '(imul 2 (* b c))', '(* b c)'])
    if not x.done():
        cs = [('a', 'a'), ('a / 3', 'a / 3'), ('5 * a / 7', '5 * a / 7'), ('-a / 7', '-a / 7'), ('(a * b) / 3', 'a * b / 3'), ('-2 * a * b / 9', '-2 * a * b / 9'), ('a / 3 + a * b * b / 3', 'a / 3 + a * b * b / 3'), ('(a + a * b * b) / 3', '(a + a * b * b) / 3'),
              ('1 + a * a / 3', '1 + a * a / 3'), ('11 * (a * a + b * b) / 13', '11 * (a * a + b * b) / 13'), ('3 * (1 + b * b) * a / 11', '3 * (1 + b * b) * a / 11')]
        x.run('scaling in the precision of the inputs', [q for T in PRECISE for k in ('ff', 'ss') for q in ulps('vga', k, cs, T)], npts=6)
    SC = [('imul', 2, ('*', a, b)), ('*', b, c), ('idiv', ('*', c, d), 3), ('neg', ('*', a, b)), ('imul', -2, ('*', b, c)), ('^', a, b), ('imul', 3, ('^', c, d)), ('neg', a), ('idiv', b, 2), a]
    x.run('sums of scaled like terms', plain('vga', LIKE4, upto(like_sums(SC), x.pick(300, 3000))), npts=3)
    for alg in ALGS:
        asts = in2(sized(2, [a, b], ['+', '*', '^', '-'], IUN + ['neg', '~', '!']))
        asts += [(op, p, q) for op in ('+', '-', '*') for p in gen.exact_size(2, [a], [], [('imul', 2), ('idiv', 3), ('imul', 0), ('imul', -1), 'neg', ('isub', 1)]) for q in gen.exact_size(1, [a, b], ['+', '*', '^'], [('imul', 2), ('iadd', 1)])]
        k = x.pick(1 if alg == 'vga' else 5, 1)
        x.run('constants at every node in ' + alg, plain(alg, PAIRS[alg], every(asts, k)), npts=3)
        # every operator with a scaled operand on either side
        ops = [(op, u(a), w(b)) for op in gen.BIN for u in (lambda t: t, lambda t: ('imul', 3, t), lambda t: ('idiv', t, -2), lambda t: ('addi', t, 1))
               for w in (lambda t: t, lambda t: ('imul', -2, t), lambda t: ('isub', 2, t))]
        ops += [(u, ('imul', n, a)) for u in ('~', '!', 'neg') for n in (0, 1, -1, 2, 5)]
        ops += [('[]', ('imul', 3, a), e) for e in range(1 << ref.ALG[alg].dim) if e < 16] + [('grade', ('idiv', a, 3), g) for g in range(4)]
        x.run('scaled operands of every operator in ' + alg, plain(alg, PAIRS[alg], every(ops, x.pick(1 if alg in ('vga', 'cga2') else 3, 1))), npts=3)
        if x.done():
            return
    # factors under sharing, division, functions and multiple results
    s = ('imul', 2, ('*', a, b))
    t = ('idiv', ('+', a, b), 3)
    z = ('[]', ('*', a, a), 0)
    more = [('+', s, s), ('+', s, ('*', a, b)), ('-', s, ('imul', 3, ('*', a, b))), ('*', t, t), ('*', t, ('+', a, b)), ('/', s, ('imul', 2, z)), ('imul', 3, ('/', s, z)), ('sin', ('imul', 2, z)), ('imul', 2, ('sin', z)),
            ('+', ('sin', ('imul', 2, z)), ('sin', z)), ('*', ('imul', 2, t), t), ('^', t, ('imul', 2, t)), ('idiv', ('imul', 6, s), 4), ('imul', 0, s), ('+', ('imul', 0, s), a), ('*', ('imul', 0, t), t)]
    progs = [Prog('vga', ('vga.mix', 'vga.b2'), e) for e in more] + [Prog('vga', ('vga.mix', 'vga.b2'), [p, q]) for p in more[:12] for q in more[:12]]
    x.run('factors under sharing and in several results', progs, npts=4)
    # the range of exact constants
    big = []
    for n in (1, 7, 31, 100, 1000, 32767):
        for q in (1, 2, 3, 9, 31, 100, 341, 1000, 1023):
            big += [('idiv', ('imul', n, a), q), ('imul', n, ('idiv', a, q)), ('neg', ('idiv', ('imul', n, a), q)), ('+', ('idiv', a, q), ('imul', n, b))]
    x.run('range of constants', plain('vga', ('vga.mix', 'vga.b2'), big), npts=2)
    if not x.quick:
        asts = in2(gen.exact_size(3, [a, b], ['+', '*', '^'], [('imul', 2), ('idiv', 3), ('isub', 1), ('imul', 0), '~', '!']))
        x.run('constants in expressions of three operators', plain('vga', PAIRS['vga'], every(asts, 2)), npts=3)


# ------------------------------------------------------------------------------------------------ C05
def share_space(alg, quick):
    """programs in which a subexpression s, or a near copy of it, occurs in every pair of positions"""
    S = [('*', a, b), ('+', a, b), ('^', a, b), ('>>', a, b), ('~', a), ('!', a), ('%', b, a), ('imul', 2, ('*', a, b)), ('+', ('*', a, b), a), ('*', ('+', a, b), a), ('grade', ('*', a, b), 1)]
    near = {S[0]: [('*', b, a), ('imul', 2, ('*', a, b)), ('>>', a, b), ('idiv', ('*', a, b), 2), ('neg', ('*', a, b))],
            S[1]: [('+', b, a), ('-', a, b), ('+', a, ('imul', 2, b)), ('+', ('imul', 2, a), b), ('addi', ('+', a, b), 1)],
            S[2]: [('^', b, a), ('*', a, b)], S[3]: [('>>', b, a), ('|', a, b)], S[4]: [('~', b)], S[5]: [('!', b)],
            S[6]: [('%', a, b)], S[7]: [('imul', 3, ('*', a, b))], S[8]: [('+', ('*', a, b), b), ('-', ('*', a, b), a)], S[9]: [('*', ('-', a, b), a), ('*', a, ('+', a, b))],
            S[10]: [('grade', ('*', a, b), 2), ('[]', ('*', a, b), 1)]}
    two = ['+', '-', '*', '^', '>>', '|', 'sp']
    out = []
    for s in S:
        for t in [s] + near[s]:
            for op in two:
                out.append((op, s, t))
                if t != s:
                    out.append((op, t, s))
            for op in ('+', '*', '^'):
                for op2 in ('+', '*', '^', '-'):
                    out.append((op, (op2, s, a), t))
                    out.append((op, s, (op2, b, t)))
                    out.append((op, (op2, s, t), s))
                    out.append((op, s, (op2, t, s)))
                    out.append((op, (op2, s, a), (op2, t, a)))
            for u in ('~', '!', 'neg'):
                out += [('+', (u, s), t), ('*', s, (u, t)), ('*', (u, s), (u, t)), ('^', (u, s), t)]
            for n in (2, -1):
                out += [('+', ('imul', n, s), t), ('*', ('imul', n, s), t), ('-', s, ('idiv', t, 3)), ('^', ('imul', n, s), ('idiv', t, 3))]
    return out


def nested_shares():
    """repeats inside repeats: x1 = f(a,b), x2 = f(x1,x1) ... with every operator, plus three and four occurrences"""
    out = []
    for o1, o2, o3 in itertools.product(['+', '*', '^', '-'], repeat=3):
        s = (o1, a, b)
        t = (o2, s, s)
        out += [(o3, t, t), (o3, t, s), (o3, s, t), (o3, (o2, s, a), (o2, s, a)), (o3, ('*', t, t), ('+', s, t))]
        u = (o2, s, ('~', s))
        out += [(o3, u, u), (o3, u, ('~', s)), (o3, ('~', u), u)]
    for op in ('+', '*', '^'):
        s = ('*', a, b)
        out += [(op, (op, s, s), s), (op, (op, s, s), (op, s, s)), (op, s, (op, s, (op, s, s))), (op, (op, (op, s, s), s), ('+', s, a))]
    return out


def c05(x):
    L = [('a', 0b100101), ('b', 0b1001000)]
    D = ['a', '(* a b)', '(+ a b)', '(* (+ a b) (+ a b))']
    ab, sb = ('*', a, b), ('sin', ('[]', ('*', a, b), 0))
    x.run('repeats through every way of naming them', forms([Prog('vga', ('vga.vector', 'vga.vector'), e) for e in ([('+', ('*', ab, ab), ('~', ab))], [('+', ('*', sb, a), ('*', sb, ab))], [ab, ('*', ab, a)])]))
    x.rpn('sharing, basic operators', x.pick(5, 6), ['+', '*', '^', '~'], L)
    x.rpn('sharing, built on repeated leaves', x.pick(3, 4), ['+', '-', '*', '^', '>>', '|', '~', '!', 'imul:2', 'neg', '[]:3', 'grade:1'], L, derived=D)
    x.rpn('sharing of scaled and shifted leaves', x.pick(4, 5), ['+', '*', '^', '~', 'imul:2', 'idiv:3', 'addi:1'], L, derived=['a', '(* a b)', '(imul 2 (* a b))', '(addi 1 (* a b))'])
    x.rpn('sharing inside divisions and functions', x.pick(4, 5), ['+', '*', '/', 'sqrt', 'sin', 'cos', 'imul:2', '[]:0'], [('a', 0b1), ('b', 0b1)], derived=['a', '(* a b)', '(+ a b)', '(sin a)', '(/ b a)'])
    x.rpn('sharing through sandwiches and regressive products', x.pick(3, 4), ['+', '*', '^', '&', '%', '~', '!'], L, derived=['a', '(% a b)', '(& a b)', '(! a)', '(~ b)'])
    x.rpn('sharing across several results', 2, ['+', '*', '^', '~', 'imul:2'], L, tuples=1, derived=D)
    x.rpn('expressions with equal checksums, combined', x.pick(4, 5), ['+', '*', '^', '~', '[]:0', '[]:3', 'grade:1'], L, tuples=2)
    x.rpn('expressions of three inputs with equal checksums, combined', x.pick(3, 4), ['+', '-', '*', '^', '>>'], L + [('c', 0b101000)], tuples=2)
    x.rpn('scaled and shifted expressions with equal checksums, combined', x.pick(3, 4), ['+', '*', '^', '~', 'imul:2', 'idiv:3', 'iadd:1'], L, tuples=2)
    for alg in ALGS:
        sp = share_space(alg, x.quick)
        x.run('repeated and nearly repeated subexpressions in ' + alg, plain(alg, PAIRS[alg], every(sp, x.pick(2 if alg == 'vga' else 16, 1 if alg in ('vga', 'cga') else 3), off=ALGS.index(alg))), npts=3)
        if x.done():
            return
    sp = share_space('vga', x.quick)
    x.run('repeated subexpressions of inputs without components', plain('vga', ('vga.zero', 'vga.mix'), every(sp, x.pick(24, 3))) + plain('vga', ('vga.mix', 'vga.zero'), every(sp, x.pick(48, 3), 5)), npts=3)
    x.run('many shared subexpressions', large.shares(x), npts=3, chunk=1)
    x.run('nested repeats', plain('vga', PAIRS['vga'], nested_shares()) + plain('cga', PAIRS['cga'], every(nested_shares(), x.pick(9, 1))), npts=3)
    # shared operands of divisions, functions, component reads
    z = ('[]', ('*', a, a), 0)
    y = ('[]', ('*', b, b), 0)
    pool = [z, ('*', z, z), ('sin', z), ('sqrt', ('*', z, z)), ('/', a, z), ('irec', 2, z), ('cos', ('+', z, y)), ('[]', ('*', a, b), 1), ('[]', ('*', a, b), 2), ('grade', ('*', a, b), 1), ('grade', ('*', a, b), 2), ('sin', ('imul', 2, z)), ('/', ('*', a, b), ('+', z, y))]
    progs = [(op, p, q) for op in ('+', '*', '-') for p in pool for q in pool]
    x.run('shared operands of divisions, functions and reads', [Prog('vga', PAIRS['vga'], e) for e in every(progs, x.pick(2, 1))], npts=4)
    x.run('shared operands of divisions, functions and reads (conformal)', [Prog('cga2', PAIRS['cga2'], e) for e in every(progs, x.pick(8, 2), 3)], npts=4)


# ------------------------------------------------------------------------------------------------ C06
def c06(x):
    S = [('a', 1), ('b', 1)]
    x.rpn('scalar functions and division', x.pick(4, 5), ['+', '*', '/', 'sqrt', 'sin', 'cos', 'tan', 'imul:2', 'idiv:3', 'iadd:1', 'irec:3', 'neg'], S)
    x.rpn('named constants', x.pick(4, 5), ['+', '*', '/', 'sin', 'cmul:0', 'mulc:0', 'cdiv:0', 'divc:0', 'cmul:1', 'mulc:1', 'divc:1', 'imul:2', 'neg', 'irec:3'], S)
    x.rpn('division of multivectors', x.pick(4, 5), ['+', '*', '/', '~', '!', '[]:0', 'imul:2', 'irec:-2', 'sqrt'], [('a', 0b100101), ('b', 1)])
    x.rpn('like quotients and functions of three scalars, combined', 3, ['+', '-', '*', '/', 'sin', 'imul:2'], [('a', 1), ('b', 1), ('c', 1)], tuples=2)
    QT = [('/', a, c), ('/', b, c), ('/', a, d), ('sin', a), ('sin', b), ('*', ('/', a, c), b), ('*', ('/', b, c), a), ('irec', 1, c), ('irec', 2, c), ('/', ('*', a, b), c)]
    x.run('sums of like quotients', [Prog('vga', ('vga.scalar', 'float') * 2, e) for e in upto(like_sums(QT), x.pick(300, 3000))], npts=4)
    if not x.done():
        cs = [('PI * a', 'PIL * a'), ('E * a', 'EL * a'), ('a / PI', 'a / PIL'), ('E / a', 'EL / a'), ('2 * PI * a / 3', '2 * PIL * a / 3'), ('PI * (E * a)', 'PIL * EL * a'), ('a / b', 'a / b'), ('1 / a', '1 / a'), ('a / (a * a + b * b)', 'a / (a * a + b * b)'), ('(a + a * b * b) / b', '(a + a * b * b) / b'),
              ('sin(a)', 'std::sin(a)'), ('cos(a / 3)', 'std::cos(a / 3)'), ('tan(a / 8)', 'std::tan(a / 8)'), ('sqrt(a * a + b * b)', 'std::sqrt(a * a + b * b)'), ('1 / sqrt(1 + a * a)', '1 / std::sqrt(1 + a * a)'), ('sin(a) / b', 'std::sin(a) / b'), ('sqrt(1 + b * b) * cos(a / 8)', 'std::sqrt(1 + b * b) * std::cos(a / 8)')]
        progs = [q for T in PRECISE for k in ('ff', 'ss') for q in ulps('vga', k, cs, T)]
        for alg in ('pga', 'cga'):
            progs += [q for T in PRECISE for q in ulps(alg, 'sf', cs, T)]
        x.run('precision of quotients, functions and constants', progs, npts=6)
    U = FUN + ['neg', ('imul', 2), ('imul', -3), ('irec', 3), ('irec', -1), ('idiv', 2), ('iadd', 1)]
    for alg in ALGS:
        asts = sized(2, [a, b], ['/', '*', '+'], U)
        x.run('division and functions of scalars in ' + alg, [Prog(alg, SCALARS[alg], e) for e in every(asts, x.pick(1 if alg == 'vga' else 3, 1), ALGS.index(alg))], npts=6)
        if x.done():
            return
    # scalar-valued subexpressions of multivectors as operands
    for alg in ALGS:
        k = PAIRS[alg]
        A = ref.ALG[alg]
        zs = [('[]', ('*', a, a), 0), ('[]', a, 2 if alg in ('vga', 'pga', 'pga2') else (8 if alg == 'cga' else 4)), ('sp', a, b), ('+', ('[]', ('*', b, b), 0), ('[]', a, 2)), ('addi', ('[]', b, 0), 7), ('grade', ('*', a, ('~', a)), 0)]
        num = [a, b, ('*', a, b), ('+', a, b), ('^', a, b), ('imul', 2, a), ('lit', 1, 3)]
        prg = [('/', n, z) for n in num for z in zs] + [(f, z) for f in FUN for z in zs] + [('*', (f, z), n) for f in FUN for z in zs for n in num[:2]] + [('irec', n, z) for n in (1, -2, 5) for z in zs]
        prg += [('/', n, (f, z)) for f in FUN for z in zs[:2] for n in num[:2]] + [(f, ('/', z, w)) for f in FUN for z in zs[:3] for w in zs[:3]] + [('/', ('/', n, z), w) for n in num[:3] for z in zs[:3] for w in zs[:3]]
        prg += [(f, ('imul', n, z)) for f in FUN for z in zs[:3] for n in (2, -1, 0) if not (f == 'sqrt' and n < 0)] + [('/', n, ('imul', 3, z)) for n in num[:3] for z in zs[:3]] + [('imul', 2, ('/', n, z)) for n in num[:3] for z in zs[:3]]
        x.run('scalar-valued operands in ' + alg, [Prog(alg, k, e) for e in every(prg, x.pick(1 if alg == 'vga' else 4, 1))], npts=6)
    # fractions in front of and inside functions, numerators and divisors
    fr = lambda pq, e: ('idiv', ('imul', pq[0], e), pq[1])
    FR = [(2, 3), (-2, 3), (5, 7), (-7, 4), (1, 3), (-1, 3), (-9, 1), (1000, 999)]
    prg = []
    for i, pq in enumerate(FR):
        rs = FR[(3 * i + 1) % len(FR)]
        prg += [fr(pq, (f, a)) for f in FUN] + [(f, fr(pq, a)) for f in FUN if not (f == 'sqrt' and pq[0] < 0)] + [fr(pq, (f, fr((abs(rs[0]), rs[1]), a))) for f in FUN]
        prg += [fr(pq, ('/', a, b)), ('/', fr(pq, a), b), ('/', a, fr(pq, b)), fr(rs, ('/', fr(pq, a), b)), ('/', fr(pq, a), fr(rs, b)), ('+', fr(pq, ('/', a, b)), fr(rs, ('sin', a))), ('/', fr(pq, ('cos', a)), ('addi', fr(rs, ('cos', b)), 20)), ('*', fr(pq, ('sin', a)), fr(rs, ('sin', a))), ('irec', pq[0], fr(rs, a)), ('/', ('addi', a, pq[0]), ('addi', fr(rs, ('*', b, b)), 50))]
    x.run('fractions of functions and quotients', [Prog(g, ('float', g + '.scalar'), e) for g in ('vga', 'cga') for e in every(prg, 1 if g == 'vga' else x.pick(4, 1))], npts=4)
    # operands that do not depend on the inputs
    K0 = lambda n: ('addi', ('imul', 0, a), n)
    sq = ('*', ('lit', 2, 1), ('lit', 2, 3))
    kk = [K0(4), K0(1), ('-', ('addi', a, 5), a), sq, ('[]', ('*', sq, sq), 0), ('idiv', K0(7), 3), ('+', sq, K0(2))]
    prg = [(f, k) for f in FUN for k in kk] + [('*', (f, k), b) for f in FUN for k in kk[:4]] + [('/', b, k) for k in kk] + [('/', k, ('[]', b, 0)) for k in kk] + [('/', b, (f, k)) for f in ('sqrt', 'cos') for k in kk[:4]] + [(f, ('+', k, ('[]', b, 0))) for f in ('sin', 'cos', 'tan') for k in kk[:5]] + [('sin', ('cos', k)) for k in kk[:4]] + [('irec', n, k) for n in (1, -3) for k in kk]
    x.run('operands that are constants', [Prog(g, ('float', g + '.s12' if g == 'vga' else 'float'), e) for g in ('vga', 'pga', 'cga') for e in every(prg, 1 if g == 'vga' else x.pick(3, 1))], npts=4)
    x.run('many functions and divisions', large.functions(x), npts=4, chunk=2)
    C = [('c', n, p, q) for n in ('PI', 'E') for p, q in ((1, 1), (2, 1), (-1, 1), (3, 1), (1, 2), (-3, 4))]
    prg = []
    for cc in C:
        prg += [('*', cc, a), ('*', a, cc), ('/', a, cc), ('+', ('*', cc, a), a), ('*', cc, ('*', a, b)), ('imul', 2, ('*', cc, a)), ('sin', ('*', cc, ('[]', a, 0))), ('/', cc, ('[]', a, 0)), ('-', ('*', cc, a), ('*', a, cc)), ('~', ('*', cc, a)), ('^', ('*', cc, a), b), ('*', ('*', cc, a), ('*', cc, b))]
    x.run('named constants', [Prog('vga', PAIRS['vga'], e) for e in prg] + [Prog('cga', PAIRS['cga'], e) for e in every(prg, x.pick(6, 1))], npts=6)
    x.run('named constants, single precision', [Prog('vga', PAIRS['vga'], e, T='float') for e in every(prg, x.pick(3, 1))], npts=4)


# ------------------------------------------------------------------------------------------------ C07
def pool07(alg):
    k = {'vga': (2, 3, 1), 'pga': (2, 5, 2), 'pga2': (2, 1, 1), 'cga': (8, 17, 1), 'cga2': (4, 9, 1)}[alg]
    return [a, ('*', a, b), ('imul', 2, ('*', a, b)), ('neg', a), ('-', a, a), ('+', ('*', a, b), a), ('imul', 0, a), ('lit', k[2], 1), ('[]', a, k[0]), ('~', ('*', a, b)), ('sqrt', ('[]', ('*', a, ('~', a)), 0)),
            ('/', a, ('[]', a, k[0])), ('^', ('+', a, b), b), ('+', ('+', a, b), b), ('idiv', a, 3), ('lit', k[2], 0), b]


def c07(x):
    L = [('a', 0b100101), ('b', 0b1001000)]
    x.rpn('pairs of results', x.pick(2, 3), ['+', '-', '*', '^', '~', '!', 'imul:2', 'imul:0', 'idiv:3', 'neg', 'iadd:1'], L, tuples=1)
    x.rpn('pairs of results with functions', 2, ['+', '*', '/', 'sin', 'sqrt', 'imul:3'], [('a', 1), ('b', 1)], tuples=1, derived=['a', '(* a b)', '(sin a)', '(+ a b)'])
    for alg in ALGS:
        pool = pool07(alg)
        two = [list(t) for t in itertools.product(pool, repeat=2)]
        three = [list(t) for t in itertools.product(pool, repeat=3)]
        four = [[pool[i], pool[(i + 3) % len(pool)], pool[(i * 5 + j) % len(pool)], pool[j]] for i in range(len(pool)) for j in range(len(pool))]
        q = {'vga': (1, 12, 8), 'cga': (4, 60, 30)}.get(alg, (6, 70, 40))
        progs = every(two, x.pick(q[0], 1)) + every(three, x.pick(q[1], 1 if alg == 'vga' else 6)) + every(four, x.pick(q[2], 1))
        x.run('several results in ' + alg, [Prog(alg, PAIRS[alg], t) for t in progs], npts=3)
        if x.done():
            return
    progs = []
    for n in range(5, 9):
        for r in range(4):
            pool = pool07('vga')
            progs.append(Prog('vga', PAIRS['vga'], [pool[(r * 3 + i * (r + 1)) % len(pool)] for i in range(n)]))
    x.run('five to eight results', progs, npts=3, chunk=4)
    x.run('many results', large.results(x), npts=3, chunk=2)
    # the i-th component is the same type and value as the single computation
    progs = []
    pool = pool07('vga')
    for i, j in every(itertools.product(range(len(pool)), repeat=2), x.pick(5, 1)):
        ex = [all(exactable(q, PAIRS['vga'], 'vga') for q in (pool[i], pool[j])) and exactable(('>>', pool[i], pool[j]), PAIRS['vga'], 'vga')]
        progs.append(Prog('vga', PAIRS['vga'], [pool[i], pool[j]], exact=ex[0]))
    x.run('component sets of several results', progs, npts=3)


# ------------------------------------------------------------------------------------------------ C08
def c08(x):
    # pairs of algebraically equal, structurally different expressions
    for alg in ALGS:
        k = PAIRS[alg]
        eq = [(('+', a, b), ('+', b, a)), (('*', a, ('+', b, c)), ('+', ('*', a, b), ('*', a, c))), (('*', ('*', a, b), c), ('*', a, ('*', b, c))), (('~', ('*', a, b)), ('*', ('~', b), ('~', a))),
              (('^', ('^', a, b), c), ('^', a, ('^', b, c))), (('imul', 2, a), ('+', a, a)), (('-', a, b), ('neg', ('-', b, a))), (('~', ('~', a)), a), (('^', ('+', a, c), b), ('+', ('^', a, b), ('^', c, b))),
              (('imul', 6, a), ('imul', 2, ('imul', 3, a))), (('idiv', ('imul', 3, a), 3), a), (('imul', 2, ('+', a, b)), ('+', ('imul', 2, a), ('imul', 2, b))), (('&', a, b), ('!', ('^', ('!', a), ('!', b)))),
              (('%', a, b), ('*', ('*', b, a), ('~', b))), (('isub', 3, a), ('neg', ('subi', a, 3))), (('grade', ('+', a, b), 1), ('+', ('grade', a, 1), ('grade', b, 1)))]
        kk = k + (k[0].split('.')[0] + '.mix',)
        asts = []
        for l, r in eq:
            z = ('-', l, r)
            asts += [z, ('-', r, l), ('+', z, a), ('+', a, z), ('*', z, b), ('*', b, z), ('^', z, b), ('^', b, z), ('~', z), ('!', z), ('imul', 2, z), ('iadd', 1, z), ('+', l, ('neg', r)), ('+', ('neg', r), l), ('[]', z, 0), ('grade', z, 1), ('-', a, ('+', a, z)), ('>>', z, b), ('|', b, z), ('%', a, z), ('%', z, a), ('&', z, b), ('sp', z, b)]
        q = x.pick(1 if alg == 'vga' else 4, 1)
        ps = []
        for e in every(asts, q, ALGS.index(alg)):
            n = max(expr.inputs(e)) + 1
            ps.append(Prog(alg, kk[:n], e, exact=exactable(e, kk, alg)))
        x.run('complete cancellation in ' + alg, ps, npts=4)
        # the empty entity and zero literals as operands of every operator
        zk = alg + '.zero'
        Z = []
        for e1 in (1, 0):
            kz = (zk, k[0]) if e1 else (k[0], zk)
            Z += [Prog(alg, kz, (op, a, b), exact=True) for op in gen.BIN]
            Z += [Prog(alg, kz, (op, ('imul', 2, a), ('neg', b)), exact=True) for op in gen.BIN]
            Z += [Prog(alg, kz, (op, ('+', a, b), b), exact=exactable((op, ('+', a, b), b), kz, alg)) for op in gen.BIN]
        Z += [Prog(alg, (zk,), e, exact=True) for e in (a, ('neg', a), ('~', a), ('!', a), ('imul', 3, a), ('iadd', 3, a), ('isub', 3, a), ('[]', a, 0), ('[]', a, 3), ('grade', a, 0), ('grade', a, 1), ('+', a, a), ('*', a, a), ('^', a, a))]
        Z += [Prog(alg, (zk,), e) for e in (('sin', a), ('cos', a), ('sqrt', a), ('tan', a))]
        Z += [Prog(alg, (zk, 'float'), e) for e in (('/', a, b), ('+', ('/', a, b), b), ('cos', ('*', a, b)), ('*', ('cos', a), b), ('+', ('sin', a), b))]
        lit = ('lit', 1, 0)
        Z += [Prog(alg, (k[0],), (op, a, lit), exact=True) for op in gen.BIN] + [Prog(alg, (k[0],), (op, lit, a), exact=True) for op in gen.BIN]
        x.run('vanishing operands in ' + alg, every(Z, x.pick(1 if alg in ('vga', 'cga') else 2, 1)), npts=3)
        if x.done():
            return
    # long products of few vectors: the terms that cancel are monomials of many factors
    ch = {'vga': ['vga.vector', 'vga.v2'], 'pga': ['pga.plane', 'pga.v2'], 'pga2': ['pga2.line', 'pga2.point'], 'cga': ['cga.v2'], 'cga2': ['cga2.point', 'cga2.v2']}
    for alg, ks in ch.items():
        for k in ks:
            ps = []
            for n in x.pick((4, 5), (4, 5, 6)):
                for w in itertools.product(range(3), repeat=n):
                    if w[0] != 0 or any(t > max(w[:i]) + 1 for i, t in enumerate(w) if i) or max(w) == 0 or len(set(w)) == n:
                        continue
                    for op in ('*',) if n > 4 else ('*', '^'):
                        e = ('in', w[0])
                        for t in w[1:]:
                            e = (op, e, ('in', t))
                        kk = (k,) * (max(w) + 1)
                        if exactable(e, kk, alg):
                            ps.append(Prog(alg, kk, e, exact=True))
            if alg in ('vga', 'pga2'):
                for w in ((0, 1, 0, 1, 0, 1), (0, 1, 2, 2, 1, 0), (0, 1, 2, 1, 0, 1)):
                    e = ('in', w[0])
                    for t in w[1:]:
                        e = ('*', e, ('in', t))
                    ps.append(Prog(alg, (k,) * (max(w) + 1), e, exact=exactable(e, (k,) * (max(w) + 1), alg)))
            ps = every(ps, x.pick(1 if alg == 'vga' else 3, 1))
            x.run('component sets of long products of ' + k, ps, npts=6, chunk=4)
    # every entity kind combined with itself: what cancels depends on the polynomials the entity stands for
    progs = []
    for alg in ALGS:
        for k in [k for k in K if k.startswith(alg + '.') and 'mask' not in k and '.e' not in k and 'rotor' not in k and K[k].n]:
            if k in ('cga.full',) or (k == 'pga.full' and x.quick):
                continue
            asts = [(op, a, a) for op in gen.BIN + ['-']] + [(op, a, ('~', a)) for op in ('*', '+', '-', '|')] + [('-', ('*', a, a), ('*', ('~', a), ('~', a))), ('*', ('*', a, a), a), ('+', ('*', a, ('~', a)), ('*', a, a)), ('-', ('*', a, ('!', a)), ('*', ('!', a), a))]
            progs += [Prog(alg, (k,), e, exact=True) for e in asts if exactable(e, (k,), alg)]
    for alg, d in (('cga', 3), ('cga2', 2)):
        sq = [('*', ('[]', a, 1 << i), ('[]', a, 1 << i)) for i in range(d)]
        tot = sq[0]
        for t in sq[1:]:
            tot = ('+', tot, t)
        ni = ('[]', a, 2 << d)
        for e in (('-', ('imul', 2, ni), tot), ('-', ni, ('idiv', tot, 2)), ('-', tot, ('imul', 2, ni))) + tuple(('-', ('imul', 2, ni), t) for t in sq):
            progs.append(Prog(alg, (alg + '.point',), e, exact=True))
    x.run('component sets of every entity kind with itself', progs, npts=6)
    # exact component sets over all small expressions and sparse kinds
    sp = {'vga': [('vga.v1', 'vga.v2'), ('vga.b2', 'vga.v2'), ('vga.odd', 'vga.ps'), ('vga.vector', 'vga.vector')], 'pga': [('pga.b2', 'pga.v2'), ('pga.point', 'pga.plane'), ('pga.line', 'pga.line'), ('pga.motor', 'pga.vpoint')],
          'pga2': [('pga2.point', 'pga2.line'), ('pga2.vector', 'pga2.point')], 'cga': [('cga.point', 'cga.v2'), ('cga.flat', 'cga.point')], 'cga2': [('cga2.point', 'cga2.point'), ('cga2.flat', 'cga2.v2')]}
    for alg, ks in sp.items():
        for k in ks:
            asts = [e for e in in2(sized(x.pick(1, 2), [a, b], gen.BIN, gen.UN)) + [(u, (op, a, b)) for u in ('~', '!') for op in gen.BIN] + [(o, (op, a, b), q) for op in ('*', '^', '>>', '|') for o in ('+', '-', '*', '^') for q in (a, b)] if exactable(e, k, alg)]
            if x.quick:
                asts = every(asts, 2)
            x.run('component sets for %s, %s' % k, [Prog(alg, k, e, exact=True) for e in asts], npts=6)


# ------------------------------------------------------------------------------------------------ C09
def c09(x):
    base = [('*', a, b), ('+', a, b), ('-', ('*', a, b), ('*', b, a)), ('^', ('+', a, b), b), ('%', a, b), ('+', ('*', a, b), ('*', ('*', a, b), a)), ('/', a, ('[]', ('*', b, b), 0)), ('*', b, ('sin', ('[]', ('*', a, a), 0))),
            ('imul', 2, ('-', b, a)), ('>>', b, a), ('*', ('+', a, b), ('+', a, b))]

    def remap(e, m):
        return ('in', m[e[1]]) if e[0] == 'in' else tuple(remap(t, m) if isinstance(t, tuple) else t for t in e)
    for alg in ALGS:
        k = PAIRS[alg]
        extra = ['float', alg + '.scalar', alg + '.zero', {'vga': 'vga.vector', 'pga': 'pga.line', 'pga2': 'pga2.point', 'cga': 'cga.point', 'cga2': 'cga2.point'}[alg]]
        progs = []
        for e in base:
            progs.append(Prog(alg, (k[1], k[0]), remap(e, {0: 1, 1: 0})))
            # unused inputs in every position
            for ex in extra:
                for pos in range(3):
                    kk = list(k)
                    kk.insert(pos, ex)
                    m = {0: 0 if pos > 0 else 1, 1: 1 if pos > 1 else 2}
                    progs.append(Prog(alg, tuple(kk), remap(e, m)))
            # two unused inputs
            progs.append(Prog(alg, (extra[0], k[1], extra[3], k[0], extra[1]), remap(e, {0: 3, 1: 1})))
            # one input used for both operands
            progs.append(Prog(alg, (k[0],), remap(e, {0: 0, 1: 0})))
        x.run('permuted, unused and repeated inputs in ' + alg, every(progs, x.pick(1 if alg == 'vga' else 4, 1), ALGS.index(alg)), npts=4)
        # raw float, scalar entity, one-component multivector
        progs = []
        for e in sized(1, [a, b], gen.BIN + ['/'], gen.UN + FUN) + [('+', ('*', a, b), a), ('/', ('*', a, b), b), ('sin', ('*', a, b)), ('sqrt', ('*', b, b)), ('irec', 2, b), ('irec', 3, a)]:
            for kinds in ((alg + '.e0', 'float'), ('float', alg + '.e0'), (alg + '.scalar', alg + '.e0'), ('float', 'float'), ('float', alg + '.scalar')):
                one_blade(alg, 0)
                if max(expr.inputs(e)) + 1 <= 2:
                    progs.append(Prog(alg, kinds, e))
        for kinds in itertools.product(('float', alg + '.scalar', alg + '.e0'), repeat=2):
            for kk in (kinds + (k[0],), (kinds[0], k[0], kinds[1]), (k[0],) + kinds):
                s = [i for i in range(3) if kk[i] != k[0]]
                m = kk.index(k[0])
                progs.append(Prog(alg, kk, ('+', ('*', ('in', s[0]), ('in', m)), ('in', s[1]))))
                progs.append(Prog(alg, kk, ('/', ('*', ('in', s[1]), ('in', m)), ('in', s[0]))))
        x.run('interchangeable scalars in ' + alg, every(progs, x.pick(1 if alg == 'vga' else 4, 1), ALGS.index(alg)), npts=4)
        if x.done():
            return
    x.run('many inputs', large.manyinputs(x), npts=3, chunk=2)
    x.run('unused inputs and components that are not numbers', large.notnumbers(x), npts=6, chunk=20)
    # single precision
    for alg in ALGS:
        e1 = in2(sized(1, [a, b], gen.BIN, gen.UN)) + base
        x.run('single precision in ' + alg, [Prog(alg, PAIRS[alg], e, T='float') for e in every(e1, x.pick(1, 1))], npts=4)
    # inputs unmodified, repeated evaluation identical (bitwise), for every kind
    raws = []
    for alg in ALGS:
        for key in [k for k in K if k.startswith(alg + '.') and 'mask' not in k and not k.split('.')[1].startswith('e') and K[k].n]:
            kd = K[key]
            for j, e in enumerate(['x * x', 'x + 2 * x', '~x * x + x', '(x * x)[0] * x']):
                if 'full' in key and j and alg == 'cga':
                    continue
                body = ('using namespace ::gal::%s; %s %s unsigned char before[sizeof(x)]; std::memcpy(before, &x, sizeof x);'
                        'auto r1 = ::gal::%s::compute([](auto x) { return %s; }, x); auto r2 = ::gal::%s::compute([](auto x) { return %s; }, x); auto const y = x; auto r3 = ::gal::%s::compute([](auto x) { return %s; }, y);'
                        'int s2 = 1, s3 = 1; for (std::size_t i = 0; i != r1.size(); ++i) { s2 &= r1[i] == r2[i]; s3 &= r1[i] == r3[i]; } o.put(0, 0, std::memcmp(before, &x, sizeof x) == 0); o.put(0, 1, s2); o.put(0, 2, s3);'
                        % (alg, kd.decl('x', 0), '', alg, e, alg, e, alg, e))
                raws.append(Raw(body, kd.n, lambda P: [{0: np.ones(len(P)), 1: np.ones(len(P)), 2: np.ones(len(P))}], 'inputs unmodified and evaluation repeatable: %s on %s' % (e, key), alg=alg))
    x.run('inputs unmodified, evaluation repeatable', every(raws, x.pick(2, 1)), npts=4)
    x.rpn('input identity', x.pick(4, 5), ['+', '*', '^', '~'], [('a', 0b100101), ('b', 0b1001000), ('c', 0b100101)]) if not x.quick else x.rpn('input identity', 4, ['+', '*', '^', '~', '-'], [('a', 0b100101), ('b', 0b1001000), ('c', 0b100101)])


# ------------------------------------------------------------------------------------------------ C10
def c10(x):
    x.rpn('component and grade reads', x.pick(4, 5), ['+', '*', '^', '~', '!', 'imul:2', '[]:0', '[]:3', '[]:5', 'grade:0', 'grade:1', 'grade:2'], [('a', 0b100101), ('b', 0b1001000)])
    x.rpn('like reads, combined', x.pick(3, 4), ['+', '-', '*', '[]:0', '[]:1', '[]:2', '[]:4', 'grade:1', 'grade:2'], [('a', 0b100110), ('b', 0b10110), ('c', 0b1110)], tuples=2)
    ab = ('*', a, b)
    x.run('reads through every way of naming the operand', forms([Prog(alg, (k, k), e) for alg, k in (('vga', 'vga.vector'), ('pga', 'pga.plane'))[:x.pick(1, 2)] for e in ([('[]', a, 1)], [('*', ('[]', ab, 0), ('grade', ab, 2))], [('grade', a, 1), ('[]', ('+', a, b), 2)])]))
    RD = [a, ('[]', a, 0), ('[]', a, 1), ('[]', a, 2), ('[]', a, 4), ('[]', b, 1), ('[]', b, 2), ('[]', b, 4), ('grade', a, 1), ('grade', b, 1), ('[]', ('*', a, b), 1), ('[]', ('*', a, b), 2), ('grade', ('*', a, b), 1), ('grade', ('*', a, b), 2)]
    x.run('sums of like reads', [Prog('vga', ('vga.mix', 'vga.vector'), e) for e in upto(like_sums(RD), x.pick(250, 3000))] + [Prog('pga', ('pga.plane', 'pga.plane'), e) for e in upto(like_sums(RD), x.pick(60, 1000))], npts=4)
    for alg in ALGS:
        A = ref.ALG[alg]
        n = 1 << A.dim
        bl = list(range(n))
        k = PAIRS[alg]
        srcs = [a, ('*', a, b), ('+', a, b), ('imul', 3, a), ('~', ('*', a, b)), ('!', a), ('-', a, b), ('idiv', ('*', b, a), 2)]
        progs = []
        for s in srcs:
            for e in (bl if n <= 16 else [0, 1, 2, 4, 8, 16, 17, 24, 25, 9, 10, 26, 31]):
                progs.append(Prog(alg, k, ('[]', s, e), exact=True))
            for g in range(A.dim + 1):
                progs.append(Prog(alg, k, ('grade', s, g), exact=True))
        x.run('reads of every blade and grade in ' + alg, every(progs, x.pick(1 if alg in ('vga', 'cga2') else 2, 1)), npts=3)
        # reads nested inside products, sums, divisions, functions, other reads
        R = [('[]', a, e) for e in (0, 2, 5, n - 1, n // 2)] + [('[]', ('*', a, b), e) for e in (1, n // 2, 3)] + [('grade', ('*', a, b), g) for g in range(A.dim + 1)] + [('grade', a, g) for g in range(3)]
        nest = []
        for r in R:
            nest += [('*', r, a), ('*', b, r), ('+', r, a), ('-', b, r), ('^', r, b), ('imul', 2, r), ('~', r), ('!', r), ('*', r, r), ('+', r, ('*', a, b)), ('grade', r, 0), ('grade', ('*', r, b), 2), ('[]', ('*', r, a), 2), ('iadd', 1, r), ('+', ('*', a, b), r)]
        q = [('*', r, s) for r in R for s in R] + [('+', r, s) for r in R for s in R]
        x.run('nested reads in ' + alg, [Prog(alg, k, e, exact=exactable(e, k, alg)) for e in every(nest, x.pick(1 if alg == 'vga' else 3, 1)) + every(q, x.pick(3 if alg == 'vga' else 9, 1))], npts=3)
        # every blade of a full multivector
        f = alg + '.full'
        x.run('reads of full multivectors in ' + alg, [Prog(alg, (f,), [('[]', a, e), ('grade', a, A.grade(e))]) for e in (bl if n <= 16 else every(bl, x.pick(4, 1)))], npts=2)
        if x.done():
            return
    # accessors of results: reading by blade, several blades, pointers, conversion
    raws = []
    # concrete entities: for each coordinate the blade it is read from and its sign; a last entry names the weight divided out
    CONV = {'vga': [('::gal::vga::vector<T>', [(1, 1), (2, 1), (4, 1)], None)],
            'pga': [('::gal::pga::plane<T>', [(1, 1), (2, 1), (4, 1), (8, 1)], None), ('::gal::pga::motor<T>', [(e, 1) for e in (0, 3, 5, 6, 9, 10, 12, 15)], None),
                    ('::gal::pga::line<T>', [(12, -1), (10, 1), (6, -1), (3, -1), (5, -1), (9, -1)], None), ('::gal::pga::vector<T>', [(13, -1), (11, 1), (7, -1)], None), ('::gal::vga::point<T>', [(13, -1), (11, 1), (7, -1)], 14)],
            'pga2': [('::gal::pga2::line<T>', [(1, 1), (2, 1), (4, 1)], None), ('::gal::pga2::vector<T>', [(5, -1), (3, 1)], None), ('::gal::pga2::point<T>', [(5, -1), (3, 1)], 6)],
            'cga': [('::gal::cga::point<T>', [(1, 1), (2, 1), (4, 1)], None)], 'cga2': [('::gal::cga2::point<T>', [(1, 1), (2, 1)], None)]}
    from .types import ent, VG, PG, P2, CG, C2
    AN = {'vga': VG, 'pga': PG, 'pga2': P2, 'cga': CG, 'cga2': C2}
    for alg in ALGS:
        n = 1 << ref.ALG[alg].dim
        subsets = []
        if n == 8:
            subsets = [[e for e in range(8) if m >> e & 1] for m in range(1, 256)]
        else:
            subsets = [[e] for e in range(n)] + [sorted({i, (i * 5 + 3) % n, (i * 11 + 7) % n}) for i in range(n)] + [list(range(n)), list(range(1, n, 2)), [e for e in range(n) if bin(e).count('1') == 2]]
        for els in subsets:
            E = ent(AN[alg], els)
            init = ', '.join('T(p[%d])' % i for i in range(len(els)))
            body = '%s const x{%s}; %s y{%s};' % (E, init, E, init)
            body += 'for (unsigned e = 0; e != %d; ++e) { o.put(0, e, x.select(e)); auto* q = y.select(e); o.put(1, e, q ? *q : -777.0); if (q) *q += 1; }' % n
            body += 'for (unsigned e = 0; e != %d; ++e) o.put(2, e, static_cast<%s const&>(y).select(e));' % (n, E)
            seq = [(3 * i + 1) % n for i in range(5)]
            body += 'auto s = x.template select<%s>(); for (int i = 0; i != 5; ++i) o.put(3, i, s[i]);' % ', '.join(map(str, seq))
            body += 'o.put(4, 0, x.template select<%d>()); o.put(4, 1, x.template select<%d>()); o.put(4, 2, x.size()); double sum = 0; for (auto& v : y) sum += v; o.put(4, 3, sum); o.put(4, 4, x.data()[%d]); o.put(4, 5, x[0]);' % (els[0], (els[-1] + 1) % n, len(els) - 1)
            ci = 5
            conv = [c for c in CONV[alg] if c[2] is None or c[2] in els]
            for t, bs, w in conv:
                body += '{ %s c = x; for (int i = 0; i != %d; ++i) o.put(%d, i, c[i]); }' % (t, len(bs), ci)
                ci += 1
            pair = [els[-1], els[0], (els[0] + 1) % n, els[-1]]
            body += 'auto s2 = x.template select<%d, %d>(); o.put(%d, 0, s2[0]); o.put(%d, 1, s2[1]); auto s4 = x.template select<%s>(); for (int i = 0; i != 4; ++i) o.put(%d, i + 2, s4[i]);' % (pair[0], pair[1], ci, ci, ', '.join(map(str, pair)), ci)

            def reff(P, els=els, n=n, seq=seq, conv=conv, pair=pair):
                col = {e: P[:, i] for i, e in enumerate(els)}
                z = np.zeros(len(P))
                out = [{e: col.get(e, z) for e in range(n)}, {e: col.get(e, z - 777) for e in range(n)}, {e: col[e] + 1 if e in col else z for e in range(n)}, {i: col.get(e, z) for i, e in enumerate(seq)},
                       {0: col[els[0]], 1: col.get((els[-1] + 1) % n, z), 2: z + len(els), 3: sum(col.values()) + len(els), 4: col[els[-1]], 5: col[els[0]]}]
                for t, bs, w in conv:
                    out.append({i: g * col.get(e, z) / (1 if w is None else col[w]) for i, (e, g) in enumerate(bs)})
                out.append({i: col.get(e, z) for i, e in enumerate(pair[:2] + pair)})
                return out
            raws.append(Raw(body, len(els), reff, 'accessors of a result holding blades %s in %s' % (els, alg), alg=alg))
        # the entity that is exactly zero
        E = '::gal::entity<%s, T>' % AN[alg]
        body = '%s const x{}; %s y{}; for (unsigned e = 0; e != %d; ++e) { o.put(0, e, x.select(e)); o.put(1, e, y.select(e) == nullptr); } o.put(2, 0, x.size()); o.put(2, 1, x.template select<1>());' % (E, E, n)
        body += 'auto s = x.template select<1, 0, 2>(); o.put(2, 2, s[0]); o.put(2, 3, s[1]); o.put(2, 4, s[2]); auto s5 = x.template select<2, 2, 0, 1, 3>(); o.put(2, 5, s5[4]); o.put(2, 6, s5.size() == 5 && s.size() == 3 ? 0 : 1); o.put(2, 7, x[0]);'
        zc = [c for c in CONV[alg] if c[2] is None]
        for ci, (t, bs, w) in enumerate(zc):
            body += '{ %s c = x; for (int i = 0; i != %d; ++i) o.put(%d, i, c[i]); }' % (t, len(bs), 3 + ci)
        raws.append(Raw(body, 0, lambda P, n=n, zc=zc: [{e: np.zeros(len(P)) for e in range(n)}, {e: np.ones(len(P)) for e in range(n)}, {i: np.zeros(len(P)) for i in range(8)}] + [{i: np.zeros(len(P)) for i in range(len(bs))} for t, bs, w in zc], 'accessors of the zero entity in ' + alg, alg=alg))
    x.run('accessors and conversions of results', raws, npts=3)


# ------------------------------------------------------------------------------------------------ C19
def c19(x):
    LITN = {al: dict(v) for al, v in expr.LITS.items() if al in ALGS}
    for alg in ALGS:
        k = PAIRS[alg]
        progs, raws = [], []
        vals = [0, 1, 2, 7, 1000, 123456]
        for bl in LITN[alg]:
            for n in vals:
                l = ('lit', bl, n)
                progs.append(Prog(alg, (k[0],), l, exact=True))
                progs.append(Prog(alg, (k[0],), l, T='float', exact=True))
            for n in (1, 0, 3):
                l = ('lit', bl, n)
                forms = [(op, a, l) for op in gen.BIN] + [(op, l, a) for op in gen.BIN] + [('~', l), ('!', l), ('neg', l), ('imul', 2, l), ('imul', 0, l), ('idiv', l, 3), ('iadd', 1, l), ('[]', l, bl), ('[]', l, 0), ('grade', l, bin(bl).count('1')), ('+', l, l), ('*', l, l), ('-', l, l),
                         ('[]', ('*', l, a), bl), ('*', l, ('[]', a, 2)), ('/', l, ('[]', a, 2)), ('*', ('+', l, a), ('+', l, a)), ('^', ('^', l, a), a)]
                q = x.pick(1 if n == 1 else 4, 1) * (2 if x.quick and alg in ('pga', 'cga') else 1)
                progs += [Prog(alg, (k[0],), e, exact=exactable(e, k, alg)) for e in every(forms, q, bl)]
        lits = list(LITN[alg])
        for i, j in every(itertools.product(lits, repeat=2), x.pick(3 if len(lits) > 8 else 1, 1)):
            l, m = ('lit', i, 1), ('lit', j, 2)
            progs += [Prog(alg, (k[0],), [('*', l, m), ('^', l, m), ('+', l, m), ('-', m, l)])]
        x.run('basis literals in ' + alg, progs, npts=2)
        # pseudoscalar and inverse pseudoscalar literals
        A = ref.ALG[alg]
        names = ['_ps'] + (['_ips'] if alg in ('vga', 'cga', 'cga2') else [])
        pat = [('%s', lambda A, I, u: I), ('%s * x', lambda A, I, u: A.gp(I, u)), ('x * %s', lambda A, I, u: A.gp(u, I)), ('x + %s', lambda A, I, u: A.add(u, I)), ('x >> %s', lambda A, I, u: A.lc(u, I)), ('2 * %s', lambda A, I, u: A.scale(2, I)),
               ('%s / 3', lambda A, I, u: A.scale(1 / 3., I)), ('x ^ %s', lambda A, I, u: A.ep(u, I)), ('!%s', lambda A, I, u: A.dual(I)), ('~%s', lambda A, I, u: A.rev(I)), ('%s - x * %s', lambda A, I, u: A.add(I, A.neg(A.gp(u, I))))]
        for nm in names:
            for n in (0, 1, 2, 9):
                for f, fn in pat:
                    txt = f.replace('%s', '%d%s' % (n, nm))
                    kd = K[k[0]]

                    def reff(P, A=A, fn=fn, n=n, nm=nm, kd=kd):
                        u = A.to_natural(kd.mv([P[:, i] for i in range(kd.n)]))
                        I = A.to_natural({A.full: np.full(len(P), float(n if nm == '_ps' else -n))})
                        return [A.to_null(fn(A, I, u))]
                    raws.append(Raw('using namespace ::gal::%s; %s vf::emit(o, 0, ::gal::%s::compute([](auto x) { return %s; }, x));' % (alg, kd.decl('x', 0), alg, txt), kd.n, reff, '%s: %s' % (alg, txt), alg=alg))
        x.run('pseudoscalar literals in ' + alg, every(raws, x.pick(1 if alg == 'vga' else 2, 1)), npts=2)
        if x.done():
            return
    x.rpn('literals', x.pick(4, 5), ['+', '-', '*', '^', '~', '!', '>>', 'imul:2', 'neg'], [('a', 0b100101), ('#2_6', 0), ('#1_1', 0), ('#0_3', 0)])
