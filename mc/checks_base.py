"""C11-C13, C20: rational constants, powers, sorting and containers, textual output."""
import itertools
from fractions import Fraction
import numpy as np
from . import ref, expr
from .e2e import Prog, Raw
from .types import K, ent, VG, PG, P2, CG, C2
from .progs import *

SAN = ('-O1', '-g0', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined')


def const(rows):
    """expectation that does not depend on the input"""
    return lambda P: [{t: np.full(len(P), float(v)) for t, v in r.items()} for r in rows]


# ------------------------------------------------------------------------------------------------ C11
def c11(x):
    x.explore('rational arithmetic', 'rat_rt.cpp', [8, x.pick(40, 72), x.pick(4, 5), x.pick(3000, 12000)], timeout=x.pick(500, 3000))
    x.explore('rational arithmetic under the undefined behaviour sanitizer', 'rat_rt.cpp', [8, x.pick(16, 30), 3, x.pick(300, 2000)], flags=('-O1', '-fsanitize=undefined', '-fno-sanitize-recover=undefined'), tag='rat_san', timeout=x.pick(500, 3000))
    # the same numbers as constants of expressions
    progs = []
    fr = sorted({Fraction(n, d) for n in range(-6, 7) for d in range(1, 8)})
    fr = every(fr, x.pick(2, 1))
    as_ = lambda q, t: ('idiv', ('imul', q.numerator, t), q.denominator)
    for p, q in itertools.product(fr, repeat=2):
        progs.append(Prog('vga', ('float',), [('+', as_(p, a), as_(q, a)), as_(q, as_(p, a)), ('-', as_(p, a), as_(q, a)), ('*', as_(p, a), as_(q, a))]))
    x.run('sums, products and nestings of fractions', every(progs, x.pick(4, 1)), npts=2)
    progs = []
    for d in list(range(1, 64)) + [100, 127, 128, 255, 256, 341, 511, 512, 768, 1000, 1022, 1023]:
        for n in (1, d - 1, d + 1, 1000):
            progs.append(Prog('vga', ('float',), as_(Fraction(n, d), a)))
            progs.append(Prog('vga', ('float',), ('-', ('idiv', a, d), ('imul', n, a))))
    x.run('denominators up to the documented limit', every(progs, x.pick(2, 1)), npts=2)
    progs = []
    for d, e in itertools.product((2, 3, 5, 31, 32, 33, 64, 101, 1000, 1023), repeat=2):
        progs.append(Prog('vga', ('float',), ('idiv', ('idiv', a, d), e), tol=2e-7))
        progs.append(Prog('vga', ('float',), ('idiv', ('imul', 1023, ('idiv', a, d)), e), tol=2e-7))
    x.run('nested divisions beyond the limit stay within the approximation bound', progs, npts=2)


# ------------------------------------------------------------------------------------------------ C12
def c12(x):
    lim = x.pick(200, 400)
    if not x.explore('constant powers', 'pow_rt.cpp', [], defs=('LIM=%d' % lim,), flags=('-O0',)):
        x.explore('constant powers (floating point only)', 'pow_rt.cpp', [], defs=('LIM=%d' % lim, 'NOFIELD'), flags=('-O0',), tag='pow_nofield')
    # powers as they arise in expressions
    progs = []
    pw = {1: a, 0: None}
    for n in range(2, x.pick(25, 34)):
        h = n // 2
        pw[n] = ('*', pw[h], pw[n - h])
    for n in range(1, x.pick(25, 34)):
        progs.append(Prog('vga', ('float',), pw[n], scale=0.25))
        progs.append(Prog('vga', ('vga.scalar', 'float'), ('*', b, pw[n]), scale=0.25))
        progs.append(Prog('vga', ('float',), ('irec', 1, pw[n]), scale=0.25))
        progs.append(Prog('vga', ('float',), ('irec', 3, ('imul', 2, pw[n])), scale=0.25, T='float'))
        progs.append(Prog('vga', ('float', 'float'), ('/', b, pw[n]), scale=0.25))
        for m in (1, 2, n, n + 1, n - 1):
            if 1 <= m < x.pick(25, 34):
                progs.append(Prog('vga', ('float',), ('/', pw[n], pw[m]), scale=0.25))
    for n in range(1, 9):
        progs.append(Prog('vga', ('float', 'float'), ('sqrt', ('*', pw[n], pw[n])), scale=0.25))
        progs.append(Prog('vga', ('float', 'float'), ('*', ('sqrt', ('*', a, a)), pw[n]), scale=0.25))
    x.run('powers in expressions', progs, npts=6)


# ------------------------------------------------------------------------------------------------ C13
LET = {'i': ('int', 1, 'int'), 'd': ('double', 2, 'double'), 'c': ('char', 3, 'char')}


def tup(types, base=11):
    """C++ expression of a tuple with distinct values, and its model [(type, value)]"""
    m = [(t, base + 3 * j) for j, t in enumerate(types)]
    return '::gal::tuple<%s>{%s}' % (', '.join(LET[t][0] for t in types), ', '.join('%s(%d)' % (LET[t][0], v) for t, v in m)), m


def model(m):
    return dict([(7, len(m))] + [(8 * i + LET[t][1], v) for i, (t, v) in enumerate(m)])


def tuple_ops(m, full=True):
    """every operation on a tuple t with model m: (group, C++ text producing results, expected models)"""
    n = len(m)
    out = []
    for v in ('i', 'd', 'c'):
        e = '%s(99)' % LET[v][0]
        out.append(('push', 'vf::plain(o, 0, t.push(%s));' % e, [[(v, 99)] + m]))
        out.append(('append', 'vf::plain(o, 0, t.append(%s));' % e, [m + [(v, 99)]]))
        out.append(('push lvalue', '%s v = %s; vf::plain(o, 0, t.push(v)); vf::plain(o, 1, t.append(v));' % (LET[v][0], e), [[(v, 99)] + m, m + [(v, 99)]]))
    if n:
        out.append(('pop', 'auto r = t.pop(); vf::plain(o, 0, ::gal::make_tuple(r.first)); vf::plain(o, 1, r.second);', [m[:1], m[1:]]))
        out.append(('back', 'auto const& ct = t; auto u = t; u.back() = 77; vf::plain(o, 0, ::gal::make_tuple(ct.back())); vf::plain(o, 1, u);', [m[-1:], m[:-1] + [(m[-1][0], 77)]]))
        out.append(('apply', 'vf::plain(o, 0, t.apply([](auto... v) { return ::gal::make_tuple(v...); }));', [m]))
        out.append(('apply_reverse', 'vf::plain(o, 0, t.apply_reverse([](auto... v) { return ::gal::make_tuple(v...); }));', [m[::-1]]))
        out.append(('mutate', 'auto u = t; u.template mutate<vf::bump>(5); vf::plain(o, 0, u); vf::plain(o, 1, t);', [[(a, v + 5) for a, v in m], m]))
    for i in range(n):
        out.append(('set', 'auto u = t; u.template set<%d>(88); vf::plain(o, 0, u); vf::plain(o, 1, t);' % i, [m[:i] + [(m[i][0], 88)] + m[i + 1:], m]))
        out.append(('get', 'auto u = t; u.template get<%d>() = 66; auto const& ct = t; vf::plain(o, 0, u); vf::plain(o, 1, ::gal::make_tuple(ct.template get<%d>()));' % (i, i), [m[:i] + [(m[i][0], 66)] + m[i + 1:], [m[i]]]))
        out.append(('split_drop', 'auto r = t.template split_drop<%d>(); vf::plain(o, 0, r.first); vf::plain(o, 1, r.second);' % i, [m[:i], m[i + 1:]]))
    for i in range(n + 1):
        out.append(('split', 'auto r = t.template split<%d>(); vf::plain(o, 0, r.first); vf::plain(o, 1, r.second);' % i, [m[:i], m[i:]]))
    for v in sorted({a for a, _ in m}):
        j = [a for a, _ in m].index(v)
        out.append(('find_t', 'o.put(0, 0, decltype(t)::template find_t<%s>());' % LET[v][0], [{0: j}]))
        out.append(('split_at_type', 'auto r = t.template split_at_type<%s>(); vf::plain(o, 0, r.first); vf::plain(o, 1, r.second);' % LET[v][0], [m[:j], m[j + 1:]]))
    out.append(('size', 'o.put(0, 0, t.size()); o.put(0, 1, ::gal::is_tuple_v<decltype(t)>); vf::plain(o, 1, ::gal::make_tuple(1, 2.0)); auto pr = ::gal::make_pair(4, 2.5); o.put(2, 0, pr.first); o.put(2, 1, pr.second); o.put(2, 2, ::gal::is_pair_v<decltype(pr)> && !::gal::is_pair_v<decltype(t)> && !::gal::is_tuple_v<int>);',
                [{0: n, 1: 1}, [('i', 1), ('d', 2)], {0: 4, 1: 2.5, 2: 1}]))
    return out


def c13(x):
    x.explore('sort and stack', 'seq_rt.cpp', [x.pick(6, 7), x.pick(7, 9)], flags=SAN, timeout=x.pick(500, 3000))
    x.explore('sort and stack, optimised build', 'seq_rt.cpp', [x.pick(6, 7), x.pick(6, 8)], tag='seq_o2', timeout=x.pick(500, 3000))
    progs = []
    maxn = x.pick(3, 4)
    shapes = [s for n in range(maxn + 1) for s in itertools.product('idc', repeat=n)]
    shapes += [tuple(s) for s in (('iiii', 'idic', 'ddcc', 'cidcd', 'iddcidc', 'idcidcidcidc') if x.quick else ('cidcd', 'iiiii', 'iddcidc', 'cccccccc', 'idcidcidcidc', 'ddddiiiiccccddddiiii'))]
    for s in shapes:
        cons, m = tup(s)
        for g, body, exp in tuple_ops(m):
            rows = [model(e) if isinstance(e, list) else e for e in exp]
            progs.append(Raw('auto t = %s; %s' % (cons, body), 0, const(rows), 'tuple<%s>: %s' % (''.join(s), body), group='tuple ' + g))
    # sequences of two structural operations
    step = [('t.push(5)', lambda m: [('i', 5)] + m), ('t.append(6.0)', lambda m: m + [('d', 6)]), ('t.pop().second', lambda m: m[1:]), ('t.template split<1>().second', lambda m: m[1:]), ('t.template split<2>().first', lambda m: m[:2]),
            ('t.template split_drop<1>().second', lambda m: m[2:]), ('t.template split_drop<2>().first', lambda m: m[:2]), ('t.template split_at_type<int>().second', lambda m: m[[a for a, _ in m].index('i') + 1:])]
    depth = x.pick(2, 3)
    for s in (('i', 'd', 'c', 'i'), ('d', 'i', 'i', 'c', 'd')):
        cons, m = tup(s)
        for seq in itertools.product(step, repeat=depth):
            body, cur, ok = 'auto t0 = %s;' % cons, m, True
            for j, (txt, f) in enumerate(seq):
                need = 3 if '<2>' in txt else 2 if '<1>' in txt else 1
                if len(cur) < need or ('<int>' in txt and 'i' not in [a for a, _ in cur]):
                    ok = False
                    break
                body += ' auto t%d = [](auto t) { return %s; }(t%d);' % (j + 1, txt, j)
                cur = f(cur)
            if ok:
                progs.append(Raw(body + ' vf::plain(o, 0, t%d); vf::plain(o, 1, t0);' % depth, 0, const([model(cur), model(m)]), 'tuple<%s> after %s' % (''.join(s), ', '.join(t for t, _ in seq)), group='tuple sequences'))
    x.run('tuple operations', progs, npts=1, chunk=60)
    # the same sort and stack, evaluated by the compiler
    ct = []
    for n in range(0, 5):
        for w in itertools.product(range(n or 1), repeat=n):
            if n == 4 and x.quick and sum(w) % 2:
                continue
            s = sorted(w)
            ct.append(Raw('constexpr auto r = vf::sorted_copy(std::array<int, %d>{%s}); for (int i = 0; i != %d; ++i) o.put(0, i, r[i]);' % (n, ', '.join(map(str, w)), n), 0, const([{i: v for i, v in enumerate(s)}]), 'compile-time sort of %s' % (w,), group='compile-time sort'))
    x.run('sort in constant evaluation', ct, npts=1, chunk=100)


# ------------------------------------------------------------------------------------------------ C20
VALS = [1.0, -2.0, 0.5, 3.25, -0.125, 0.0, 7.0, 1024.0, -11.5, 6.0, 2.75, 9.0, -1.0, 4.0, 8.5, 12.0]


def text_of(els, vals):
    def num(v):
        s = '%.6g' % v
        return s
    if not els:
        return '0'
    return '+'.join(num(v) + ('' if e == 0 else 'e' + ''.join(str(j) for j in range(16) if e >> j & 1)) for e, v in zip(els, vals))


def show(algname, els, T, alg, off=0):
    vals = [VALS[(i * 5 + off) % len(VALS)] for i in range(len(els))]
    want = text_of(els, vals)
    n = len(els)
    body = '%s const x{%s}; std::string s = ::gal::to_string(x); int k = 0; for (char ch : s) if (ch != \' \') o.put(0, k++, ch); o.put(1, 0, k);' % (
        ent(algname, els) if els else '::gal::entity<%s, T>' % algname, ', '.join('T(%r)' % v for v in vals))
    return Raw(body, 0, const([{i: ord(ch) for i, ch in enumerate(want)}, {0: len(want)}]), 'text of blades %s in %s with %s' % (list(els), alg, vals), T=T, alg=alg)


def c20(x):
    progs = []
    for m in range(256):
        els = [e for e in range(8) if m >> e & 1]
        progs.append(show(VG, els, 'double', 'vga', m))
        if m % 3 == 0 or not x.quick:
            progs.append(show(P2, els, 'float', 'pga2', m))
    x.run('every component set of the 3D vector space', progs, npts=1, chunk=60)
    progs = []
    for A, nm, n in ((PG, 'pga', 16), (C2, 'cga2', 16), (CG, 'cga', 32)):
        sets = [[e] for e in range(n)] + [[e, f] for e in range(n) for f in range(e + 1, n)] + [list(range(n)), list(range(1, n, 2)), list(range(0, n, 3))] + [[e for e in range(n) if bin(e).count('1') == g] for g in range(6)]
        sets = [s for s in sets if s]
        progs += [show(A, s, 'double' if i % 2 else 'float', nm, i) for i, s in enumerate(every(sets, x.pick(1 if n == 16 and nm == 'pga' else 4, 1)))]
    # the largest algebras a blade index can hold
    for d in (6, 7, 8):
        A = '::gal::algebra<::gal::metric<%d, 0, 0>>' % d
        sets = [[1 << (d - 1)], [0, 1 << (d - 1)], [1, 1 << (d - 2), (1 << d) - 1], [(1 << (d - 1)) | 1], [3 << (d - 2)]]
        progs += [show(A, s, 'double', 'metric<%d,0,0>' % d, i) for i, s in enumerate(sets)]
    x.run('component sets of the other algebras', progs, npts=1, chunk=60)
    # every kind of value
    progs = []
    for v in (0.0, 1.0, -1.0, 10.0, 100000.0, 1e6, 1e7, 1.5e-5, 0.1, 1.0 / 3, -2.0 / 3, 123456.0, 1234567.0, 1e100, 1e-100, 0.001, 99999.95):
        for els in ([0], [1], [7], [0, 6]):
            want = text_of(els, [v] * len(els))
            body = '%s const x{%s}; std::string s = ::gal::to_string(x); int k = 0; for (char ch : s) if (ch != \' \') o.put(0, k++, ch); o.put(1, 0, k);' % (ent(VG, els), ', '.join('T(%r)' % v for _ in els))
            progs.append(Raw(body, 0, const([{i: ord(ch) for i, ch in enumerate(want)}, {0: len(want)}]), 'text of value %r on blades %s' % (v, els)))
    # computed results
    for txt, els, vals in (('a * b', [0, 3, 5, 6], None), ('a - a', [], []), ('a ^ b', [3, 5, 6], None), ('a + b', [1, 2, 4], None), ('2 * a', [1, 2, 4], None), ('a >> b', [0], None), ('!a', [3, 5, 6], None)):
        u, v = (1, 2, -3), (4, 0, 5)
        A = ref.ALG['vga']
        mu, mv = {1: 1.0, 2: 2.0, 4: -3.0}, {1: 4.0, 2: 0.0, 4: 5.0}
        r = {'a * b': A.gp(mu, mv), 'a - a': {}, 'a ^ b': A.ep(mu, mv), 'a + b': A.add(mu, mv), '2 * a': A.scale(2, mu), 'a >> b': A.lc(mu, mv), '!a': A.dual(mu)}[txt]
        want = text_of(els, [float(r.get(e, 0.0)) + 0.0 for e in els])
        body = 'using namespace ::gal::vga; vector<T> a{1, 2, -3}, b{4, 0, 5}; std::string s = ::gal::to_string(::gal::vga::compute([](auto a, auto b) { return %s; }, a, b)); int k = 0; for (char ch : s) if (ch != \' \') o.put(0, k++, ch); o.put(1, 0, k);' % txt
        progs.append(Raw(body, 0, const([{i: ord(ch) for i, ch in enumerate(want)}, {0: len(want)}]), 'text of the computed %s' % txt))
    x.run('values and computed results', progs, npts=1, chunk=60)
