"""C14-C18: the geometry of the shipped models, over exhaustive grids of coordinates, angles and axes."""
import itertools
import numpy as np
from . import ref, expr, gen
from .e2e import Prog, Raw
from .types import K
from .progs import *

S3 = lambda *v: np.stack(v, axis=1)


def grid(vals, n):
    return list(itertools.product(vals, repeat=n))


def rows(*sets):
    """every combination of the given tuples, flattened to one row each"""
    return np.array([sum((tuple(t) for t in c), ()) for c in itertools.product(*sets)], dtype=float)


def V(P, i):
    return P[:, i:i + 3]


def cols(*arrays):
    """tags 0.. -> columns of the arrays in order"""
    out, k = {}, 0
    for A in arrays:
        A = np.asarray(A)
        if A.ndim == 1:
            A = A[:, None]
        for j in range(A.shape[1]):
            out[k] = A[:, j]
            k += 1
    return out


def dot(u, v):
    return np.sum(u * v, axis=1)


def put(r, name, n):
    return ' for (int i = 0; i != %d; ++i) o.put(%d, i, %s[i]);' % (n, r, name)


def geo(alg, note, body, pts, fn, T='double', tol=None, arity=None, group=None):
    pts = np.asarray(pts, dtype=float)
    return Raw('using namespace ::gal::%s; %s' % (alg, body), pts.shape[1] if arity is None else arity, fn, note, T=T, alg=alg, pts=pts, tol=tol, group=group)


def decl(kind, name, off):
    return K[kind].decl(name, off)


def comp(alg, txt, **args):
    ps = ', '.join('auto ' + p for p in args)
    return '::gal::%s::compute([](%s) { return %s; }%s)' % (alg, ps, txt, ''.join(', ' + a for a in args.values()))


# ------------------------------------------------------------------------------------------------ C14
def c14(x):
    P1 = grid((-1, 0, 2), 3)
    P2 = grid((0, 1, -3), 3)
    P8 = grid((1, -2), 3)
    N = [n for n in grid((-1, 0, 1), 3) if any(n)]
    for T in ('double', 'float', 'long double'):
        pr = []
        # ---- coordinates survive
        g4 = rows(grid((-2, 0, 1, 3), 4))
        pr.append(geo('pga', 'plane keeps its coordinates', 'plane<T> a{T(p[0]), T(p[1]), T(p[2]), T(p[3])}; plane<T> r = %s; %s o.put(1, 0, a.d); o.put(1, 1, a.x); o.put(1, 2, a.y); o.put(1, 3, a.z); vf::emit(o, 2, %s);' % (comp('pga', 'a', a='a'), put(0, 'r', 4), comp('pga', 'a', a='a')), g4,
                      lambda P: [cols(P), cols(P), {1: P[:, 0], 2: P[:, 1], 4: P[:, 2], 8: P[:, 3]}], T))
        g3 = rows(grid((-2, 0, 1, 3), 3))
        pr.append(geo('pga', 'direction keeps its coordinates', 'vector<T> a{T(p[0]), T(p[1]), T(p[2])}; vector<T> r = %s; %s o.put(1, 0, a.x); o.put(1, 1, a.y); o.put(1, 2, a.z); o.put(2, 0, r.x); o.put(2, 1, r.y); o.put(2, 2, r.z);' % (comp('pga', 'a', a='a'), put(0, 'r', 3)), g3,
                      lambda P: [cols(P), cols(P), cols(P)], T))
        g6 = rows(grid((-1, 0, 2), 6))
        pr.append(geo('pga', 'line keeps its direction and moment', 'line<T> a{T(p[0]), T(p[1]), T(p[2]), T(p[3]), T(p[4]), T(p[5])}; line<T> r = %s; %s o.put(1, 0, a.dx); o.put(1, 1, a.dy); o.put(1, 2, a.dz); o.put(1, 3, a.mx); o.put(1, 4, a.my); o.put(1, 5, a.mz); line<T> c{a.data}; %s' % (comp('pga', 'a', a='a'), put(0, 'r', 6), put(2, 'c', 6)), g6,
                      lambda P: [cols(P), cols(P), cols(P)], T))
        g8 = rows(grid((-1, 2), 8))
        pr.append(geo('pga', 'motor keeps its components', 'motor<T> a{%s}; motor<T> r = %s; %s auto bv = a.bivector(); vf::emit(o, 1, bv); motor<T> c{a.data}; %s vf::emit(o, 3, %s);' % (', '.join('T(p[%d])' % i for i in range(8)), comp('pga', 'a', a='a'), put(0, 'r', 8), put(2, 'c', 8), comp('pga', 'a', a='a')), g8,
                      lambda P: [cols(P), {e: P[:, i + 1] for i, e in enumerate((3, 5, 6, 9, 10, 12))}, cols(P), {e: P[:, i] for i, e in enumerate((0, 3, 5, 6, 9, 10, 12, 15))}], T))
        # ---- points: cartesian, homogeneous, scaled
        W = (1, -1, 2, -4, 0.5)
        gw = rows(grid((-2, 0, 1, 3), 3), [(w,) for w in W])
        vp = '::gal::vga::point<T> a{T(p[0]), T(p[1]), T(p[2])};'
        out = lambda r, e: '{ ::gal::vga::point<T> r = %s; %s }' % (e, put(r, 'r', 3))
        pr.append(geo('pga', 'points in cartesian and homogeneous form', vp + ' T w = T(p[3]); pga::point<T> h = a; pga::point<T> g{-w * a.z, w * a.y, -w * a.x, w};'
                      + out(0, comp('pga', 'a', a='a')) + out(1, comp('pga', 'w * a', a='a', w='w')) + out(2, 'h') + out(3, 'g') + out(4, comp('pga', 'g', g='g')) + out(5, comp('pga', '3 * g / 2', g='g'))
                      + ' vf::emit(o, 6, h); vf::emit(o, 7, %s); vf::emit(o, 8, %s);' % (comp('pga', 'a', a='a'), comp('pga', 'a - h', a='a', h='h')), gw,
                      lambda P: [cols(V(P, 0))] * 6 + [{7: -P[:, 2], 11: P[:, 1], 13: -P[:, 0], 14: 1 + 0 * P[:, 0]}] * 2 + [{}], T))
        MG = [(m, w) for m in (1e-6, 1e-3, 1e3, 1e6) for w in (1e-6, 1e-3, 1e3, 1e6)]
        pr.append(geo('pga', 'points of every magnitude and weight', 'T s = T(p[3]), w = T(p[4]); ::gal::vga::point<T> a{s * T(p[0]), s * T(p[1]), s * T(p[2])}; pga::point<T> h = a; pga::point<T> g{-w * a.z, w * a.y, -w * a.x, w};'
                      + ''.join('{ ::gal::vga::point<T> r = %s; for (int i = 0; i != 3; ++i) o.put(%d, i, r[i] / s); }' % (e, j) for j, e in enumerate((comp('pga', 'a', a='a'), 'h', 'g', comp('pga', 'w * a', a='a', w='w'), comp('pga', 'g', g='g')))), rows(grid((-2, 0, 1), 3), MG), lambda P: [cols(V(P, 0))] * 5, T, tol=1e-9 if T != 'float' else 1e-4))
        # ---- joins of points
        g = rows(P1, P2)
        two = vp + ' ::gal::vga::point<T> b{T(p[3]), T(p[4]), T(p[5])}; pga::point<T> ha = a, hb = b;'
        line = lambda r, e: '{ line<T> r = %s; %s }' % (e, put(r, 'r', 6))
        LQ = lambda P: cols(V(P, 3) - V(P, 0), np.cross(V(P, 0), V(P, 3)))
        pr.append(geo('pga', 'line through two points', two + line(0, comp('pga', 'a & b', a='a', b='b')) + line(1, comp('pga', 'a & b', a='ha', b='hb')) + line(2, comp('pga', '-(b & a)', a='a', b='b')) + line(3, comp('pga', '(2 * a) & (b / 2)', a='a', b='hb')), g,
                      lambda P: [neg(LQ(P))] * 4, T))
        pr.append(geo('pga', 'line through a point along a direction', vp + ' vector<T> b{T(p[3]), T(p[4]), T(p[5])};' + line(0, comp('pga', 'a & b', a='a', b='b')), g,
                      lambda P: [neg(cols(V(P, 3), np.cross(V(P, 0), V(P, 3))))], T))
        g = rows(P1, P2, P8) if not x.quick else rows(every(P1, 2), every(P2, 2), P8)
        three = vp + ' ::gal::vga::point<T> b{T(p[3]), T(p[4]), T(p[5])}, c{T(p[6]), T(p[7]), T(p[8])};'
        plane = lambda r, e: '{ plane<T> r = %s; %s }' % (e, put(r, 'r', 4))

        def pl3(P):
            n = np.cross(V(P, 3) - V(P, 0), V(P, 6) - V(P, 0))
            return cols(-dot(n, V(P, 0)), n)
        pr.append(geo('pga', 'plane through three points', three + plane(0, comp('pga', 'a & b & c', a='a', b='b', c='c')) + plane(1, comp('pga', 'a & (b & c)', a='a', b='b', c='c')) + plane(2, comp('pga', '-(b & a & c)', a='a', b='b', c='c'))
                      + '{ line<T> l = %s; plane<T> r = %s; %s }' % (comp('pga', 'a & b', a='a', b='b'), comp('pga', 'l & c', l='l', c='c'), put(3, 'r', 4)), g, lambda P: [neg(pl3(P))] * 4, T))
        # ---- meets of planes
        D = (0, 1, -2)
        PL = [(d,) + n for d in D for n in N]
        PLq = [(d,) + n for d in (1, -2) for n in every(N, 3)]
        pdecl = lambda nm, o: 'plane<T> %s{T(p[%d]), T(p[%d]), T(p[%d]), T(p[%d])};' % (nm, o, o + 1, o + 2, o + 3)
        g = rows(PL, PL) if not x.quick else rows(PL, PLq)

        def lpp(P):
            n, m = P[:, 1:4], P[:, 5:8]
            return cols(np.cross(n, m), P[:, 0:1] * m - P[:, 4:5] * n)
        pr.append(geo('pga', 'line common to two planes', pdecl('a', 0) + pdecl('b', 4) + line(0, comp('pga', 'a ^ b', a='a', b='b')) + line(1, comp('pga', '-(b ^ a)', a='a', b='b')) + 'vf::emit(o, 2, %s);' % comp('pga', 'a ^ a', a='a'), g, lambda P: [scale(SIGN['pl^pl'], lpp(P)), scale(SIGN['pl^pl'], lpp(P)), {}], T))
        g = rows(PLq, PLq, every(PL, 3)) if x.quick else rows(PL, PLq, PL)

        def ppp(P):
            n, m, k = P[:, 1:4], P[:, 5:8], P[:, 9:12]
            det = dot(n, np.cross(m, k))
            pt = -(P[:, 0:1] * np.cross(m, k) + P[:, 4:5] * np.cross(k, n) + P[:, 8:9] * np.cross(n, m))
            return det, pt

        def meet3(P):
            det, pt = ppp(P)
            with np.errstate(all='ignore'):
                return [{7: -pt[:, 2], 11: pt[:, 1], 13: -pt[:, 0], 14: det}, cols(pt / det[:, None]), cols(pt / det[:, None])]
        pr.append(geo('pga', 'point common to three planes', pdecl('a', 0) + pdecl('b', 4) + pdecl('c', 8) + 'vf::emit(o, 0, %s);' % comp('pga', 'a ^ b ^ c', a='a', b='b', c='c') + out(1, comp('pga', 'a ^ (b ^ c)', a='a', b='b', c='c'))
                      + '{ line<T> l = %s; ::gal::vga::point<T> r = %s; %s }' % (comp('pga', 'a ^ b', a='a', b='b'), comp('pga', 'l ^ c', l='l', c='c'), put(2, 'r', 3)), g, meet3, T))
        # ---- incidence
        g = rows(grid((-1, 0, 2), 3), PL if not x.quick else every(PL, 2))
        val = lambda P: dot(P[:, 4:7], V(P, 0)) + P[:, 3]
        pr.append(geo('pga', 'a point is on a plane exactly when they join to nothing', vp + pdecl('b', 3) + 'o.put(0, 0, (%s).template select<0>()); o.put(1, 0, (%s).template select<15>()); o.put(2, 0, (%s).template select<0>());' % (
            comp('pga', 'a & b', a='a', b='b'), comp('pga', 'a ^ b', a='a', b='b'), comp('pga', 'b & a', a='a', b='b')), g,
            lambda P: [{0: SIGN['pt&pl'] * val(P)}, {0: SIGN['pt^pl'] * val(P)}, {0: SIGN['pl&pt'] * val(P)}], T))
        LN = [tuple(d) + tuple(np.cross(q, d)) for d in every(N, 2) for q in ((0, 0, 0), (1, -1, 2), (0, 2, 1))]
        g = rows(grid((-1, 0, 2), 3), LN)
        ldecl = lambda nm, o: 'line<T> %s{%s};' % (nm, ', '.join('T(p[%d])' % (o + i) for i in range(6)))

        def lpt(P):
            d, m, q = P[:, 3:6], P[:, 6:9], V(P, 0)
            n = np.cross(q, d) - m
            return cols(dot(m, q), n)
        pr.append(geo('pga', 'a point is on a line exactly when they join to nothing', vp + ldecl('b', 3) + plane(0, comp('pga', 'a & b', a='a', b='b')) + plane(1, comp('pga', 'b & a', a='a', b='b')), g, lambda P: [scale(SIGN['pt&ln'], lpt(P)), scale(SIGN['ln&pt'], lpt(P))], T))
        g = rows(LN, LN if not x.quick else every(LN, 2))
        rec = lambda P: dot(V(P, 0), P[:, 9:12]) + dot(V(P, 3), P[:, 6:9])
        pr.append(geo('pga', 'two lines meet exactly when their join vanishes', ldecl('a', 0) + ldecl('b', 6) + 'o.put(0, 0, (%s).template select<15>()); o.put(1, 0, (%s).template select<0>());' % (comp('pga', 'a ^ b', a='a', b='b'), comp('pga', 'a & b', a='a', b='b')), g,
                      lambda P: [{0: SIGN['ln^ln'] * rec(P)}, {0: SIGN['ln&ln'] * rec(P)}], T))
        g = rows(LN, PL if not x.quick else every(PL, 2))

        def lxp(P):
            d, m, e, n = V(P, 0), V(P, 3), P[:, 6], P[:, 7:10]
            w = dot(n, d)
            pt = np.cross(n, m) - e[:, None] * d
            with np.errstate(all='ignore'):
                return cols(pt / w[:, None])
        pr.append(geo('pga', 'point common to a line and a plane', ldecl('a', 0) + pdecl('b', 6) + out(0, comp('pga', 'a ^ b', a='a', b='b')) + out(1, comp('pga', 'b ^ a', a='a', b='b')), g, lambda P: [lxp(P)] * 2, T))
        # ---- orthogonality and projection
        Nu = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0.6, 0.8, 0), (0, -0.6, 0.8), (0.8, 0, 0.6)]
        g = rows(grid((-1, 0, 2), 3), [(d,) + n for d in (0, 1, -2) for n in Nu])
        pr.append(geo('pga', 'projection of a point on a plane', vp + pdecl('b', 3) + out(0, comp('pga', '(a | b) * b', a='a', b='b')), g, lambda P: [cols(V(P, 0) - val(P)[:, None] * P[:, 4:7])], T))
        LU = [tuple(d) + tuple(np.cross(q, d)) for d in Nu for q in ((0, 0, 0), (1, -1, 2), (0, 2, 1))]
        g = rows(grid((-1, 0, 2), 3), LU)

        def prl(P):
            d, m, q = P[:, 3:6], P[:, 6:9], V(P, 0)
            base = np.cross(d, m)
            return cols(base + dot(q - base, d)[:, None] * d)
        pr.append(geo('pga', 'projection of a point on a line', vp + ldecl('b', 3) + out(0, comp('pga', '(a | b) * b', a='a', b='b')), g, lambda P: [prl(P)], T))
        x.run('3D projective geometry, %s' % T, pr, chunk=1)
        if x.done():
            return


# orientation conventions of the model (fixed, so that a flipped sign is noticed)
SIGN = {'pl^pl': -1, 'pt&pl': -1, 'pt^pl': -1, 'pl&pt': 1, 'pt&ln': -1, 'ln&pt': -1, 'ln^ln': 1, 'ln&ln': 1}


def neg(d):
    return {k: -v for k, v in d.items()}


def scale(s, d):
    return {k: s * v for k, v in d.items()}


# ------------------------------------------------------------------------------------------------ C15, C16
AXES = [np.array(n, dtype=float) / np.linalg.norm(n) for n in grid((-1, 0, 1), 3) if any(n)]


def angles(quick):
    return [k * np.pi / 12 for k in (range(-24, 25) if not quick else (-24, -18, -12, -7, -6, -1, 0, 1, 3, 6, 8, 12, 13, 17, 18, 24))] + [0.1, -2.5, 1e-3]


FINE = [1e-9, -1e-6, 1e-4, 0.01, np.pi - 1e-9, np.pi + 1e-7, np.pi - 1e-6, np.pi + 1e-5, np.pi - 1e-4, -np.pi + 1e-3, np.pi + 0.01, 2 * np.pi - 1e-3, 4 * np.pi + 0.5, 31.0]


def rotate(v, k, th):
    c, s = np.cos(th)[:, None], np.sin(th)[:, None]
    return v * c + np.cross(k, v) * s + k * dot(k, v)[:, None] * (1 - c)


def arot(x, n=1):
    return [(t,) + tuple(k) for t in angles(x.quick) for k in every(AXES, n)]


def pvec(P):
    return {7: -P[:, 2], 11: P[:, 1], 13: -P[:, 0]}


def c15(x):
    PT = [(1, 2, -3), (0, 0, 0), (-2, 0.5, 4), (0, 0, 1)]
    LN = [tuple(d) + tuple(np.cross(q, d)) for d in ((1, 0, 0), (0, 2, -1), (1, 1, 1)) for q in ((0, 0, 0), (1, -1, 2))]
    PL = [(1, 0, 0, 1), (-2, 1, 2, 0.5), (0, 3, -1, 1)]
    D = (0, 1, -1, 2.5, -4)
    ds = [(d,) + tuple(k) for d in D for k in AXES]
    R = 'rotor<T> r{T(p[0]), T(p[1]), T(p[2]), T(p[3])};'
    TR = 'translator<T> t{T(p[0]), T(p[1]), T(p[2]), T(p[3])};'
    vpt = lambda o, n='a': '::gal::vga::point<T> %s{T(p[%d]), T(p[%d]), T(p[%d])};' % (n, o, o + 1, o + 2)
    hpt = lambda o, n='a': 'pga::point<T> %s = ::gal::vga::point<T>{T(p[%d]), T(p[%d]), T(p[%d])};' % (n, o, o + 1, o + 2)
    vec = lambda o, n='a': 'vector<T> %s{T(p[%d]), T(p[%d]), T(p[%d])};' % (n, o, o + 1, o + 2)
    ln = lambda o, n='a': 'line<T> %s{%s};' % (n, ', '.join('T(p[%d])' % (o + i) for i in range(6)))
    pl = lambda o, n='a': 'plane<T> %s{%s};' % (n, ', '.join('T(p[%d])' % (o + i) for i in range(4)))
    outp = lambda r, e: '{ ::gal::vga::point<T> q = %s; %s }' % (e, put(r, 'q', 3))
    outv = lambda r, e: '{ vector<T> q = %s; %s }' % (e, put(r, 'q', 3))
    outl = lambda r, e: '{ line<T> q = %s; %s }' % (e, put(r, 'q', 6))
    outq = lambda r, e: '{ plane<T> q = %s; %s }' % (e, put(r, 'q', 4))
    sw = lambda m: comp('pga', 'a %% %s' % m, a='a', **{m: m})
    sw2 = lambda m: comp('pga', '%s * a * ~%s' % (m, m), a='a', **{m: m})
    for T in ('double', 'float', 'long double'):
        if T != 'double' and x.quick:
            rt, tl = arot(x, 5), every(ds, 3)
        else:
            rt, tl = arot(x), ds
        tol = 1e-9 if T != 'float' else 1e-4
        pr = []
        G = lambda *a_, **k_: pr.append(geo('pga', *a_, T=T, tol=tol, **k_))
        rot = lambda v: (lambda P: rotate(v(P), P[:, 1:4], RS * P[:, 0]))
        # ---- rotors
        G('rotor turns points about its axis', R + vpt(4) + outp(0, sw('r')) + outp(1, sw2('r')) + '{' + hpt(4, 'h') + outp(2, comp('pga', 'a % r', a='h', r='r')) + '}', rows(rt, PT), lambda P: [cols(rot(lambda P: V(P, 4))(P))] * 3)
        G('rotor turns directions', R + vec(4) + outv(0, sw('r')) + outv(1, sw2('r')), rows(rt, PT), lambda P: [cols(rot(lambda P: V(P, 4))(P))] * 2)
        G('rotor turns lines', R + ln(4) + outl(0, sw('r')) + outl(1, sw2('r')), rows(rt, LN), lambda P: [cols(rot(lambda P: V(P, 4))(P), rot(lambda P: V(P, 7))(P))] * 2)
        G('rotor turns planes', R + pl(4) + outq(0, sw('r')) + outq(1, sw2('r')), rows(rt, PL), lambda P: [cols(P[:, 4], rot(lambda P: V(P, 5))(P))] * 2)
        G('reversed rotor undoes the turn', R + vpt(4) + outp(0, comp('pga', '(a % r) % ~r', a='a', r='r')) + outp(1, comp('pga', 'a % (r * ~r)', a='a', r='r')), rows(rt, PT[:2]), lambda P: [cols(V(P, 4))] * 2)
        # ---- translators
        tv = lambda P: TS * P[:, 0:1] * P[:, 1:4]
        G('translator moves points', TR + vpt(4) + outp(0, sw('t')) + outp(1, sw2('t')) + '{' + hpt(4, 'h') + outp(2, comp('pga', 'a % t', a='h', t='t')) + '}', rows(tl, PT), lambda P: [cols(V(P, 4) + tv(P))] * 3)
        G('translator keeps directions', TR + vec(4) + outv(0, sw('t')) + outv(1, sw2('t')), rows(tl, PT), lambda P: [cols(V(P, 4))] * 2)
        G('translator moves lines', TR + ln(4) + outl(0, sw('t')) + outl(1, sw2('t')), rows(tl, LN), lambda P: [cols(V(P, 4), V(P, 7) + np.cross(tv(P), V(P, 4)))] * 2)
        G('translator moves planes', TR + pl(4) + outq(0, sw('t')) + outq(1, sw2('t')), rows(tl, PL), lambda P: [cols(P[:, 4] - dot(V(P, 5), tv(P)), V(P, 5))] * 2)
        G('reversed translator undoes the move', TR + vpt(4) + outp(0, comp('pga', '(a % t) % ~t', a='a', t='t')), rows(tl, PT[:2]), lambda P: [cols(V(P, 4))])
        # ---- composition, as expressions and as stored motors
        rq, tq = every(rt, x.pick(11, 5)), every(tl, x.pick(7, 5))
        RT2 = R + 'translator<T> t{T(p[4]), T(p[5]), T(p[6]), T(p[7])};'
        t2 = lambda P: TS * P[:, 4:5] * P[:, 5:8]
        r1 = lambda P, v: rotate(v, P[:, 1:4], RS * P[:, 0])
        G('rotor after translator', RT2 + vpt(8) + outp(0, comp('pga', 'a % (r * t)', a='a', r='r', t='t')) + outp(1, comp('pga', '(a % t) % r', a='a', r='r', t='t')) + '{ motor<T> m = %s; %s }' % (comp('pga', 'r * t', r='r', t='t'), outp(2, comp('pga', 'a % m', a='a', m='m'))),
          rows(rq, tq, PT[:2]), lambda P: [cols(r1(P, V(P, 8) + t2(P)))] * 3)
        G('translator after rotor', RT2 + vpt(8) + outp(0, comp('pga', 'a % (t * r)', a='a', r='r', t='t')) + outp(1, comp('pga', '(a % r) % t', a='a', r='r', t='t')) + '{ motor<T> m = %s; %s }' % (comp('pga', 't * r', r='r', t='t'), outp(2, comp('pga', 'm * a * ~m', a='a', m='m')) + outl_of(3)),
          rows(rq, tq, PT[:2]), lambda P: [cols(r1(P, V(P, 8)) + t2(P))] * 3 + [line_of(P, r1, t2)])
        R2 = R + 'rotor<T> s{T(p[4]), T(p[5]), T(p[6]), T(p[7])};'
        G('rotor after rotor', R2 + vpt(8) + outp(0, comp('pga', 'a % (s * r)', a='a', r='r', s='s')) + '{ motor<T> m = %s; %s }' % (comp('pga', 's * r', r='r', s='s'), outp(1, comp('pga', 'a % m', a='a', m='m'))),
          rows(rq, every(rt, x.pick(13, 7)), PT[:1]), lambda P: [cols(rotate(r1(P, V(P, 8)), P[:, 5:8], RS * P[:, 4]))] * 2)
        # ---- normalisation
        Gs = [2.0, -0.5, 3.0]
        G('rotor and translator normalise their axis', 'rotor<T> r{T(p[0]), T(p[4] * p[1]), T(p[4] * p[2]), T(p[4] * p[3])}; r.normalize(); translator<T> t{T(p[0]), T(p[4] * p[1]), T(p[4] * p[2]), T(p[4] * p[3])}; t.normalize(); o.put(0, 0, r.cos_theta); o.put(0, 1, r.sin_theta); o.put(0, 2, r.x); o.put(0, 3, r.y); o.put(0, 4, r.z); o.put(1, 0, t.d); o.put(1, 1, t.x); o.put(1, 2, t.y); o.put(1, 3, t.z);',
          rows(every(rt, 3), [(g,) for g in Gs]), lambda P: [cols(np.cos(P[:, 0] / 2), np.sin(P[:, 0] / 2), P[:, 1:4] * np.sign(P[:, 4:5])), cols(P[:, 0], P[:, 1:4] * np.sign(P[:, 4:5]))])
        ev = [m for m in grid((-1, 0.5), 8)] if x.quick else grid((-1, 0.5, 2), 8)
        A = ref.ALG['pga']
        EV = (0, 3, 5, 6, 9, 10, 12, 15)

        def normal(P):
            m = {e: P[:, i] for i, e in enumerate(EV)}
            n = A.gp(m, A.rev(m))
            u, v = n[0], n[15]
            q = A.gp(m, {0: 1 / np.sqrt(u), 15: -v / (2 * u * np.sqrt(u))})
            return [{i: q[e] for i, e in enumerate(EV)}, {0: 1 + 0 * u}]
        G('motors normalise to unit norm', 'motor<T> m{%s}; m.normalize(); %s vf::emit(o, 1, %s);' % (', '.join('T(p[%d])' % i for i in range(8)), put(0, 'm', 8), comp('pga', 'm * ~m', m='m')), rows(ev), normal)
        G('normalising a scaled motor restores it', RT2 + ' T g = T(p[8]); motor<T> m = %s; m.normalize(); motor<T> n = %s; for (int i = 0; i != 8; ++i) o.put(0, i, m[i] - n[i] * (g < 0 ? -1 : 1));' % (comp('pga', 'g * r * t', g='g', r='r', t='t'), comp('pga', 'r * t', r='r', t='t')),
          rows(every(rq, 2), every(tq, 2), [(2,), (-3,), (0.25,)]), lambda P: [{i: 0 * P[:, 0] for i in range(8)}])
        MG = [(m,) for m in ((1e-8, 1e-4, 1e4, 1e8) if T != 'float' else (1e-4, 1e-2, 1e2, 1e4))]
        G('rotors and translators normalise axes of every length', 'rotor<T> r{T(0.75), T(p[3] * p[0]), T(p[3] * p[1]), T(p[3] * p[2])}; r.normalize(); o.put(0, 0, r.x); o.put(0, 1, r.y); o.put(0, 2, r.z); translator<T> t{T(0.75), T(p[3] * p[0]), T(p[3] * p[1]), T(p[3] * p[2])}; t.normalize(); o.put(1, 0, t.x); o.put(1, 1, t.y); o.put(1, 2, t.z); o.put(1, 3, t.d);',
          rows([v for v in grid((-2, 0, 1), 3) if any(v)], MG), lambda P: [cols(P[:, :3] / np.linalg.norm(P[:, :3], axis=1)[:, None]), cols(P[:, :3] / np.linalg.norm(P[:, :3], axis=1)[:, None], np.full(len(P), 0.75))])
        G('motors of every norm normalise', 'motor<T> m{%s}; m.normalize(); %s vf::emit(o, 1, %s);' % (', '.join('T(p[8] * p[%d])' % i for i in range(8)), put(0, 'm', 8), comp('pga', 'm * ~m', m='m')), rows(every(ev, 7), MG), normal)
        FA = [(t,) + tuple(k) for t in FINE for k in every(AXES, 5)]
        G('rotors of tiny and nearly straight angles', R + vpt(4) + outp(0, sw('r')), rows(FA, PT[:2]), lambda P: [cols(rot(lambda P: V(P, 4))(P))])
        G('translators over tiny and large distances', TR + vpt(4) + outp(0, sw('t')), rows([(d,) + tuple(k) for d in (1e-9, 1e-4, 1e3, -1e5) for k in every(AXES, 5)], PT[:2]), lambda P: [cols(V(P, 4) + tv(P))])
        # ---- exponential and logarithm
        th = [t for t in angles(x.quick) if abs(np.sin(t / 2)) > 0.05]
        ex = [(t,) + tuple(k) for t in th for k in every(AXES, x.pick(5, 2))]
        base = [(0, 0, 0), (1, -2, 3)]
        slide = [(0,), (1.5,), (-2,)]
        # the motor turning by p0 about the axis p1..3 through p4..6 while sliding p7 along it
        mk = ('rotor<T> r{T(p[0]), T(p[1]), T(p[2]), T(p[3])}; T len = std::sqrt(T(p[4] * p[4] + p[5] * p[5] + p[6] * p[6])); T il = len > 0 ? 1 / len : 0; translator<T> t{len, T(p[4]) * il, T(p[5]) * il, T(p[6]) * il}; translator<T> s{T(p[7]), T(p[1]), T(p[2]), T(p[3])};'
              'motor<T> m = %s; m.normalize();' % comp('pga', 't * r * ~t * s', t='t', r='r', s='s'))
        z8 = lambda P: [{i: 0 * P[:, 0] for i in range(8)}]
        xtol = dict(tol=1e-8 if T != 'float' else 2e-3)
        pr.append(geo('pga', 'exponential of the logarithm is the motor', mk + 'auto l = m.log(); motor<T> e = %s; for (int i = 0; i != 8; ++i) o.put(0, i, e[i] - m[i]);' % comp('pga', 'exp(l)', l='l'), rows(ex, base, slide), z8, T=T, **xtol))
        pr.append(geo('pga', 'the screw motion moves points', mk + vpt(8) + outp(0, comp('pga', 'a % m', a='a', m='m')) + '{ auto l = m.log(); %s }' % outp(1, comp('pga', 'a % exp(l)', a='a', l='l')), rows(ex, base, slide, [(2, 1, -1)]),
                      lambda P: [cols(rotate(V(P, 8) + TS * P[:, 7:8] * P[:, 1:4] - TS * V(P, 4), P[:, 1:4], RS * P[:, 0]) + TS * V(P, 4))] * 2, T=T, **xtol))
        fine = [t for t in FINE if abs(np.sin(t / 2)) > (4e-4 if T != 'float' else 0.004)]
        fx = [(t,) + tuple(k) for t in fine for k in every(AXES, x.pick(7, 3))]
        pr.append(geo('pga', 'exponential of the logarithm near half and full turns', mk + 'auto l = m.log(); motor<T> e = %s; for (int i = 0; i != 8; ++i) o.put(0, i, e[i] - m[i]);' % comp('pga', 'exp(l)', l='l'), rows(fx, base, slide), z8, T=T, tol=1e-7 if T != 'float' else 2e-2))
        # exp against its power series, log back to the argument: bivector u L + v I L for unit lines L
        us = [0.2, 0.7, 1.5, np.pi / 2, 2.0, 3.0] if not x.quick else [0.2, 1.5, np.pi / 2, 3.0]
        bl = [(u, v) + tuple(k) + tuple(np.cross(q, k)) for u in us for v in (0, 0.5, -2) for k in every(AXES, x.pick(4, 1)) for q in ((0, 0, 0), (1, -2, 3), (0, 1, 1))]

        def bexp(P):
            L = K['pga.line'].mv([P[:, 2 + i] for i in range(6)])
            B = A.add(A.scale(P[:, 0], L), A.gp({15: P[:, 1]}, L))
            term, tot = {0: np.ones(len(P))}, {0: np.ones(len(P))}
            for n in range(1, 40):
                term = A.scale(1.0 / n, A.gp(term, B))
                tot = A.add(tot, term)
            return B, tot
        bo = (6, 3, 5, 9, 10, 12)
        mkb = 'T u = T(p[0]), v = T(p[1]); %s auto b = %s;' % (ln(2, 'L'), comp('pga', 'u * L + v * 1_ps * L', u='u', v='v', L='L'))
        pr.append(geo('pga', 'exponential equals its power series', mkb + 'motor<T> e = %s; %s' % (comp('pga', 'exp(b)', b='b'), put(0, 'e', 8)), rows(bl), lambda P: [{i: bexp(P)[1].get(e, 0 * P[:, 0]) for i, e in enumerate(EV)}], T=T, **xtol))
        pr.append(geo('pga', 'logarithm of the exponential is the bivector', mkb + 'motor<T> e = %s; auto l = e.log(); line<T> d = %s; %s' % (comp('pga', 'exp(b)', b='b'), comp('pga', 'l - b', l='l', b='b'), put(0, 'd', 6)), rows(bl), lambda P: [{i: 0 * P[:, 0] for i in range(6)}], T=T, **xtol))
        x.run('rigid motions, %s' % T, pr, chunk=1)
        if x.done():
            return


RS, TS = -1, 1   # the fixed senses of rotation and translation of this model


def outl_of(r):
    return '{ line<T> l{1, 2, -1, 0, 1, 2}; line<T> q = %s; %s }' % (comp('pga', 'l % m', l='l', m='m'), put(r, 'q', 6))


def line_of(P, r1, t2):
    d = r1(P, np.tile([1.0, 2, -1], (len(P), 1)))
    m = r1(P, np.tile([0.0, 1, 2], (len(P), 1)))
    return cols(d, m + np.cross(t2(P), d))



def c16(x):
    VE = [(1, 2, -3), (0, 0, 0), (-2, 0.5, 4), (0, 0, 1), (3, 0, 0)]
    R = 'rotor<T> r{T(p[0]), T(p[1]), T(p[2]), T(p[3])};'
    vec = lambda o, n='a': 'vector<T> %s{T(p[%d]), T(p[%d]), T(p[%d])};' % (n, o, o + 1, o + 2)
    outv = lambda r, e: '{ vector<T> q = %s; %s }' % (e, put(r, 'q', 3))
    C = lambda txt, **k: comp('vga', txt, **k)
    for T in ('double', 'float', 'long double'):
        rt = arot(x) if T == 'double' or not x.quick else arot(x, 3)
        tol = 1e-9 if T != 'float' else 1e-4
        pr = []
        G = lambda *a_, **k_: pr.append(geo('vga', *a_, T=T, tol=tol, **k_))
        r1 = lambda P, v: rotate(v, P[:, 1:4], P[:, 0])
        G('rotor turns vectors by its angle about its axis', R + vec(4) + outv(0, C('a % r', a='a', r='r')) + outv(1, C('r * a * ~r', a='a', r='r')) + 'auto n = %s; o.put(2, 0, n.template select<0>());' % C('(a % r) * (a % r)', a='a', r='r'), rows(rt, VE),
          lambda P: [cols(r1(P, V(P, 4)))] * 2 + [{0: dot(V(P, 4), V(P, 4))}])
        G('rotor turns points', R + 'point<T> a{T(p[4]), T(p[5]), T(p[6])};' + outv(0, C('a % r', a='a', r='r')), rows(rt, VE), lambda P: [cols(r1(P, V(P, 4)))])
        biv = '::gal::entity<vga_algebra, T, 3, 5, 6> a{T(p[6]), T(-p[5]), T(p[4])};'       # the plane dual to p4..6
        G('rotor turns planes and keeps scalars and volumes', R + biv + 'T s = T(p[4]); ::gal::entity<vga_algebra, T, 7> w{T(p[5])}; auto q = %s; o.put(0, 0, q.template select<6>()); o.put(0, 1, -q.template select<5>()); o.put(0, 2, q.template select<3>()); o.put(1, 0, (%s).template select<0>()); o.put(2, 0, (%s).template select<7>());' % (
            C('a % r', a='a', r='r'), C('s % r', s='s', r='r'), C('w % r', w='w', r='r')), rows(rt, VE), lambda P: [cols(r1(P, V(P, 4))), {0: P[:, 4]}, {0: P[:, 5]}])
        G('reversed rotor undoes the turn', R + vec(4) + outv(0, C('(a % r) % ~r', a='a', r='r')) + outv(1, C('~r * (r * a * ~r) * r', a='a', r='r')) + 'vf::emit(o, 2, %s);' % C('r * ~r', r='r'), rows(rt, VE[:3]), lambda P: [cols(V(P, 4))] * 2 + [{0: 1 + 0 * P[:, 0]}])
        R2 = R + 'rotor<T> s{T(p[4]), T(p[5]), T(p[6]), T(p[7])};'
        G('rotors compose', R2 + vec(8) + outv(0, C('a % (s * r)', a='a', r='r', s='s')) + outv(1, C('(a % r) % s', a='a', r='r', s='s')) + '{ auto m = %s; %s }' % (C('s * r', r='r', s='s'), outv(2, C('a % m', a='a', m='m'))),
          rows(every(rt, x.pick(7, 3)), every(rt, x.pick(11, 7)), VE[:1]), lambda P: [cols(rotate(r1(P, V(P, 8)), P[:, 5:8], P[:, 4]))] * 3)
        G('rotor holds its angle and axis', R + 'o.put(0, 0, r.cos_theta); o.put(0, 1, r.sin_theta); o.put(0, 2, r.x); o.put(0, 3, r.y); o.put(0, 4, r.z); for (int i = 0; i != 5; ++i) o.put(1, i, r[i]);', rows(rt),
          lambda P: [cols(np.cos(P[:, 0] / 2), np.sin(P[:, 0] / 2), P[:, 1:4])] * 2)
        G('rotor normalises its axis', 'rotor<T> r{T(p[0]), T(p[4] * p[1]), T(p[4] * p[2]), T(p[4] * p[3])}; r.normalize(); o.put(0, 0, r.cos_theta); o.put(0, 1, r.sin_theta); o.put(0, 2, r.x); o.put(0, 3, r.y); o.put(0, 4, r.z);', rows(every(rt, 2), [(2,), (-0.5,), (3,)]),
          lambda P: [cols(np.cos(P[:, 0] / 2), np.sin(P[:, 0] / 2), P[:, 1:4] * np.sign(P[:, 4:5]))])
        # ---- vectors
        g3 = rows(grid((-2, 0, 0.5, 1, 3), 3))
        G('vector keeps its coordinates', vec(0) + outv(0, C('a', a='a')) + 'o.put(1, 0, a.x); o.put(1, 1, a.y); o.put(1, 2, a.z); o.put(2, 0, a.u); o.put(2, 1, a.v); o.put(2, 2, a.w); vf::emit(o, 3, %s); point<T> c{T(p[0]), T(p[1]), T(p[2])}; o.put(4, 0, c.x); o.put(4, 1, c[1]); o.put(4, 2, c.z); %s a[1] += 1; o.put(6, 0, a.x); o.put(6, 1, a.y); o.put(6, 2, a.z);' % (C('a', a='a'), outv(5, C('c', c='c'))), g3,
          lambda P: [cols(P)] * 3 + [{1: P[:, 0], 2: P[:, 1], 4: P[:, 2]}] + [cols(P)] * 2 + [cols(P[:, 0], P[:, 1] + 1, P[:, 2])])
        G('vector from results with other components', vec(0) + outv(0, C('a + 3 + a * a', a='a')) + outv(1, C('2 * a - a / 2 + 1_e012', a='a')) + outv(2, C('a * a', a='a')) + outv(3, C('a - a', a='a')), g3,
          lambda P: [cols(P), cols(1.5 * P), {i: 0 * P[:, 0] for i in range(3)}, {i: 0 * P[:, 0] for i in range(3)}])
        G('vector normalises to the unit vector of its direction', vec(0) + 'a.normalize(); %s' % put(0, 'a', 3), g3[np.any(g3 != 0, axis=1)], lambda P: [cols(P / np.linalg.norm(P, axis=1)[:, None])])
        MG = [(m,) for m in ((1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12) if T != 'float' else (1e-6, 1e-3, 1e3, 1e6))]
        G('normalising vectors and rotors of every length', 'vector<T> a{T(p[3] * p[0]), T(p[3] * p[1]), T(p[3] * p[2])}; a.normalize(); %s rotor<T> r{T(0.75), T(p[3] * p[0]), T(p[3] * p[1]), T(p[3] * p[2])}; r.normalize(); o.put(1, 0, r.x); o.put(1, 1, r.y); o.put(1, 2, r.z); o.put(1, 3, r.cos_theta); o.put(1, 4, r.sin_theta);' % put(0, 'a', 3), rows([v for v in grid((-2, 0, 1), 3) if any(v)], MG),
          lambda P: [cols(P[:, :3] / np.linalg.norm(P[:, :3], axis=1)[:, None]), cols(P[:, :3] / np.linalg.norm(P[:, :3], axis=1)[:, None], np.full(len(P), np.cos(0.375)), np.full(len(P), np.sin(0.375)))])
        FA = [(t,) + tuple(k) for t in FINE for k in every(AXES, 5)]
        G('rotors of tiny and nearly straight angles', R + vec(4) + outv(0, C('a % r', a='a', r='r')) + 'o.put(1, 0, r.cos_theta); o.put(1, 1, r.sin_theta);', rows(FA, VE[:2]), lambda P: [cols(r1(P, V(P, 4))), cols(np.cos(P[:, 0] / 2), np.sin(P[:, 0] / 2))])
        g6 = rows(grid((-2, 0, 1), 3), grid((0, 1, -3), 3))
        G('products of vectors', vec(0) + vec(3, 'b') + 'o.put(0, 0, (%s).template select<0>()); o.put(1, 0, (%s).template select<0>()); auto c = %s; o.put(2, 0, c.template select<6>()); o.put(2, 1, -c.template select<5>()); o.put(2, 2, c.template select<3>()); %s' % (
            C('a | b', a='a', b='b'), C('a >> b', a='a', b='b'), C('a ^ b', a='a', b='b'), '{ auto d = %s; auto e = %s; for (unsigned k : {1u, 2u, 4u}) o.put(3, k, d.template select(k) - e.template select(k)); }' % (C('!(a ^ b)', a='a', b='b'), C('!(a * b - (a | b))', a='a', b='b')) if False else ''), g6,
          lambda P: [{0: dot(V(P, 0), V(P, 3))}] * 2 + [cols(np.cross(V(P, 0), V(P, 3)))])
        # reflection of a in the plane orthogonal to the unit vector b
        N = [(1, 0, 0), (0, 0, -1), (0.6, 0.8, 0), (0, -0.6, 0.8)]
        G('reflection in a plane', vec(0) + vec(3, 'b') + outv(0, C('-b * a * b', a='a', b='b')) + outv(1, C('-(a % b)', a='a', b='b')), rows(grid((-2, 0, 1), 3), N), lambda P: [cols(V(P, 0) - 2 * dot(V(P, 0), V(P, 3))[:, None] * V(P, 3))] * 2)
        # exponentials of nonzero bivectors: cos|B| + sin|B| B/|B|
        BV = 'using bv = ::gal::entity<vga_algebra, T, 3, 5, 6>;'
        def vexp(B, k=1):
            n = np.linalg.norm(B, axis=1)
            f = np.sin(k * n) / n
            return {0: np.cos(k * n), 3: f * B[:, 0], 5: f * B[:, 1], 6: f * B[:, 2]}
        gb = rows([v for v in grid((-2, -0.5, 0, 0.25, 1), 3) if any(v)])
        bg = BV + 'bv b{T(p[0]), T(p[1]), T(p[2])};'
        em = lambda r, e, **k: 'vf::emit(o, %d, %s);' % (r, C(e, **k))
        G('exponential of a bivector', bg + em(0, 'exp(b)', b='b') + em(1, 'exp(-b)', b='b') + em(2, 'exp(2 * b)', b='b') + em(3, 'exp(b / 2)', b='b') + em(4, '~exp(b)', b='b') + em(5, '3 * exp(b) - exp(b)', b='b'), gb,
          lambda P: [vexp(P), vexp(P, -1), vexp(P, 2), vexp(P, 0.5), vexp(P, -1), {k: 2 * v for k, v in vexp(P).items()}])
        G('exponentials of a bivector and its opposite cancel', bg + em(0, 'exp(b) * exp(-b)', b='b') + em(1, 'exp(b) * exp(b)', b='b'), gb, lambda P: [{0: 1 + 0 * P[:, 0]}, vexp(P, 2)])
        G('exponential of a plane turns vectors', BV + 'bv b{T(-p[0] / 2 * p[3]), T(p[0] / 2 * p[2]), T(-p[0] / 2 * p[1])};' + vec(4) + outv(0, C('a % exp(b)', a='a', b='b')) + outv(1, C('exp(b) * a * exp(-b)', a='a', b='b')), rows([r for r in rt if r[0]], VE[:3]), lambda P: [cols(r1(P, V(P, 4)))] * 2)
        G('exponential of the plane of two vectors', vec(0) + vec(3, 'b') + em(0, 'exp(a ^ b)', a='a', b='b'), (lambda q: q[np.any(np.abs(np.cross(q[:, :3], q[:, 3:])) > 0, axis=1)])(rows(grid((-2, 0, 1), 3), [(1, 0, 0), (0, 1, -2), (0.5, 1, 1)])),
          lambda P: [(lambda c: vexp(np.stack([c[:, 2], -c[:, 1], c[:, 0]], axis=1)))(np.cross(V(P, 0), V(P, 3)))])
        x.run('3D vector space, %s' % T, pr, chunk=1)
        if x.done():
            return


# ------------------------------------------------------------------------------------------------ C17
def c17(x):
    x.explore('null basis conversions', 'mv_rt.cpp', [8, x.pick(2, 3)], defs=('NULLB',), timeout=x.pick(500, 3000))
    SQ = {'cga': 3, 'cga2': 2}
    for alg, d in SQ.items():
        A = ref.ALG[alg]
        pts = grid((-2, 0, 1, 3), d)
        cg = grid((-1, 0, 2), d)
        for T in ('double', 'float', 'long double'):
            pr = []
            tol = 1e-9 if T != 'float' else 1e-4
            G = lambda *a_, **k_: pr.append(geo(alg, *a_, T=T, tol=tol, **k_))
            pt = lambda o, n: 'point<T> %s{%s};' % (n, ', '.join('T(p[%d])' % (o + i) for i in range(d)))
            C = lambda txt, **k: comp(alg, txt, **k)
            outp = lambda r, e: '{ point<T> q = %s; %s }' % (e, put(r, 'q', d))
            no, ni = 1 << d, 2 << d
            one = lambda P: 1 + 0 * P[:, 0]
            emb = lambda P, o=0: dict([(1 << i, P[:, o + i]) for i in range(d)] + [(no, one(P)), (ni, 0.5 * np.sum(P[:, o:o + d] ** 2, axis=1))])
            G('conformal point is origin + position + half its square at infinity', pt(0, 'a') + 'vf::emit(o, 0, %s);' % C('a', a='a') + outp(1, C('a', a='a')) + outp(2, C('a * 1', a='a') if False else C('a + 1_e1 - 1_e1', a='a')), rows(pts), lambda P: [emb(P), cols(P), cols(P)])
            G('conformal point has zero square', pt(0, 'a') + 'vf::emit(o, 0, %s); vf::emit(o, 1, %s); vf::emit(o, 2, %s); vf::emit(o, 3, %s);' % (C('a * a', a='a'), C('a | a', a='a'), C('a >> a', a='a'), C('scalar_product(a, a)', a='a')), rows(pts), lambda P: [{}] * 4)
            g = rows(pts, cg)
            dd = lambda P: -0.5 * np.sum((P[:, :d] - P[:, d:2 * d]) ** 2, axis=1)
            sel = lambda r, e: 'o.put(%d, 0, (%s).template select<0>());' % (r, e)
            G('inner product of points is minus half the squared distance', pt(0, 'a') + pt(d, 'b') + sel(0, C('a | b', a='a', b='b')) + sel(1, C('a >> b', a='a', b='b')) + sel(2, C('scalar_product(a, b)', a='a', b='b')) + sel(3, C('(a * b)[0]', a='a', b='b')) + sel(4, C('(a * b + b * a) / 2', a='a', b='b')) + sel(5, C('-(a - b) * (a - b) / 2', a='a', b='b')), g,
              lambda P: [{0: dd(P)}] * 6)
            G('distance as an expression', pt(0, 'a') + pt(d, 'b') + sel(0, C('sqrt(-2 * (a | b)[0])', a='a', b='b')) + sel(1, C('1 / (1 - 2 * (a | b)[0])', a='a', b='b')), g, lambda P: [{0: np.sqrt(-2 * dd(P))}, {0: 1 / (1 - 2 * dd(P))}])
            # literals at origin and infinity
            G('origin and infinity', pt(0, 'a') + ''.join(sel(i, C(e, a='a')) for i, e in enumerate(('(a | 1_ni)', '(1_no | a)', '(1_no | 1_ni)', '(1_ni | 1_no)', '(1_no * 1_ni)[0]', '(1_no | 1_no)', '(1_ni * 1_ni)', 'a | 1_e1', 'a[%d]' % no, 'a[%d]' % ni))), rows(pts),
              lambda P: [{0: -one(P)}, {0: -0.5 * np.sum(P ** 2, axis=1)}, {0: -one(P)}, {0: -one(P)}, {0: -one(P)}, {0: 0 * one(P)}, {0: 0 * one(P)}, {0: P[:, 0]}, {0: one(P)}, {0: 0.5 * np.sum(P ** 2, axis=1)}])
            # translations: T = 1 - t ni / 2
            tv = ' + '.join('t%d * 1_e%d' % (i, i + 1) for i in range(d))
            ts = ''.join('T t%d = T(p[%d]);' % (i, d + i) for i in range(d))
            kw = {'t%d' % i: 't%d' % i for i in range(d)}
            tr = '(1 - (%s) * 1_ni / 2)' % tv
            G('conformal translation moves points', pt(0, 'a') + ts + outp(0, C('%s * a * ~%s' % (tr, tr), a='a', **kw)) + outp(1, C('a %% %s' % tr, a='a', **kw)) + 'vf::emit(o, 2, %s);' % C('%s * a * ~%s' % (tr, tr), a='a', **kw), g,
              lambda P: [cols(P[:, :d] + P[:, d:])] * 2 + [emb(P[:, :d] + P[:, d:])])
            # distance to the plane n.x = h: p . (n + h ni)
            G('points on a hyperplane', pt(0, 'a') + ts + 'T h = 2;' + sel(0, C('a | (%s + h * 1_ni)' % tv, a='a', h='h', **kw)), g, lambda P: [{0: np.sum(P[:, :d] * P[:, d:], axis=1) - 2}])
            # sphere of squared radius 9 around b
            G('points relative to a sphere', pt(0, 'a') + pt(d, 'b') + sel(0, C('a | (b - 9 * 1_ni / 2)', a='a', b='b')), g, lambda P: [{0: dd(P) + 4.5}])
            # shared and extracted intermediates
            G('shared and extracted intermediates', pt(0, 'a') + pt(d, 'b') + 'vf::emit(o, 0, %s); vf::emit(o, 1, %s); vf::emit(o, 2, %s); vf::emit(o, 3, %s);' % (
                C('(a ^ b) * (a ^ b)', a='a', b='b'), C('(a ^ b) + (a ^ b) * (a ^ b)', a='a', b='b'), C('(a + b) * (a + b)', a='a', b='b'), C('((a ^ b) * 1_ni) * ((a ^ b) * 1_ni)', a='a', b='b')), g,
              lambda P: shared(A, emb(P), emb(P, d), ni))
            x.run('%s geometry, %s' % (alg, T), pr, chunk=1)
            if x.done():
                return
        # expression sweeps
        ops = gen.BIN
        k = PAIRS[alg]
        asts = gen.canonical_inputs(sized(2, [a, b], ops, gen.UN), 2)
        x.run('expressions over null vectors in ' + alg, plain(alg, k, every(asts, x.pick(2, 1))), npts=3)
        lits = [('lit', 1, 1), ('lit', 1 << d, 1), ('lit', 2 << d, 1)]
        pk = (alg + '.point', alg + '.flat')
        t1 = sized(1, [a, b] + lits, ['*', '^', '>>', '|', '+', '-'], ['~', '!'])
        t2 = [(op, u, v) for op in ('*', '+', '^', '-') for u in t1 for v in [a, b] + lits]
        x.run('points, literals and products in ' + alg, plain(alg, pk, every(t1, x.pick(1, 1)) + every(t2, x.pick(4, 1))), npts=3)
        sh = []
        for s in [('*', a, b), ('^', a, b), ('+', a, b), ('>>', a, b), ('*', a, lits[2]), ('^', lits[1], a), ('!', a), ('imul', 2, ('*', a, b))]:
            for t in [s, ('~', s), ('imul', 3, s), ('*', s, lits[1]), ('[]', s, 2 << d), ('grade', s, 1), ('grade', s, 2)]:
                for op in ('*', '+', '^', '-', '|'):
                    sh += [(op, s, t), (op, t, s)]
            sh += [('/', s, ('[]', ('*', s, s), 0)), ('*', ('sqrt', ('[]', ('*', a, a), 0)), s), ('/', s, ('[]', s, 2 << d)), ('*', s, ('sin', ('[]', s, 1 << d)))]
        for kk in (pk, (alg + '.v2', alg + '.mix')):
            x.run('shared and extracted intermediates in %s over %s' % (alg, kk[1]), [Prog(alg, kk, e) for e in every(sh, x.pick(3, 1))] + [Prog(alg, kk, [e, f]) for e, f in every(list(zip(sh, sh[7:])), x.pick(9, 2))], npts=3)
        if x.done():
            return


def shared(A, u, v, ni):
    U, W = A.to_natural(u), A.to_natural(v)
    e = A.ep(U, W)
    N = A.to_natural({ni: np.float64(1)})
    f = A.gp(e, N)
    out = [A.gp(e, e), A.add(e, A.gp(e, e)), A.gp(A.add(U, W), A.add(U, W)), A.gp(f, f)]
    return [A.to_null(o) for o in out]


# ------------------------------------------------------------------------------------------------ C18
def c18(x):
    pts = grid((-2, 0, 1, 3), 2)
    N = [n for n in grid((-1, 0, 1, 2), 2) if any(n)]
    L = [(d,) + n for d in (0, 1, -2) for n in N]
    C = lambda txt, **k: comp('pga2', txt, **k)
    pt = lambda o, n: 'point<T> %s{T(p[%d]), T(p[%d])};' % (n, o, o + 1)
    vec = lambda o, n: 'vector<T> %s{T(p[%d]), T(p[%d])};' % (n, o, o + 1)
    ln = lambda o, n: 'line<T> %s{T(p[%d]), T(p[%d]), T(p[%d])};' % (n, o, o + 1, o + 2)
    outp = lambda r, e: '{ point<T> q = %s; %s }' % (e, put(r, 'q', 2))
    outv = lambda r, e: '{ vector<T> q = %s; %s }' % (e, put(r, 'q', 2))
    outl = lambda r, e: '{ line<T> q = %s; %s }' % (e, put(r, 'q', 3))
    for T in ('double', 'float', 'long double'):
        pr = []
        G = lambda *a_, **k_: pr.append(geo('pga2', *a_, T=T, **k_))
        G('line keeps its coordinates', ln(0, 'a') + outl(0, C('a', a='a')) + 'o.put(1, 0, a.d); o.put(1, 1, a.x); o.put(1, 2, a.y); vf::emit(o, 2, %s);' % C('a', a='a'), rows(grid((-2, 0, 1, 3), 3)), lambda P: [cols(P), cols(P), {1: P[:, 0], 2: P[:, 1], 4: P[:, 2]}])
        G('point keeps its coordinates under any homogeneous scale', pt(0, 'a') + 'T w = T(p[2]);' + outp(0, C('a', a='a')) + outp(1, C('w * a', a='a', w='w')) + outp(2, C('a / w', a='a', w='w')) + outp(3, C('-3 * a / 2', a='a')) + 'o.put(4, 0, a.x); o.put(4, 1, a.y); o.put(5, 0, a.u); o.put(5, 1, a.v); o.put(6, 0, a.s); o.put(6, 1, a.t); vf::emit(o, 7, %s);' % C('a', a='a'),
          rows(pts, [(1,), (-1,), (2,), (-4,), (0.5,)]), lambda P: [cols(P[:, :2])] * 7 + [{3: P[:, 1], 5: -P[:, 0], 6: 1 + 0 * P[:, 0]}])
        G('direction keeps its coordinates', vec(0, 'a') + outv(0, C('a', a='a')) + outv(1, C('a + a', a='a')) + 'o.put(2, 0, a.x); o.put(2, 1, a.y); vf::emit(o, 3, %s);' % C('a', a='a'), rows(pts), lambda P: [cols(P), cols(2 * P), cols(P), {3: P[:, 1], 5: -P[:, 0]}])
        G('difference of points is a direction, point plus direction is a point', pt(0, 'a') + pt(2, 'b') + vec(2, 'v') + outv(0, C('a - b', a='a', b='b')) + outp(1, C('a + v', a='a', v='v')) + outp(2, C('a + b', a='a', b='b')), rows(pts, pts), lambda P: [cols(P[:, :2] - P[:, 2:]), cols(P[:, :2] + P[:, 2:]), cols((P[:, :2] + P[:, 2:]) / 2)])

        # the line d + nx x + ny y = 0 through a and b
        def join(P):
            u, v = P[:, :2], P[:, 2:4]
            n = np.stack([u[:, 1] - v[:, 1], v[:, 0] - u[:, 0]], axis=1)
            return cols(u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0], n)
        G('line through two points', pt(0, 'a') + pt(2, 'b') + outl(0, C('a & b', a='a', b='b')) + outl(1, C('-(b & a)', a='a', b='b')) + outl(2, C('(2 * a) & (b / 2)', a='a', b='b')) + 'vf::emit(o, 3, %s);' % C('a & a', a='a'), rows(pts, pts), lambda P: [scale(J2, join(P))] * 3 + [{}])
        G('line through a point along a direction', pt(0, 'a') + vec(2, 'b') + outl(0, C('a & b', a='a', b='b')), rows(pts, pts), lambda P: [scale(J2, cols(P[:, 0] * P[:, 3] - P[:, 1] * P[:, 2], -P[:, 3], P[:, 2]))])

        def meet(P):
            det = P[:, 1] * P[:, 5] - P[:, 2] * P[:, 4]
            xx = P[:, 2] * P[:, 3] - P[:, 0] * P[:, 5]
            yy = P[:, 0] * P[:, 4] - P[:, 1] * P[:, 3]
            with np.errstate(all='ignore'):
                return [{3: yy, 5: -xx, 6: det}, cols(xx / det, yy / det), cols(xx / det, yy / det), cols(xx / det, yy / det)]
        G('point common to two lines', ln(0, 'a') + ln(3, 'b') + 'vf::emit(o, 0, %s);' % C('a ^ b', a='a', b='b') + outp(1, C('a ^ b', a='a', b='b')) + outp(2, C('b ^ a', a='a', b='b')) + outp(3, C('(3 * a) ^ (b / 2)', a='a', b='b')), rows(L, L), meet)
        val = lambda P: P[:, 2] + P[:, 3] * P[:, 0] + P[:, 4] * P[:, 1]
        G('a point is on a line exactly when they join to nothing', pt(0, 'a') + ln(2, 'b') + 'o.put(0, 0, (%s).template select<0>()); o.put(1, 0, (%s).template select<7>());' % (C('a & b', a='a', b='b'), C('a ^ b', a='a', b='b')), rows(pts, L), lambda P: [{0: I2 * val(P)}, {0: I3 * val(P)}])
        G('three points are collinear exactly when their join vanishes', pt(0, 'a') + pt(2, 'b') + pt(4, 'c') + 'o.put(0, 0, (%s).template select<0>());' % C('a & b & c', a='a', b='b', c='c'), rows(pts, pts, grid((0, 1, -1), 2)),
          lambda P: [{0: T2 * ((P[:, 2] - P[:, 0]) * (P[:, 5] - P[:, 1]) - (P[:, 3] - P[:, 1]) * (P[:, 4] - P[:, 0]))}])
        # intersecting two joined lines
        G('line through two points meets another line on both', pt(0, 'a') + pt(2, 'b') + ln(4, 'c') + outp(0, C('(a & b) ^ c', a='a', b='b', c='c')), rows(pts, pts, every(L, 3)), lambda P: [cross2(P, join(P))])
        # rotation by p0 around the origin: cos + sin e12
        an = [(t,) for t in angles(x.quick)]
        G('rotor turns points', 'T h = T(p[0] / 2);' + pt(1, 'a') + outp(0, C('(cos(h) + sin(h) * 1_e12) * a * (cos(h) - sin(h) * 1_e12)', a='a', h='h')), rows(an, pts), lambda P: [rot2(P)], tol=1e-9 if T != 'float' else 1e-4)
        # exponentials of points with a finite weight: cos w + sin w/w B
        def pexp(P, k=1):
            w = P[:, 2]
            f = np.sin(k * w) / w
            return {0: np.cos(k * w), 3: f * P[:, 0], 5: f * P[:, 1], 6: f * w}
        em = lambda r, e, **k: 'vf::emit(o, %d, %s);' % (r, C(e, **k))
        bg = '::gal::entity<pga2_algebra, T, 3, 5, 6> b{T(p[0]), T(p[1]), T(p[2])};'
        gw = rows(grid((-2, 0, 0.5, 3), 2), [(1,), (-2,), (0.25,), (-0.75,), (3,)])
        te = 1e-9 if T != 'float' else 1e-4
        G('exponential of a bivector', bg + em(0, 'exp(b)', b='b') + em(1, 'exp(-b)', b='b') + em(2, 'exp(2 * b)', b='b') + em(3, 'exp(b / 2)', b='b') + em(4, '~exp(b)', b='b') + em(5, 'exp(b) * exp(-b)', b='b'), gw,
          lambda P: [pexp(P), pexp(P, -1), pexp(P, 2), pexp(P, 0.5), pexp(P, -1), {0: 1 + 0 * P[:, 0]}], tol=te)
        def about(P):    # turn by p0 about p1..2 with the sense of the rotor above
            q = rot2(np.stack([P[:, 0], P[:, 3] - P[:, 1], P[:, 4] - P[:, 2]], axis=1))
            return cols(q[0] + P[:, 1], q[1] + P[:, 2])
        G('exponential of a point turns points about it', 'T h = T(p[0] / 2);' + pt(1, 'c') + pt(3, 'a') + outp(0, C('a % exp(h * c)', a='a', c='c', h='h')) + outp(1, C('exp(h * c) * a * exp(-h * c)', a='a', c='c', h='h')), rows([t for t in an if t[0]], [(0, 0), (1, -2), (-0.5, 3)], every(pts, 3)), lambda P: [about(P)] * 2, tol=te if T != 'float' else 1e-3)
        x.run('2D projective geometry, %s' % T, pr, chunk=1)
        if x.done():
            return
    for kk in (('pga2.point', 'pga2.line'), ('pga2.mix', 'pga2.vector'), ('pga2.point', 'pga2.point')):
        asts = gen.canonical_inputs(sized(2, [a, b], gen.BIN + ['-'], gen.UN), 2)
        x.run('expressions over %s and %s' % kk, plain('pga2', kk, every(asts, x.pick(3, 1))), npts=3)
    ks = [k for k in K if k.startswith('pga2.') and '.e' not in k] + ['float']
    x.run('every pair of entity kinds', [p for k1 in ks for k2 in ks for p in plain('pga2', (k1, k2), [(op, a, b) for op in gen.BIN + ['-']])], npts=3)
    sc = []
    for s in [('*', a, b), ('^', a, b), ('+', a, b), ('&', a, b), ('!', a)]:
        z = ('[]', ('*', s, ('~', s)), 0)
        sc += [('*', s, s), ('+', s, ('imul', 2, s)), ('^', s, ('~', s)), ('/', s, z), ('/', s, ('sqrt', z)), ('*', ('sin', z), s), ('imul', 3, ('+', s, a)), ('grade', s, 1), ('[]', s, 5), ('[]', s, 6), ('[]', s, 3), ('idiv', ('isub', 1, s), 3)]
    x.run('constants, sharing, reads, division and functions', [Prog('pga2', k, e) for e in sc for k in (('pga2.point', 'pga2.line'), ('pga2.mix', 'pga2.vector'))] + [Prog('pga2', ('pga2.point', 'pga2.line'), [e, f]) for e, f in zip(sc, sc[5:])], npts=4)


J2, I2, I3, T2 = 1, 1, 1, 1   # orientation conventions of the model


def cross2(P, j):
    a, b, c = j[0], j[1], j[2]
    det = b * P[:, 6] - c * P[:, 5]
    xx = c * P[:, 4] - a * P[:, 6]
    yy = a * P[:, 5] - b * P[:, 4]
    with np.errstate(all='ignore'):
        return cols(xx / det, yy / det)


def rot2(P):
    c, s = np.cos(P[:, 0]), np.sin(P[:, 0])
    return cols(c * P[:, 1] + s * P[:, 2], -s * P[:, 1] + c * P[:, 2])
