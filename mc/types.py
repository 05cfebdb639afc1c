"""Input kinds a program may use: how to build them in C++, what multivector they denote."""
import numpy as np
from . import ref

VG = '::gal::vga::vga_algebra'
PG = '::gal::pga::pga_algebra'
P2 = '::gal::pga2::pga2_algebra'
CG = '::gal::cga::cga_algebra'
C2 = '::gal::cga2::cga2_algebra'


class Kind:
    def __init__(self, key, ctype, n, mv, ctor=None):
        self.key, self.ctype, self.n, self.mv, self.ctor = key, ctype, n, mv, ctor

    def decl(self, name, off):
        args = ', '.join('T(p[%d])' % (off + i) for i in range(self.n))
        if self.ctor:
            return '%s %s = %s;' % (self.ctype, name, self.ctor(['T(p[%d])' % (off + i) for i in range(self.n)]))
        return '%s %s{%s};' % (self.ctype, name, args)


def ent(alg, els):
    return '::gal::entity<%s, T%s>' % (alg, ''.join(', %d' % e for e in els))


def blades(els):
    return lambda x: {e: x[i] for i, e in enumerate(els)}


K = {}


def add(key, *a, **kw):
    K[key] = Kind(key, *a, **kw)


# raw floating point value, and scalar entities
add('float', 'T', 1, lambda x: {0: x[0]})
for n, A in (('vga', VG), ('pga', PG), ('pga2', P2), ('cga', CG), ('cga2', C2)):
    add(n + '.scalar', '::gal::scalar<%s, T>' % A, 1, lambda x: {0: x[0]})
    add(n + '.zero', '::gal::entity<%s, T>' % A, 0, lambda x: {})

# --- 3D vector space
add('vga.vector', '::gal::vga::vector<T>', 3, blades([1, 2, 4]))
add('vga.point', '::gal::vga::point<T>', 3, blades([1, 2, 4]))
add('vga.rotor', '::gal::vga::rotor<T>', 4,
    lambda x: {0: np.cos(x[0] / 2), 3: -np.sin(x[0] / 2) * x[3], 5: np.sin(x[0] / 2) * x[2], 6: -np.sin(x[0] / 2) * x[1]})
add('vga.mix', ent(VG, [0, 2, 5]), 3, blades([0, 2, 5]))          # scalar + vector + bivector
add('vga.biv', ent(VG, [3, 5, 6]), 3, blades([3, 5, 6]))
add('vga.full', ent(VG, range(8)), 8, blades(list(range(8))))
add('vga.ps', ent(VG, [7]), 1, blades([7]))
add('vga.v1', ent(VG, [1]), 1, blades([1]))
add('vga.v2', ent(VG, [1, 2]), 2, blades([1, 2]))
add('vga.b2', ent(VG, [3, 6]), 2, blades([3, 6]))
add('vga.odd', ent(VG, [2, 7]), 2, blades([2, 7]))
add('vga.s12', ent(VG, [0, 6]), 2, blades([0, 6]))

# --- 3D projective
add('pga.plane', '::gal::pga::plane<T>', 4, blades([1, 2, 4, 8]))
add('pga.point', '::gal::pga::point<T>', 4, blades([7, 11, 13, 14]))
add('pga.vpoint', '::gal::vga::point<T>', 3, lambda x: {7: -x[2], 11: x[1], 13: -x[0], 14: 1 + 0 * x[0]})
add('pga.vector', '::gal::pga::vector<T>', 3, lambda x: {7: -x[2], 11: x[1], 13: -x[0]})
# Pluecker: dx dy dz mx my mz
add('pga.line', '::gal::pga::line<T>', 6,
    lambda x: {3: -x[3], 5: -x[4], 9: -x[5], 12: -x[0], 10: x[1], 6: -x[2]})
add('pga.motor', '::gal::pga::motor<T>', 8, blades([0, 3, 5, 6, 9, 10, 12, 15]))
add('pga.rotor', '::gal::pga::rotor<T>', 4,
    lambda x: {0: np.cos(x[0] / 2), 6: np.sin(x[0] / 2) * x[3], 10: -np.sin(x[0] / 2) * x[2], 12: np.sin(x[0] / 2) * x[1]})
add('pga.translator', '::gal::pga::translator<T>', 4,
    lambda x: {0: 1 + 0 * x[0], 3: -0.5 * x[0] * x[1], 5: -0.5 * x[0] * x[2], 9: -0.5 * x[0] * x[3]})
add('pga.mix', ent(PG, [0, 2, 5, 15]), 4, blades([0, 2, 5, 15]))
add('pga.full', ent(PG, range(16)), 16, blades(list(range(16))))
add('pga.b2', ent(PG, [3, 12]), 2, blades([3, 12]))
add('pga.v2', ent(PG, [1, 4]), 2, blades([1, 4]))

# --- 2D projective
add('pga2.line', '::gal::pga2::line<T>', 3, blades([1, 2, 4]))
add('pga2.point', '::gal::pga2::point<T>', 2, lambda x: {3: x[1], 5: -x[0], 6: 1 + 0 * x[0]})
add('pga2.vector', '::gal::pga2::vector<T>', 2, lambda x: {3: x[1], 5: -x[0]})
add('pga2.mix', ent(P2, [0, 2, 5]), 3, blades([0, 2, 5]))
add('pga2.full', ent(P2, range(8)), 8, blades(list(range(8))))

# --- 3D conformal; blades over (e1,e2,e3,no,ni)
add('cga.point', '::gal::cga::point<T>', 3,
    lambda x: {1: x[0], 2: x[1], 4: x[2], 8: 1 + 0 * x[0], 16: 0.5 * (x[0] * x[0] + x[1] * x[1] + x[2] * x[2])})
add('cga.v2', ent(CG, [1, 8]), 2, blades([1, 8]))
add('cga.flat', ent(CG, [2, 16]), 2, blades([2, 16]))
add('cga.mix', ent(CG, [0, 8, 17, 24]), 4, blades([0, 8, 17, 24]))
add('cga.full', ent(CG, range(32)), 32, blades(list(range(32))))

# --- 2D conformal; blades over (e1,e2,no,ni)
add('cga2.point', '::gal::cga2::point<T>', 2,
    lambda x: {1: x[0], 2: x[1], 4: 1 + 0 * x[0], 8: 0.5 * (x[0] * x[0] + x[1] * x[1])})
add('cga2.v2', ent(C2, [1, 4]), 2, blades([1, 4]))
add('cga2.flat', ent(C2, [2, 8]), 2, blades([2, 8]))
add('cga2.mix', ent(C2, [0, 4, 9, 12]), 4, blades([0, 4, 9, 12]))
add('cga2.full', ent(C2, range(16)), 16, blades(list(range(16))))

# --- other signatures (evaluated through the generic entry point)
for _n, _d in (('m111', 3), ('m030', 3), ('m220', 4), ('m202', 4), ('m021', 3), ('m500', 5)):
    _A = '::gal::%s::alg' % _n
    add(_n + '.scalar', '::gal::scalar<%s, T>' % _A, 1, lambda x: {0: x[0]})
    add(_n + '.full', ent(_A, range(1 << _d)), 1 << _d, blades(list(range(1 << _d))))
    add(_n + '.vec', ent(_A, [1 << i for i in range(_d)]), _d, blades([1 << i for i in range(_d)]))
    add(_n + '.mix', ent(_A, [0, 2, 5]), 3, blades([0, 2, 5]))

for _n, _d in (('m330', 6), ('m222', 6), ('m421', 7), ('m332', 8), ('m080', 8)):
    _A = '::gal::%s::alg' % _n
    add(_n + '.vec', ent(_A, [1 << i for i in range(_d)]), _d, blades([1 << i for i in range(_d)]))
    _e = [0, 3, 1 << _d - 1, (1 << _d) - 1 - 4, (1 << _d) - 1]
    add(_n + '.mix', ent(_A, _e), 5, blades(_e))
    _g = sorted(((1 << g) - 1) << min(1, _d - g) for g in range(_d + 1))   # one blade of every grade
    add(_n + '.grades', ent(_A, _g), len(_g), blades(_g))


def one_blade(alg, e):
    """kind of a single basis blade"""
    key = '%s.e%d' % (alg, e)
    if key not in K:
        A = {'vga': VG, 'pga': PG, 'pga2': P2, 'cga': CG, 'cga2': C2}.get(alg, '::gal::%s::alg' % alg)
        add(key, ent(A, [e]), 1, blades([e]))
    return key
