"""Reference model: Clifford algebra over a diagonal metric, written to be boring.

A multivector is a dict {blade bitmask: coefficient}; a coefficient is anything with +,-,*
(Fraction, int, float or a numpy array holding one value per input point).  Every product is
derived from the textbook definition (sort the concatenated generator list by adjacent swaps,
contract equal neighbours with the metric), not from the bit tricks the library uses.
"""
from __future__ import annotations
from fractions import Fraction
from functools import lru_cache


class Algebra:
    def __init__(self, name, squares, null_pair=False):
        self.name = name
        self.sq = tuple(squares)          # square of each generator, in bit order
        self.dim = len(self.sq)
        self.full = (1 << self.dim) - 1
        # null_pair: the last two bits of *user facing* blades are (no, ni) instead of (e+, e-)
        self.null_pair = null_pair
        self._gp = {}

    # ---------------------------------------------------------------- blades
    def blade_gp(self, a, b):
        """(sign, blade) of the geometric product of two basis blades."""
        key = (a, b)
        r = self._gp.get(key)
        if r is None:
            seq = [i for i in range(self.dim) if a >> i & 1] + [i for i in range(self.dim) if b >> i & 1]
            sign = 1
            # bubble sort, counting transpositions of distinct generators
            changed = True
            while changed:
                changed = False
                i = 0
                while i + 1 < len(seq):
                    if seq[i] > seq[i + 1]:
                        seq[i], seq[i + 1] = seq[i + 1], seq[i]
                        sign = -sign
                        changed = True
                    elif seq[i] == seq[i + 1]:
                        sign *= self.sq[seq[i]]
                        del seq[i:i + 2]
                        changed = True
                        continue
                    i += 1
            m = 0
            for g in seq:
                m |= 1 << g
            r = (sign, m if sign else 0)
            self._gp[key] = r
        return r

    @staticmethod
    def grade(a):
        return bin(a).count('1')

    def blade_ep(self, a, b):
        s, m = self.blade_gp(a, b) if not (a & b) else (0, 0)
        return (s, m)

    def blade_lc(self, a, b):
        # left contraction: grade (s - r) part of the geometric product
        s, m = self.blade_gp(a, b)
        if s and self.grade(m) == self.grade(b) - self.grade(a):
            return (s, m)
        return (0, 0)

    def blade_sip(self, a, b):
        # symmetric (Hestenes) inner product: grade |r - s| part, zero when an operand is a scalar
        if a == 0 or b == 0:
            return (0, 0)
        s, m = self.blade_gp(a, b)
        if s and self.grade(m) == abs(self.grade(b) - self.grade(a)):
            return (s, m)
        return (0, 0)

    # ---------------------------------------------------------- multivectors
    def bilinear(self, f, x, y):
        out = {}
        for a, ca in x.items():
            for b, cb in y.items():
                s, m = f(a, b)
                if s:
                    v = ca * cb
                    if s < 0:
                        v = -v
                    out[m] = out[m] + v if m in out else v
        return out

    def gp(self, x, y):
        return self.bilinear(self.blade_gp, x, y)

    def ep(self, x, y):
        return self.bilinear(self.blade_ep, x, y)

    def lc(self, x, y):
        return self.bilinear(self.blade_lc, x, y)

    def sip(self, x, y):
        return self.bilinear(self.blade_sip, x, y)

    def add(self, x, y):
        out = dict(x)
        for b, c in y.items():
            out[b] = out[b] + c if b in out else c
        return out

    def scale(self, k, x):
        return {b: k * c for b, c in x.items()}

    def neg(self, x):
        return {b: -c for b, c in x.items()}

    def rev(self, x):
        return {b: (-c if (self.grade(b) * (self.grade(b) - 1) // 2) % 2 else c) for b, c in x.items()}

    def dual(self, x):
        # Poincare dual: the blade d with  e ^ d = +-I; sign such that dual(e) ^ e ... see below.
        # The library's documented convention is checked in P01 against this definition:
        #   e ^ complement(e) = I  up to the sign returned, i.e. dual(e) = s * comp, e ^ dual(e) = I
        out = {}
        for b, c in x.items():
            comp = self.full ^ b
            s, m = self.blade_ep(b, comp)
            assert m == self.full
            out[comp] = -c if s < 0 else c
        return out

    def regressive(self, x, y):
        return self.dual(self.ep(self.dual(x), self.dual(y)))

    def sandwich(self, x, by):
        return self.gp(self.gp(by, x), self.rev(by))

    def comp(self, x, e):
        return {0: x[e]} if e in x else {}

    def select(self, x, g):
        return {b: c for b, c in x.items() if self.grade(b) == g}

    # -------------------------------------------------- null basis (conformal)
    # user basis: (..., no, ni);  natural basis: (..., e+, e-),  no = (e+ + e-)/2, ni = e- - e+
    def to_natural(self, x):
        if not self.null_pair:
            return x
        ep, en = 1 << (self.dim - 2), 1 << (self.dim - 1)
        out = {}

        def put(b, c):
            out[b] = out[b] + c if b in out else c
        for b, c in x.items():
            hp, hn = b & ep, b & en
            base = b & ~(ep | en)
            if hp and hn:        # no ^ ni = e+ ^ e-
                put(b, c)
            elif hp:
                put(base | ep, c * 0.5 if not isinstance(c, Fraction) else c / 2)
                put(base | en, c * 0.5 if not isinstance(c, Fraction) else c / 2)
            elif hn:
                put(base | ep, -c)
                put(base | en, c)
            else:
                put(b, c)
        return out

    def to_null(self, x):
        if not self.null_pair:
            return x
        ep, en = 1 << (self.dim - 2), 1 << (self.dim - 1)
        out = {}

        def put(b, c):
            out[b] = out[b] + c if b in out else c
        for b, c in x.items():
            hp, hn = b & ep, b & en
            base = b & ~(ep | en)
            half = (c / 2) if isinstance(c, Fraction) else c * 0.5
            if hp and hn:
                put(b, c)
            elif hp:             # e+ = no - ni/2
                put(base | ep, c)
                put(base | en, -half)
            elif hn:             # e- = no + ni/2
                put(base | ep, c)
                put(base | en, half)
            else:
                put(b, c)
        return out


VGA = Algebra('vga', (1, 1, 1))
PGA = Algebra('pga', (0, 1, 1, 1))
PGA2 = Algebra('pga2', (0, 1, 1))
CGA = Algebra('cga', (1, 1, 1, 1, -1), null_pair=True)
CGA2 = Algebra('cga2', (1, 1, 1, -1), null_pair=True)
ALG = {a.name: a for a in (VGA, PGA, PGA2, CGA, CGA2)}


def metric_algebra(p, v, r):
    """generators ordered: null, positive, negative"""
    return Algebra('m%d%d%d' % (p, v, r), [0] * r + [1] * p + [-1] * v)


for _p, _v, _r in ((1, 1, 1), (0, 3, 0), (2, 2, 0), (2, 0, 2), (0, 2, 1), (5, 0, 0), (3, 3, 0), (2, 2, 2), (4, 2, 1), (3, 3, 2), (0, 8, 0)):
    ALG['m%d%d%d' % (_p, _v, _r)] = metric_algebra(_p, _v, _r)
