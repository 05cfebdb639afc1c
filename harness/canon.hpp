#pragma once
// Canonical form of a symbolic multivector, as a predicate over the real data structure.
#include <gal/algebra.hpp>

using namespace gal;
using ll = long long;

struct Q
{
    ll n, d;
    static ll g(ll a, ll b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { ll t = a % b; a = b; b = t; } return a; }
    static Q mk(ll n, ll d) { if (d < 0) { n = -n; d = -d; } ll k = g(n, d); if (k) { n /= k; d /= k; } return {n, d}; }
    bool operator==(Q const& o) const { return n == o.n && d == o.d; }
    bool operator<(Q const& o) const { return n * o.d < o.n * d; }
};
static Q operator*(Q a, Q b) { return Q::mk(a.n * b.n, a.d * b.d); }
static Q operator+(Q a, Q b) { return Q::mk(a.n * b.d + b.n * a.d, a.d * b.d); }

template <typename T>
static char const* canonical(T const& m)
{
    if (m.size.term > m.terms.size() || m.size.mon > m.mons.size() || m.size.ind > m.inds.size()) return "size exceeds capacity";
    width_t mon = 0;
    for (width_t i = 0; i < m.size.term; ++i)
    {
        auto const& t = m.terms[i];
        if (i && !(m.terms[i - 1].element < t.element)) return "blades not strictly ascending";
        if (t.count == 0) return "empty blade";
        if (t.mon_offset + t.count > m.size.mon) return "monomial offset out of range";
        mon += t.count;
        for (width_t j = 0; j < t.count; ++j)
        {
            auto const& x = m.mons[t.mon_offset + j];
            if (x.q.num == 0) return "zero coefficient";
            if (x.q.den <= 0 || Q::g(x.q.num, x.q.den) != 1) return "coefficient not reduced";
            if (x.ind_offset + x.count > m.size.ind && x.count) return "variable offset out of range";
            Q deg{0, 1};
            for (width_t k = 0; k < x.count; ++k)
            {
                auto const& v = m.inds[x.ind_offset + k];
                if (v.degree.num == 0) return "variable with exponent zero";
                if (k && !(m.inds[x.ind_offset + k - 1].id < v.id)) return "variables not strictly ascending";
                deg = deg + Q::mk(v.degree.num, v.degree.den);
            }
            if (!(deg == Q::mk(x.degree.num, x.degree.den))) return "recorded degree differs from the sum of exponents";
            if (j)
            {
                auto const& w = m.mons[t.mon_offset + j - 1];
                auto* base = const_cast<ind*>(m.inds.data());
                if (!(mon_view{w, base + w.ind_offset} < mon_view{x, base + x.ind_offset})) return "monomials not strictly ascending";
            }
        }
    }
    if (mon != m.size.mon) return "monomial count differs from the sum over blades";
    return nullptr;
}
