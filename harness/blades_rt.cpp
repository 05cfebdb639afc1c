// Every metric signature up to DIM generators, every pair of basis blades, every blade product.
#include <gal/geometric_algebra.hpp>
#include <cstdio>
#include <utility>
#include <vector>

#ifndef DIM
#    define DIM 6
#endif

static unsigned long long states = 0, transitions = 0, bad = 0;
using namespace gal;

// Independent definition: write the factors side by side, bubble sort with a sign per swap, then
// replace equal neighbours by the square of the generator.
static std::pair<unsigned, int> words(unsigned a, unsigned b, int const* sq, int n)
{
    std::vector<int> w;
    for (int i = 0; i < n; ++i) if (a >> i & 1) w.push_back(i);
    for (int i = 0; i < n; ++i) if (b >> i & 1) w.push_back(i);
    int s = 1;
    for (bool go = true; go;)
    {
        go = false;
        for (size_t i = 0; i + 1 < w.size(); ++i)
        {
            if (w[i] > w[i + 1]) { std::swap(w[i], w[i + 1]); s = -s; go = true; }
        }
    }
    unsigned r = 0;
    for (size_t i = 0; i < w.size(); ++i)
    {
        if (i + 1 < w.size() && w[i] == w[i + 1]) { s *= sq[w[i]]; ++i; }
        else r |= 1u << w[i];
    }
    return {s ? r : 0u, s};
}
static int gr(unsigned x) { return __builtin_popcount(x); }

static void fail(char const* what, int p, int v, int r, unsigned a, unsigned b, unsigned e, int s, unsigned ge, int gs)
{
    if (bad++ < 10) std::printf("V %s in metric<%d,%d,%d>: blades %u and %u give (%u, %d), expected (%u, %d)\n", what, p, v, r, a, b, ge, gs, e, s);
}

template <size_t P, size_t V, size_t R>
void explore_metric()
{
    using A = algebra<metric<P, V, R>>;
    constexpr int n = P + V + R;
    int sq[n + 1];
    for (int i = 0; i < n; ++i) sq[i] = i < (int)R ? 0 : i < (int)(R + P) ? 1 : -1;
    ++states;
    for (unsigned a = 0; a < (1u << n); ++a)
        for (unsigned b = 0; b < (1u << n); ++b)
        {
            ++states;
            auto g = words(a, b, sq, n);
            auto chk = [&](char const* nm, auto got, unsigned e, int s) {
                ++transitions;
                if (!s) e = 0;
                bool ok = got.second == s && (s == 0 || (unsigned)got.first == e);
                if (!ok) fail(nm, P, V, R, a, b, e, s, got.first, got.second);
            };
            elem_t x = (elem_t)a, y = (elem_t)b;
            chk("geometric product", A::geometric::product(x, y), g.first, g.second);
            int one[n + 1];
            for (int i = 0; i < n; ++i) one[i] = 1;
            auto w = words(a, b, one, n);
            chk("exterior product", A::exterior::product(x, y), w.first, (a & b) ? 0 : w.second);
            chk("left contraction", A::contract::product(x, y), g.first, gr(g.first) == gr(b) - gr(a) ? g.second : 0);
            int d = gr(a) > gr(b) ? gr(a) - gr(b) : gr(b) - gr(a);
            chk("symmetric inner product", A::symmetric_inner::product(x, y), g.first, a && b && gr(g.first) == d ? g.second : 0);
        }
    // Poincare complement
    int one[n + 1];
    for (int i = 0; i < n; ++i) one[i] = 1;
    for (unsigned a = 0; a < (1u << n); ++a)
    {
        ++transitions;
        auto c = detail::poincare_complement((elem_t)a, n);
        unsigned full = (1u << n) - 1;
        auto w = words(a, full ^ a, one, n);
        if (c.first != (full ^ a) || c.second != w.second) fail("Poincare complement", P, V, R, a, 0, full ^ a, w.second, c.first, c.second);
    }
    // pseudoscalar and its inverse
    {
        transitions += 2;
        unsigned full = (1u << n) - 1;
        auto const& i = A::pseudoscalar;
        auto const& j = A::pseudoscalar_inv;
        bool ok = i.size.term == 1 && i.size.mon == 1 && i.size.ind == 0 && (unsigned)i.terms[0].element == full && i.mons[0].q.num == 1 && i.mons[0].q.den == 1;
        if (!ok) fail("pseudoscalar", P, V, R, full, 0, full, 1, i.terms[0].element, i.mons[0].q.num);
        if (R == 0)
        {
            auto sq2 = words(full, full, sq, n);
            int q = j.mons[0].q.num; // must equal the sign of I*I so that I * inv = 1
            if (!(j.size.term == 1 && (unsigned)j.terms[0].element == full && j.mons[0].q.den == 1 && q * sq2.second == 1))
                fail("inverse pseudoscalar", P, V, R, full, full, 0, sq2.second, j.terms[0].element, q);
        }
    }
    // generic even element and bivector
    if constexpr (n >= 2)
    {
        auto span = [&](char const* nm, auto const& m, auto want) {
            std::vector<unsigned> e;
            for (unsigned a = 0; a < (1u << n); ++a) if (want(a)) e.push_back(a);
            ++transitions;
            bool ok = m.size.term == e.size() && m.size.mon == e.size() && m.size.ind == e.size();
            for (size_t k = 0; ok && k < e.size(); ++k)
            {
                auto const& t = m.terms[k];
                auto const& q = m.mons[t.mon_offset];
                ok = (unsigned)t.element == e[k] && t.count == 1 && q.count == 1 && q.q.num == 1 && q.q.den == 1 && m.inds[q.ind_offset].id == 5 + k && m.inds[q.ind_offset].degree.num == 1 && m.inds[q.ind_offset].degree.den == 1;
            }
            if (!ok) fail(nm, P, V, R, 0, 0, (unsigned)e.size(), 0, (unsigned)m.size.term, 0);
        };
        span("generic even element", A::even_mv(5), [](unsigned a) { return gr(a) % 2 == 0; });
        span("generic bivector", A::bivector_mv(5), [](unsigned a) { return gr(a) == 2; });
    }
}

template <size_t N, size_t I>
void pick()
{
    constexpr size_t p = I / (N + 1), v = I % (N + 1);
    if constexpr (p + v <= N) explore_metric<p, v, N - p - v>();
}
template <size_t N, size_t... I>
void all(std::index_sequence<I...>) { (pick<N, I>(), ...); }
template <size_t... N>
void dims(std::index_sequence<N...>) { (all<N + 1>(std::make_index_sequence<(N + 2) * (N + 2)>{}), ...); }

int main()
{
    dims(std::make_index_sequence<DIM>{});
    std::printf("STATS states %llu transitions %llu violations %llu\n", states, transitions, bad);
    std::printf("SAMPLE metric<2,1,1>: blades 0b0110 * 0b1011\n");
}
