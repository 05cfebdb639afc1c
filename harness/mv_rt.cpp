// Explicit-state exploration of symbolic multivector arithmetic.
// State: a multivector with polynomial coefficients in the library's representation.
// Transition: one real library operation. Check: exact polynomial model + canonical form.
#include <gal/engine.hpp>
#include <gal/entity.hpp>
#include <gal/geometric_algebra.hpp>
#include <gal/null_algebra.hpp>
#include "canon.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using Mono = std::vector<std::pair<ll, Q>>; // (variable, exponent), ascending, exponent nonzero
using Poly = std::map<Mono, Q>;
using Model = std::map<unsigned, Poly>;

static Mono mm(Mono const& a, Mono const& b)
{
    std::map<ll, Q> m;
    for (auto& x : a) m[x.first] = x.second;
    for (auto& x : b) { auto it = m.find(x.first); if (it == m.end()) m[x.first] = x.second; else it->second = it->second + x.second; }
    Mono r;
    for (auto& x : m) if (x.second.n) r.push_back(x);
    return r;
}
static void put(Model& m, unsigned e, Mono const& k, Q q)
{
    if (!q.n) return;
    auto& p = m[e];
    auto it = p.find(k);
    if (it == p.end()) p[k] = q;
    else { it->second = it->second + q; if (!it->second.n) p.erase(it); }
    if (p.empty()) m.erase(e);
}
static Model addM(Model const& a, Model const& b)
{
    Model r = a;
    for (auto& t : b) for (auto& x : t.second) put(r, t.first, x.first, x.second);
    return r;
}
static Model scaleM(Q q, Model const& a)
{
    Model r;
    for (auto& t : a) for (auto& x : t.second) put(r, t.first, x.first, x.second * q);
    return r;
}
template <int DIM>
struct Cl
{
    int sq[DIM];
    int sgn(unsigned a, unsigned b) const
    {
        int s = 1;
        for (unsigned x = a >> 1; x; x >>= 1) if (__builtin_popcount(x & b) & 1) s = -s;
        for (int i = 0; i < DIM; ++i) if ((a & b) >> i & 1) s *= sq[i];
        return s;
    }
    template <typename F>
    Model prod(Model const& a, Model const& b, F keep, bool ext) const
    {
        Model r;
        for (auto& t : a) for (auto& u : b)
        {
            if (!keep(__builtin_popcount(t.first), __builtin_popcount(u.first), __builtin_popcount(t.first ^ u.first))) continue;
            if (ext && (t.first & u.first)) continue;
            int s = sgn(t.first, u.first);
            if (!s) continue;
            for (auto& x : t.second) for (auto& y : u.second) put(r, t.first ^ u.first, mm(x.first, y.first), x.second * y.second * Q{s, 1});
        }
        return r;
    }
};

template <typename T>
static Model read(T const& m, bool& dup)
{
    Model r;
    for (width_t i = 0; i < m.size.term; ++i)
    {
        auto const& t = m.terms[i];
        for (width_t j = 0; j < t.count; ++j)
        {
            auto const& x = m.mons[t.mon_offset + j];
            Mono k;
            for (width_t a = 0; a < x.count; ++a) { auto const& v = m.inds[x.ind_offset + a]; k.push_back({(ll)v.id, Q::mk(v.degree.num, v.degree.den)}); }
            if (r.count(t.element) && r[t.element].count(k)) dup = true;
            put(r, t.element, k, Q::mk(x.q.num, x.q.den));
        }
    }
    return r;
}
static std::string str(Model const& m)
{
    if (m.empty()) return "0";
    std::string s;
    for (auto& t : m)
    {
        s += " [e" + std::to_string(t.first) + ":";
        for (auto& x : t.second)
        {
            s += " " + std::to_string(x.second.n) + "/" + std::to_string(x.second.d);
            for (auto& v : x.first) s += "*x" + std::to_string(v.first) + "^" + std::to_string(v.second.n) + "/" + std::to_string(v.second.d);
        }
        s += "]";
    }
    return s;
}

static unsigned long long states, transitions, skipped, bad, dups;
static int wid, jobs, depth2;
static char const* current = "";

template <int DIM, typename A, width_t CI = 40, width_t CM = 20, width_t CT = 8>
struct World
{
    using M = mv<A, CI, CM, CT>;
    struct S { M m; Model v; std::string how; };
    std::vector<S> st;
    Cl<DIM> cl;
    char const* name;

    template <typename T>
    static bool fit(T const& in, M& out)
    {
        if (in.size.ind > CI || in.size.mon > CM || in.size.term > CT) return false;
        out = M{};
        out.size = in.size;
        for (width_t i = 0; i < in.size.ind; ++i) out.inds[i] = in.inds[i];
        for (width_t i = 0; i < in.size.mon; ++i) out.mons[i] = in.mons[i];
        for (width_t i = 0; i < in.size.term; ++i) out.terms[i] = in.terms[i];
        return true;
    }
    void fail(std::string const& how, std::string const& why) { if (bad++ < 6) { std::printf("V %s: %s: %s\n", name, how.c_str(), why.c_str()); std::fflush(stdout); } }

    // check one transition; returns true if it may be expanded further
    template <typename T>
    bool check(T const& got, Model const& want, std::string const& how, M* out)
    {
        ++transitions;
        char const* c = canonical(got);
        if (c) { fail(how, c); return false; }
        bool dup = false;
        Model g = read(got, dup);
        if (dup) { fail(how, "a monomial is listed twice"); return false; }
        if (!(g == want)) { fail(how, "gives" + str(g) + ", expected" + str(want)); return false; }
        if (!out) return true;
        if (!fit(got, *out)) { ++skipped; return false; }
        return true;
    }

    template <typename F>
    void unary(S const& a, F emit)
    {
        auto go = [&](auto const& got, Model const& want, std::string const& nm) {
            S s;
            s.how = "(" + nm + " " + a.how + ")";
            if (check(got, want, s.how, &s.m)) { s.v = want; emit(s); }
        };
        go(detail::negate(a.m), scaleM({-1, 1}, a.v), "negate");
        go(detail::scale(rat{-3, 2}, a.m), scaleM({-3, 2}, a.v), "scale -3/2");
        go(detail::scale(rat{5, 1}, a.m), scaleM({5, 1}, a.v), "scale 5");
        for (Q q : {Q{1, 1}, Q{-2, 3}}) { Model k; put(k, 0, {}, q); go(detail::shift(rat{(num_t)q.n, (den_t)q.d}, a.m), addM(a.v, k), "shift " + std::to_string(q.n) + "/" + std::to_string(q.d)); }
        {
            Model r = a.v;
            for (auto& t : r) if (__builtin_popcount(t.first) & 2) for (auto& x : t.second) x.second.n = -x.second.n;
            go(detail::reverse(a.m), r, "reverse");
        }
        {
            Model r;
            for (auto& t : a.v)
            {
                unsigned c = ((1u << DIM) - 1) ^ t.first;
                int s = 1;
                for (unsigned x = t.first >> 1; x; x >>= 1) if (__builtin_popcount(x & c) & 1) s = -s;
                for (auto& x : t.second) put(r, c, x.first, x.second * Q{s, 1});
            }
            go(detail::poincare_dual(a.m), r, "dual");
        }
        for (int g = 0; g <= DIM; ++g)
        {
            Model r;
            for (auto& t : a.v) if (__builtin_popcount(t.first) == g) r.insert(t);
            go(a.m.select_grade((elem_t)g), r, "grade " + std::to_string(g));
        }
        for (unsigned e = 0; e < (1u << DIM); ++e)
        {
            Model r;
            auto it = a.v.find(e);
            if (it != a.v.end()) r[0] = it->second;
            go(a.m[(elem_t)e], r, "component " + std::to_string(e));
            go(detail::component(a.m, (elem_t)e), r, "component() " + std::to_string(e));
        }
        {
            // extraction of an ascending blade list
            std::array<elem_t, 3> want{0, 2, (elem_t)((1 << DIM) - 1)};
            Model r;
            for (auto e : want) { auto it = a.v.find(e); if (it != a.v.end()) r.insert(*it); }
            go(detail::extract(a.m, want), r, "extract");
        }
        go(a.m.template resize<CI + 3, CM + 2, CT + 1>(), a.v, "resize");
        {
            // a reference to an evaluated multivector: one fresh variable per blade
            Model r;
            ll id = 70;
            for (auto& t : a.v) put(r, t.first, {{id++, {1, 1}}}, {1, 1});
            go(a.m.create_ref(70), r, "reference");
        }
        {
            auto x = a.m.extent();
            width_t mc = 0, ic = 0;
            for (auto& t : a.v) { mc = std::max<width_t>(mc, t.second.size()); for (auto& y : t.second) ic = std::max<width_t>(ic, y.first.size()); }
            ++transitions;
            if (x.mon != mc || x.ind != ic || x.term != a.v.size()) fail("(extent " + a.how + ")", "wrong extent");
        }
        for (ll var : {0, 1, 9})
            for (Q q : {Q{1, 1}, Q{-2, 3}})
            {
                mv<A, 1, 1, 1> d{mv_size{1, 1, 1}, {ind{(width_t)var, rat{1, 1}}}, {mon{rat{1, 1}, rat{1, 1}, 1, 0}}, {term{1, 0, 0}}};
                Model r;
                for (auto& t : a.v) for (auto& x : t.second) put(r, t.first, mm(x.first, {{var, {-1, 1}}}), x.second * q);
                go(detail::divide(a.m, d, rat{(num_t)q.n, (den_t)q.d}), r, "divide by x" + std::to_string(var) + " times " + std::to_string(q.n) + "/" + std::to_string(q.d));
            }
        {
            mv<A, 0, 1, 1> d{mv_size{0, 1, 1}, {}, {mon{rat{-4, 1}, rat{0, 1}, 0, 0}}, {term{1, 0, 0}}};
            go(detail::divide(a.m, d, rat{2, 1}), scaleM({-1, 2}, a.v), "divide by -4 times 2");
        }
        if constexpr (detail::uses_null_basis<A>)
        {
            constexpr unsigned no = 1u << (DIM - 2), ni = 1u << (DIM - 1);
            Model nat, nul;
            for (auto& t : a.v) for (auto& x : t.second)
            {
                unsigned e = t.first, rest = e & ~(no | ni);
                if (!(e & (no | ni)) || (e & no && e & ni)) { put(nat, e, x.first, x.second); put(nul, e, x.first, x.second); }
                else if (e & no)
                {
                    put(nat, rest | no, x.first, x.second * Q{1, 2}); put(nat, rest | ni, x.first, x.second * Q{1, 2}); // no = (e+ + e-)/2
                    put(nul, rest | no, x.first, x.second); put(nul, rest | ni, x.first, x.second * Q{-1, 2});        // e+ = no - ni/2
                }
                else
                {
                    put(nat, rest | no, x.first, x.second * Q{-1, 1}); put(nat, rest | ni, x.first, x.second);          // ni = e- - e+
                    put(nul, rest | no, x.first, x.second); put(nul, rest | ni, x.first, x.second * Q{1, 2});         // e- = no + ni/2
                }
            }
            auto n1 = detail::to_natural_basis(a.m);
            auto n2 = detail::to_null_basis(a.m);
            go(n1, nat, "to_natural");
            go(n2, nul, "to_null");
            M t;
            if (fit(n1, t)) go(detail::to_null_basis(t), a.v, "to_null to_natural");
            if (fit(n2, t)) go(detail::to_natural_basis(t), a.v, "to_natural to_null");
        }
    }
    template <typename F>
    void binary(S const& a, S const& b, F emit)
    {
        auto go = [&](auto const& got, Model const& want, char const* nm) {
            S s;
            s.how = std::string("(") + nm + " " + a.how + " " + b.how + ")";
            if (check(got, want, s.how, &s.m)) { s.v = want; emit(s); }
        };
        go(detail::sum(a.m, b.m), addM(a.v, b.v), "sum");
        go(detail::product(typename A::geometric{}, a.m, b.m), cl.prod(a.v, b.v, [](int, int, int) { return true; }, false), "geometric");
        go(detail::product(typename A::exterior{}, a.m, b.m), cl.prod(a.v, b.v, [](int, int, int) { return true; }, true), "exterior");
        go(detail::product(typename A::contract{}, a.m, b.m), cl.prod(a.v, b.v, [](int x, int y, int z) { return z == y - x; }, false), "contract");
        go(detail::product(typename A::symmetric_inner{}, a.m, b.m), cl.prod(a.v, b.v, [](int x, int y, int z) { return x && y && z == std::abs(x - y); }, false), "inner");
    }

    void base(char const* nm, std::vector<std::pair<unsigned, std::vector<std::pair<Q, Mono>>>> const& ts)
    {
        // build canonical representation directly (monomials are given in canonical order)
        S s;
        s.m = M{};
        s.how = nm;
        for (auto& t : ts)
        {
            auto& tt = s.m.terms[s.m.size.term++];
            tt.element = t.first;
            tt.count = t.second.size();
            tt.mon_offset = s.m.size.mon;
            for (auto& x : t.second)
            {
                auto& mo = s.m.mons[s.m.size.mon++];
                mo.q = rat{(num_t)x.first.n, (den_t)x.first.d};
                mo.count = x.second.size();
                mo.ind_offset = s.m.size.ind;
                Q deg{0, 1};
                for (auto& v : x.second)
                {
                    s.m.inds[s.m.size.ind++] = ind{(width_t)v.first, rat{(num_t)v.second.n, (den_t)v.second.d}};
                    deg = deg + v.second;
                }
                mo.degree = rat{(num_t)deg.n, (den_t)deg.d};
                put(s.v, t.first, x.second, x.first);
            }
        }
        char const* c = canonical(s.m);
        if (c) { fail(s.how, c); return; }
        st.push_back(s);
    }

    // monomials of many variables and high powers
    void wide(char const* nm, std::vector<int> const& squares)
    {
        name = nm;
        for (int i = 0; i < DIM; ++i) cl.sq[i] = squares[i];
        Q o{1, 1}, m{-1, 1};
        auto V = [&](std::vector<int> ids) { Mono r; for (int i : ids) r.push_back({i, o}); return r; };
        auto P = [&](std::vector<std::pair<int, int>> ids) { Mono r; for (auto& i : ids) r.push_back({i.first, Q{i.second, 1}}); return r; };
        base("x8 + x9 e1", {{0, {{o, V({8})}}}, {1, {{o, V({9})}}}});
        base("x0x1x2 e2", {{2, {{o, V({0, 1, 2})}}}});
        base("x3x4x5 - x3x4x6", {{0, {{o, V({3, 4, 5})}, {m, V({3, 4, 6})}}}});
        base("(x0x1x2x3x4 + x0x1x2x3x5) e1", {{1, {{o, V({0, 1, 2, 3, 4})}, {o, V({0, 1, 2, 3, 5})}}}});
        base("x0..x6 e1 - x0..x5x7 e2", {{1, {{o, V({0, 1, 2, 3, 4, 5, 6})}}}, {2, {{m, V({0, 1, 2, 3, 4, 5, 7})}}}});
        base("(x0x1^2x2x3x4 - x0^2x1x2x3x4) e3", {{3, {{o, P({{0, 1}, {1, 2}, {2, 1}, {3, 1}, {4, 1}})}, {m, P({{0, 2}, {1, 1}, {2, 1}, {3, 1}, {4, 1}})}}}});
        base("x0^9 - x1^7x2^5 e4", {{0, {{o, P({{0, 9}})}}}, {4, {{m, P({{1, 7}, {2, 5}})}}}});
        base("x0^-3 e1 + x1^-4x2x3x4x5x6", {{0, {{o, P({{1, -4}, {2, 1}, {3, 1}, {4, 1}, {5, 1}, {6, 1}})}}}, {1, {{o, P({{0, -3}})}}}});
        base("7/3 - 5 x0..x8", {{0, {{Q{7, 3}, {}}, {Q{-5, 1}, V({0, 1, 2, 3, 4, 5, 6, 7, 8})}}}});
        explore(1);
    }

    void run(char const* nm, std::vector<int> const& squares)
    {
        name = nm;
        for (int i = 0; i < DIM; ++i) cl.sq[i] = squares[i];
        Q o{1, 1}, m{-1, 1}, h{1, 2};
        Mono x{{0, o}}, y{{1, o}}, z{{2, o}}, xx{{0, {2, 1}}}, xy{{0, o}, {1, o}}, yz{{1, o}, {2, o}}, xi{{0, m}}, xh{{0, h}}, u{};
        base("zero", {});
        base("x", {{0, {{o, x}}}});
        base("y e1 + x e2", {{1, {{o, y}}}, {2, {{o, x}}}});
        base("x e1 - x e4", {{1, {{o, x}}}, {4, {{m, x}}}});
        base("1 + z e3 - xy e6", {{0, {{o, u}}}, {3, {{o, z}}}, {6, {{m, xy}}}});
        base("(1 + x/2 + xx) e2 + e7", {{2, {{o, u}, {h, x}, {o, xx}}}, {7, {{o, u}}}});
        base("-2 e3", {{3, {{{-2, 1}, u}}}});
        base("x^-1 + (x - y) e5", {{0, {{o, xi}}}, {5, {{o, x}, {m, y}}}});
        base("sqrt(x) e1 + yz e4", {{1, {{o, xh}}}, {4, {{o, yz}}}});
        base("(x+y)e1 + (x-y)e2", {{1, {{o, x}, {o, y}}}, {2, {{o, x}, {m, y}}}});
        explore(depth2);
    }

    void explore(int depth2)
    {
        // depth 1: all pairs; depth 2: all of depth 1 against all base states, both orders, and all unary
        std::vector<S> l1;
        std::map<std::string, int> seen;
        size_t nb = st.size();
        auto keep = [&](S const& s) {
            auto k = str(s.v);
            if (seen.emplace(k, 1).second) l1.push_back(s);
            else ++dups;
        };
        unsigned long long t0 = transitions;
        for (auto& s : st) seen[str(s.v)] = 1;
        for (size_t i = 0; i < nb; ++i) { unary(st[i], keep); for (size_t j = 0; j < nb; ++j) binary(st[i], st[j], keep); }
        states += nb + l1.size();
        if (wid) { transitions = t0; } // depth 1 is counted once, by worker 0
        if (wid) states -= nb + l1.size();
        size_t idx = 0;
        std::unordered_map<size_t, int> s2;
        std::vector<S> l2;
        auto drop = [&](S const& s) {
            if (s2.emplace(std::hash<std::string>{}(str(s.v)), 1).second) { ++states; if (depth2 > 2) l2.push_back(s); }
            else ++dups;
        };
        for (size_t i = 0; i < l1.size(); ++i)
        {
            if ((int)(idx++ % jobs) != wid) continue;
            S a = l1[i];
            unary(a, drop);
            for (size_t j = 0; j < nb; ++j) { binary(a, st[j], drop); binary(st[j], a, drop); }
            if (depth2 > 1) for (size_t j = 0; j < l1.size(); ++j) binary(a, l1[j], drop);
        }
        if (depth2 > 2)
        {
            auto none = [](S const&) {};
            for (size_t i = 0; i < l2.size(); ++i)
            {
                unary(l2[i], none);
                for (size_t j = 0; j < nb; ++j) { binary(l2[i], st[j], none); binary(st[j], l2[i], none); }
            }
        }
        if (wid == 0) std::printf("SAMPLE %s: %s =%s\n", name, l1[l1.size() / 2].how.c_str(), str(l1[l1.size() / 2].v).c_str());
    }
};

#ifdef NULLB
namespace gal { namespace detail { template <> constexpr inline bool uses_null_basis<algebra<metric<2, 1, 0>>> = true; } }
#endif

int main(int argc, char** argv)
{
    jobs = atoi(argv[1]);
    depth2 = atoi(argv[2]);
    struct Sh { unsigned long long v[64][5]; }* sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> kids;
    for (wid = 0; wid < jobs; ++wid)
    {
        pid_t p = fork();
        if (!p)
        {
#ifdef NULLB
            World<3, algebra<metric<2, 1, 0>>>{}.run("null basis metric<2,1,0>", {1, 1, -1});
#else
            World<3, algebra<metric<2, 0, 1>>>{}.run("metric<2,0,1>", {0, 1, 1});
            World<3, algebra<metric<2, 1, 0>>>{}.run("metric<2,1,0>", {1, 1, -1});
            World<3, algebra<metric<2, 0, 1>>, 80, 12, 8>{}.wide("wide monomials, metric<2,0,1>", {0, 1, 1});
            World<3, algebra<metric<1, 1, 1>>, 80, 12, 8>{}.wide("wide monomials, metric<1,1,1>", {0, 1, -1});
#endif
            unsigned long long r[5] = {states, transitions, skipped, bad, dups};
            memcpy(sh->v[wid], r, sizeof r);
            std::fflush(stdout);
            _exit(0);
        }
        kids.push_back(p);
    }
    int crashed = 0;
    for (auto p : kids) { int s; waitpid(p, &s, 0); if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0)) ++crashed; }
    unsigned long long t[5] = {};
    for (int w = 0; w < jobs; ++w) for (int k = 0; k < 5; ++k) t[k] += sh->v[w][k];
    if (crashed) std::printf("V symbolic arithmetic crashed in %d worker(s)\n", crashed);
    std::printf("STATS states %llu transitions %llu skipped %llu violations %llu duplicates %llu\n", t[0], t[1], t[2], t[3] + crashed, t[4]);
}
