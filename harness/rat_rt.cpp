// C11: every pair of rationals of a box, every operation, against exact 64-bit arithmetic; every chain of
// in-place updates up to a depth; every fraction of a strip of large denominators through the products
// that approximate.   args: jobs box chain_depth strip
#include <gal/numeric.hpp>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using gal::rat;
typedef long long ll;
static unsigned long long states = 0, transitions = 0, bad = 0, approx = 0;
static int jobs = 1, wid = 0;

struct Q { ll n, d; };
static ll gcdl(ll a, ll b) { a = a < 0 ? -a : a; while (b) { ll t = a % b; a = b; b = t; } return a; }
static Q red(ll n, ll d)
{
    if (d < 0) { n = -n; d = -d; }
    ll g = gcdl(n, d);
    if (g > 1) { n /= g; d /= g; }
    return {n, d};
}
static bool fits(ll x) { return x <= 2147483647LL && x >= -2147483647LL; }
static void fail(char const* op, ll an, ll ad, ll bn, ll bd, ll gn, ll gd, ll en, ll ed)
{
    if (bad++ < 6) std::printf("V %s of %lld/%lld and %lld/%lld gives %lld/%lld, expected %lld/%lld\n", op, an, ad, bn, bd, gn, gd, en, ed);
}
// the result must be exactly q in lowest terms with positive denominator when q has a denominator below 1024,
// otherwise within 1e-7 of it; `always` demands exactness regardless
static void same(char const* op, rat a, rat b, rat got, Q q, bool always = false)
{
    ++transitions;
    if (q.d < 1024 || always)
    {
        if (got.num != q.n || got.den != q.d) fail(op, a.num, a.den, b.num, b.den, got.num, got.den, q.n, q.d);
    }
    else
    {
        ++approx;
        bool ok = got.den > 0 && gcdl(got.num, got.den) == 1
                  && std::fabs((double)got.num / got.den - (double)q.n / q.d) < 1.0000001e-7;
        if (!ok) fail(op, a.num, a.den, b.num, b.den, got.num, got.den, q.n, q.d);
    }
}
static void truth(char const* op, rat a, rat b, bool got, bool exp)
{
    ++transitions;
    if (got != exp) fail(op, a.num, a.den, b.num, b.den, got, 1, exp, 1);
}

static void unary(rat a)
{
    Q q = red(a.num, a.den);
    bool lowest = q.n == a.num && q.d == a.den;
    truth("is_zero", a, a, a.is_zero(), a.num == 0);
    truth("is_unit", a, a, a.is_unit(), a.num == a.den);
    rat n = -a, m = a.negation();
    ++transitions;
    if ((ll)n.num * a.den != -(ll)a.num * n.den || n.den <= 0 || (lowest && (n.num != -q.n || n.den != q.d))) fail("negation", a.num, a.den, 0, 1, n.num, n.den, -q.n, q.d);
    if (m.num != n.num || m.den != n.den) fail("negation()", a.num, a.den, 0, 1, m.num, m.den, n.num, n.den);
    if (a.num != 0)
    {
        rat r = a.reciprocal();
        ++transitions;
        Q e = red(a.den, a.num);
        if (r.den <= 0 || (ll)r.num * e.d != e.n * (ll)r.den || (lowest && (r.num != e.n || r.den != e.d))) fail("reciprocal", a.num, a.den, 0, 1, r.num, r.den, e.n, e.d);
    }
    ++transitions;
    double dv = static_cast<double>(a);
    float fv = static_cast<float>(a);
    if (dv != (double)a.num / (double)a.den || std::fabs(fv - dv) > 1e-6 * std::fabs(dv)) fail("conversion to floating point", a.num, a.den, 0, 1, (ll)(dv * 1e6), 1000000, a.num, a.den);
}

static bool lowest(rat a) { Q q = red(a.num, a.den); return q.n == a.num && q.d == a.den; }

static void binary(rat a, rat b)
{
    ll an = a.num, ad = a.den, bn = b.num, bd = b.den;
    if (!fits(an * bd) || !fits(bn * ad) || !fits(an * bd + bn * ad) || !fits(an * bd - bn * ad) || !fits(ad * bd) || !fits(an * bn)) return;
    ++states;
    same("sum", a, b, a + b, red(an * bd + bn * ad, ad * bd));
    same("difference", a, b, a - b, red(an * bd - bn * ad, ad * bd));
    same("product", a, b, a * b, red(an * bn, ad * bd));
    if (bn) same("quotient", a, b, a / b, red(an * bd, ad * bn));
    truth("==", a, b, a == b, an * bd == bn * ad);
    truth("!=", a, b, a != b, an * bd != bn * ad);
    truth("<", a, b, a < b, an * bd < bn * ad);
    truth(">", a, b, a > b, an * bd > bn * ad);
    if (lowest(a) && lowest(b))
    {
        rat c = a;
        c += b;
        same("+=", a, b, c, red(an * bd + bn * ad, ad * bd));
        c = a;
        rat& r1 = (c *= b);
        same("*=", a, b, c, red(an * bn, ad * bd));
        truth("*= returns its target", a, b, &r1 == &c, true);
        if (bn) { c = a; c /= b; same("/=", a, b, c, red(an * bd, ad * bn)); }
    }
}
static void withint(rat a, int k)
{
    ++states;
    ll an = a.num, ad = a.den;
    if (!fits(an * k) || !fits(ad * (ll)k)) return;
    rat kk{k, 1};
    same("integer multiple", kk, a, k * a, red(an * k, ad));
    if (k) same("division by an integer", a, kk, a / k, red(an, ad * k));
    truth("!= integer", a, kk, a != k, an != ad * k);
}

// chains of in-place updates
static void chain(rat acc, Q q, int depth, std::vector<rat> const& alphabet, int& counter)
{
    if (!depth) return;
    for (auto b : alphabet)
        for (int op = 0; op < 3; ++op)
        {
            if (op == 2 && b.num == 0) continue;
            Q e = op == 0 ? red(q.n * b.den + (ll)b.num * q.d, q.d * b.den) : op == 1 ? red(q.n * b.num, q.d * b.den) : red(q.n * b.den, q.d * b.num);
            if (e.d >= 1024 || std::llabs(e.n) > 30000) continue;
            rat c = acc;
            if (op == 0) c += b; else if (op == 1) c *= b; else c /= b;
            ++states;
            same(op == 0 ? "chained +=" : op == 1 ? "chained *=" : "chained /=", acc, b, c, e);
            if (bad > 6) return;
            chain(c, e, depth - 1, alphabet, counter);
        }
}

int main(int argc, char** argv)
{
    jobs = atoi(argv[1]);
    int box = atoi(argv[2]), cdepth = atoi(argv[3]), strip = atoi(argv[4]);
    struct Sh { unsigned long long v[64][4]; }* sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> kids;
    for (wid = 0; wid < jobs; ++wid)
    {
        pid_t p = fork();
        if (!p)
        {
            std::vector<rat> vs;
            for (int d = 1; d <= box; ++d) for (int n = -box; n <= box; ++n) vs.push_back(rat{n, d});
            // boundary values: denominators around the approximation threshold, factors shared across operands
            for (int d : {64, 96, 127, 128, 255, 256, 341, 511, 512, 513, 1000, 1021, 1022, 1023, 1024, 1025, 1031, 2046, 2048, 4095})
                for (int n : {-1025, -1023, -512, -97, -3, -2, -1, 0, 1, 2, 3, 64, 97, 127, 255, 512, 1000, 1021, 1023, 1024, 1025, 4095}) vs.push_back(rat{n, d});
            for (size_t i = wid; i < vs.size(); i += jobs)
            {
                unary(vs[i]);
                for (auto b : vs) binary(vs[i], b);
                for (int k = -60; k <= 60; ++k) withint(vs[i], k);
                for (int k : {-4096, -1023, -1000, -500, -255, -128, 128, 255, 500, 1000, 1023, 1024, 4096}) withint(vs[i], k);
            }
            // strip: n/1 * 1/d covers every reduced fraction n/d with a large denominator
            for (int d = 1000 + wid; d <= 1000 + strip; d += jobs)
                for (int n = -strip; n <= strip; ++n)
                {
                    ++states;
                    same("product", rat{n, 1}, rat{1, d}, rat{n, 1} * rat{1, d}, red(n, d));
                    same("gated fraction", rat{n, d}, rat{n, d}, gal::detail::overflow_gate(rat{n, d}), red(n, d));
                }
            // very large denominators, small and large numerators
            for (int d = 100003 + wid; d < 2000000000 - 7000019; d += 7000019 * jobs / 8 + wid + 1)
                for (int n = -300; n <= 300; ++n)
                    for (int k = 0; k < 3; ++k)
                    {
                        int num = k == 0 ? n : k == 1 ? n + d / 2 : d - n;
                        ++states;
                        same("product", rat{num, 1}, rat{1, d}, rat{num, 1} * rat{1, d}, red(num, d));
                    }
            std::vector<rat> alpha;
            for (int d = 1; d <= 4; ++d) for (int n = -3; n <= 3; ++n) if (gcdl(n, d) == 1) alpha.push_back(rat{n, d});
            int c = 0;
            for (size_t i = wid; i < alpha.size(); i += jobs) chain(alpha[i], red(alpha[i].num, alpha[i].den), cdepth, alpha, c);
            unsigned long long r[4] = {states, transitions, bad, approx};
            memcpy(sh->v[wid], r, sizeof r);
            std::fflush(stdout);
            _exit(0);
        }
        kids.push_back(p);
    }
    int crashed = 0;
    for (auto p : kids) { int s; waitpid(p, &s, 0); if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0)) ++crashed; }
    unsigned long long t[4] = {};
    for (int w = 0; w < jobs; ++w) for (int k = 0; k < 4; ++k) t[k] += sh->v[w][k];
    if (crashed) std::printf("V rational arithmetic crashed in %d worker(s)\n", crashed);
    std::printf("SAMPLE 3/4 + -5/6 = %d/%d\n", (rat{3, 4} + rat{-5, 6}).num, (rat{3, 4} + rat{-5, 6}).den);
    std::printf("SAMPLE 7/1 * 1/5003 = %d/%d (beyond the exact range)\n", (rat{7, 1} * rat{1, 5003}).num, (rat{7, 1} * rat{1, 5003}).den);
    std::printf("STATS states %llu transitions %llu violations %llu approximated %llu\n", t[0], t[1], t[2] + crashed, t[3]);
}
