// C12: every integer exponent of [-LIM, LIM] (and a few large ones) on every element of a value set, exactly in a
// prime field and in floating point; every fractional exponent N/D of a box on positive reals.
#include <gal/numeric.hpp>
#include <cmath>
#include <cstdio>
#include <type_traits>
#include <utility>

#ifndef LIM
#    define LIM 200
#endif
typedef unsigned long long u64;
static u64 states = 0, transitions = 0, bad = 0;

// arithmetic modulo 2^31 - 1: multiplication, division and powers are exact
struct Fp
{
    static constexpr u64 P = 2147483647ull;
    u64 v = 0;
    constexpr Fp() = default;
    constexpr Fp(int x) : v{x < 0 ? P - (u64)(-(long long)x) % P : (u64)x % P} {}
    friend constexpr Fp operator*(Fp a, Fp b) { Fp r; r.v = a.v * b.v % P; return r; }
    constexpr Fp inv() const { Fp r{1}, b = *this; for (u64 e = P - 2; e; e >>= 1) { if (e & 1) r = r * b; b = b * b; } return r; }
    friend constexpr Fp operator/(Fp a, Fp b) { return a * b.inv(); }
    constexpr Fp& operator*=(Fp b) { return *this = *this * b; }
    constexpr Fp& operator/=(Fp b) { return *this = *this / b; }
    friend constexpr bool operator==(Fp a, Fp b) { return a.v == b.v; }
};

static void fail(char const* what, double base, int n, int d, double got, double exp)
{
    if (bad++ < 8) std::printf("V %s: %g to the power %d/%d gives %.17g, expected %.17g\n", what, base, n, d, got, exp);
}

template <int N>
void integer()
{
    using IN = std::integral_constant<int, N>;
    using ID = std::integral_constant<int, 1>;
    constexpr int A = N < 0 ? -N : N;
    ++states;
#ifndef NOFIELD
    for (int b : {1, 2, 3, 5, 7, 10, 11, 13, 1000, 65537, 123456789, -1, -2, -17})
    {
        Fp e{1};
        for (int i = 0; i < A; ++i) e = e * Fp{b};
        if (N < 0) e = Fp{1} / e;
        ++transitions;
        Fp g = gal::pow(Fp{b}, IN{}, ID{});
        if (!(g == e)) fail("modulo 2147483647", b, N, 1, (double)g.v, (double)e.v);
    }
#endif
    for (double b : {1.0, -1.0, 2.0, -2.0, 0.5, 1.25, -1.5, 3.0, 1.0009765625, -0.9375, 10.0})
    {
        long double e = 1;
        for (int i = 0; i < A; ++i) e *= b;
        if (N < 0) e = 1 / e;
        double ed = (double)e;
        double g = gal::pow(b, IN{}, ID{});
        ++transitions;
        if (std::isfinite(ed) && std::fabs(ed) > 1e-290 && std::fabs(ed) < 1e290 && !(std::fabs(g - ed) <= 1e-12 * (1 + A) * std::fabs(ed))) fail("double", b, N, 1, g, ed);
        float gf = gal::pow((float)b, IN{}, ID{});
        ++transitions;
        if (std::fabs(ed) > 1e-33 && std::fabs(ed) < 1e33 && !(std::fabs(gf - ed) <= 3e-7 * (1 + A) * std::fabs(ed))) fail("float", b, N, 1, gf, ed);
    }
    if (N >= 0)
    {
        ++transitions;
        double g = gal::pow(0.0, IN{}, ID{});
        if (g != (N == 0 ? 1.0 : 0.0)) fail("double", 0, N, 1, g, N == 0);
    }
}

template <int N, int D>
void fraction()
{
    using IN = std::integral_constant<int, N>;
    using ID = std::integral_constant<int, D>;
    ++states;
    for (double b : {0.015625, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 9.0, 10.0, 64.0, 12345.678})
    {
        long double e = std::exp((long double)N / (long double)D * std::log((long double)b));
        double g = gal::pow(b, IN{}, ID{});
        float gf = gal::pow((float)b, IN{}, ID{});
        transitions += 2;
        if (!(std::fabs(g - e) <= 1e-12 * std::fabs((double)e))) fail("double", b, N, D, g, (double)e);
        if (!(std::fabs(gf - e) <= 1e-5 * std::fabs((double)e))) fail("float", b, N, D, gf, (double)e);
    }
}

template <int... I>
void all_int(std::integer_sequence<int, I...>) { (integer<I - LIM>(), ...); }
template <int D, int... I>
void all_frac(std::integer_sequence<int, I...>) { (fraction<I - 12, D>(), ...); }

int main()
{
    all_int(std::make_integer_sequence<int, 2 * LIM + 1>{});
    integer<255>(); integer<256>(); integer<257>(); integer<511>(); integer<512>(); integer<1000>(); integer<1023>(); integer<1024>();
    integer<4095>(); integer<65535>(); integer<65536>(); integer<99991>();
    integer<-255>(); integer<-256>(); integer<-1000>(); integer<-1024>(); integer<-65535>();
    using S = std::make_integer_sequence<int, 25>;
    all_frac<2>(S{}); all_frac<3>(S{}); all_frac<4>(S{}); all_frac<5>(S{}); all_frac<6>(S{}); all_frac<7>(S{}); all_frac<8>(S{}); all_frac<9>(S{}); all_frac<16>(S{});
    std::printf("SAMPLE 3^13 = %.17g\nSAMPLE 9^(1/2) = %.17g\nSAMPLE 2^-5 = %.17g\n", gal::pow(3.0, std::integral_constant<int, 13>{}, std::integral_constant<int, 1>{}),
                gal::pow(9.0, std::integral_constant<int, 1>{}, std::integral_constant<int, 2>{}), gal::pow(2.0, std::integral_constant<int, -5>{}, std::integral_constant<int, 1>{}));
    std::printf("STATS states %llu transitions %llu violations %llu\n", states, transitions, bad);
}
