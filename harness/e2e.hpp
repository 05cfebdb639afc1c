#pragma once
#define VF_E2E
// Glue used by generated programs: every program fills an Out with (result index, blade, value).
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <tuple>
#ifdef VF_HEAP
#include "heap.hpp"
#endif

// models with other metric signatures, to evaluate expressions outside the four shipped models
#define VF_ALG(P, V, R)                                                                                              \
    namespace gal                                                                                                    \
    {                                                                                                                \
    namespace m##P##V##R                                                                                             \
    {                                                                                                                \
        using alg = ::gal::algebra<::gal::metric<P, V, R>>;                                                          \
        template <typename L, typename... D>                                                                         \
        auto compute(L l, D const&... in)                                                                            \
        {                                                                                                            \
            return ::gal::detail::compute<alg>(l, in...);                                                            \
        }                                                                                                            \
    }                                                                                                                \
    }
VF_ALG(1, 1, 1)
VF_ALG(0, 3, 0)
VF_ALG(2, 2, 0)
VF_ALG(2, 0, 2)
VF_ALG(0, 2, 1)
VF_ALG(5, 0, 0)
VF_ALG(3, 3, 0)
VF_ALG(2, 2, 2)
VF_ALG(4, 2, 1)
VF_ALG(3, 3, 2)
VF_ALG(0, 8, 0)

namespace vf
{
struct Out
{
    int n = 0;
    int res[512];
    unsigned el[512];
    double val[512];
    void put(int r, unsigned e, double v)
    {
        if (n < 512)
        {
            res[n] = r;
            el[n]  = e;
            val[n] = v;
            ++n;
        }
    }
};

using fn_t = void (*)(double const*, Out&);

// Any computed multivector: blade list + indexed access
template <typename A, typename T, gal::elem_t... E>
void emit(Out& o, int r, gal::entity<A, T, E...> const& x)
{
    constexpr unsigned els[sizeof...(E) + 1] = {static_cast<unsigned>(E)..., 0u};
#ifdef VF_HEAP
    if (sizeof...(E) > 0 && sizeof(x) != sizeof...(E) * sizeof(T))
    {
        tell("\nSIZE of a result is not that of its components\n");
    }
#endif
    for (std::size_t i = 0; i != sizeof...(E); ++i)
    {
        o.put(r, els[i], static_cast<double>(x[i]));
    }
}

template <typename... T, std::size_t... I>
void emit_tuple(Out& o, std::tuple<T...> const& t, std::index_sequence<I...>)
{
    (emit(o, static_cast<int>(I), std::get<I>(t)), ...);
}

template <typename... T>
void emit(Out& o, int, std::tuple<T...> const& t)
{
    emit_tuple(o, t, std::index_sequence_for<T...>{});
}

// tuples of plain values: tag = 8 * position + type code
inline unsigned code(int) { return 1; }
inline unsigned code(double) { return 2; }
inline unsigned code(char) { return 3; }

template <typename Tup, std::size_t... I>
void emit_plain(Out& o, int r, Tup const& t, std::index_sequence<I...>)
{
    (o.put(r, 8 * I + code(t.template get<I>()), static_cast<double>(t.template get<I>())), ...);
}

template <typename... T>
void plain(Out& o, int r, gal::tuple<T...> const& t)
{
    o.put(r, 7, static_cast<double>(sizeof...(T)));
    emit_plain(o, r, t, std::index_sequence_for<T...>{});
}

template <typename U>
struct bump
{
    int by;
    auto operator()(U v) const { return v + by; }
};

template <std::size_t N>
constexpr std::array<int, N> sorted_copy(std::array<int, N> in)
{
    gal::detail::sort(in.begin(), in.end());
    return in;
}

struct Entry
{
    int id;
    int arity; // number of input scalars
    fn_t fn;
};

inline int drive(Entry const* es, int n, double const* pts, int npts, int stride)
{
    static Out o;
    for (int i = 0; i != n; ++i)
    {
        for (int k = 0; k != npts; ++k)
        {
            o.n = 0;
            std::printf("S %d %d\n", es[i].id, k);
            std::fflush(stdout);
#ifdef VF_HEAP
            {
                window w;
                es[i].fn(pts + k * stride, o);
            }
#else
            es[i].fn(pts + k * stride, o);
#endif
            std::printf("R %d %d %d", es[i].id, k, o.n);
            for (int j = 0; j != o.n; ++j)
            {
                std::printf(" %d %u %.17g", o.res[j], o.el[j], o.val[j]);
            }
            std::printf("\n");
        }
    }
    return 0;
}
} // namespace vf
