// Every entity of every model, at every position among the inputs: the symbolic multivector it stands for is in canonical
// form, mentions exactly its own variables, and is the same whatever the position.
#include <gal/cga.hpp>
#include <gal/cga2.hpp>
#include <gal/engine.hpp>
#include <gal/pga.hpp>
#include <gal/pga2.hpp>
#include <gal/vga.hpp>

#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "canon.hpp"

static unsigned long long states, transitions, bad;

using Flat = std::map<std::pair<unsigned, std::vector<std::pair<ll, ll>>>, double>;
template <typename M>
static Flat flat(M const& m, ll base)
{
    Flat r;
    for (width_t i = 0; i < m.size.term; ++i)
        for (width_t j = 0; j < m.terms[i].count; ++j)
        {
            auto const& x = m.mons[m.terms[i].mon_offset + j];
            std::vector<std::pair<ll, ll>> v;
            for (width_t k = 0; k < x.count; ++k) v.push_back({(ll)m.inds[x.ind_offset + k].id - base, m.inds[x.ind_offset + k].degree.num * 64ll + m.inds[x.ind_offset + k].degree.den});
            r[{m.terms[i].element, v}] += double(x.q.num) / x.q.den;
        }
    return r;
}

template <typename E>
static void entity_kind(char const* name, ll vars)
{
    auto first = flat(E::ie(0), 0);
    for (uint32_t id = 0; id != 600; ++id)
    {
        auto m = E::ie(id);
        ++states;
        transitions += m.size.mon;
        char const* w = canonical(m);
        std::set<ll> seen;
        if (!w)
        {
            ll inds = 0;
            for (width_t j = 0; j < m.size.mon; ++j)
                for (width_t k = 0; k < m.mons[j].count; ++k, ++inds) seen.insert((ll)m.inds[m.mons[j].ind_offset + k].id - id);
            if ((ll)seen.size() != vars || (vars && (*seen.begin() != 0 || *seen.rbegin() != vars - 1))) w = "variables are not exactly its own";
            else if (flat(m, id) != first) w = "depends on the position among the inputs";
        }
        if (w && bad++ < 8) std::printf("V the multivector of %s at input %u: %s\n", name, id, w);
        if (w) break;
    }
}

#define KIND(T, N) entity_kind<T>(#T, N)

template <typename A, elem_t... E>
using ent = entity<A, float, E...>;

int main()
{
    KIND(vga::vector<float>, 3);
    KIND(vga::point<double>, 3);
    KIND(vga::rotor<float>, 5);
    KIND(pga::plane<float>, 4);
    KIND(pga::point<float>, 4);
    KIND(pga::vector<float>, 3);
    KIND(pga::line<float>, 6);
    KIND(pga::motor<float>, 8);
    KIND(pga::rotor<float>, 5);
    KIND(pga::translator<float>, 4);
    KIND(pga2::line<float>, 3);
    KIND(pga2::point<float>, 2);
    KIND(pga2::vector<float>, 2);
    KIND(cga::point<float>, 3);
    KIND(cga2::point<float>, 2);
    entity_kind<scalar<vga::vga_algebra, float>>("scalar", 1);
    entity_kind<ent<vga::vga_algebra>>("the zero entity", 0);
    entity_kind<ent<vga::vga_algebra, 3>>("a bivector", 1);
    entity_kind<ent<vga::vga_algebra, 0, 1, 2, 3, 4, 5, 6, 7>>("a full multivector", 8);
    entity_kind<ent<pga::pga_algebra, 0, 3, 5, 15>>("a mixed multivector", 4);
    entity_kind<ent<cga2::cga2_algebra, 0, 4, 5, 12>>("a conformal multivector", 4);
    std::printf("SAMPLE every entity at inputs 0..599\nSTATS states %llu transitions %llu violations %llu\n", states, transitions, bad);
}
