// C13 (run-time part): every sequence over small alphabets through sort, every operation sequence on a stack.
// args: maxlen stackdepth.   Build with -fsanitize=address so that stray accesses fail loudly.
#include <gal/algorithm.hpp>
#include <gal/stack.hpp>
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>

typedef unsigned long long u64;
static u64 states = 0, transitions = 0, bad = 0;
struct E { int key, id; };
static bool operator<(E const& a, E const& b) { return a.key < b.key; }

static std::string show(std::vector<E> const& v) { std::string s; for (auto e : v) s += " " + std::to_string(e.key); return s; }
static void fail(char const* what, std::vector<E> const& in, std::vector<E> const& out)
{
    if (bad++ < 6) std::printf("V sort %s: input%s output%s\n", what, show(in).c_str(), show(out).c_str());
}

template <typename Less, typename Run>
void one(char const* name, std::vector<int> const& keys, Less less, Run run)
{
    int n = (int)keys.size();
    // exact-size heap block (address sanitizer sees any step outside) and, separately, sentinels around the range
    std::vector<E> in(n);
    for (int i = 0; i < n; ++i) in[i] = {keys[i], i};
    for (int mode = 0; mode < 2; ++mode)
    {
        int pad = mode ? 2 : 0;
        E* mem = new E[n + 2 * pad];
        for (int i = 0; i < pad; ++i) { mem[i] = {mode ? 1000 - i : 0, -1 - i}; mem[pad + n + i] = {-1000 + i, -10 - i}; }
        std::copy(in.begin(), in.end(), mem + pad);
        run(mem + pad, mem + pad + n);
        ++transitions;
        std::vector<E> out(mem + pad, mem + pad + n);
        bool ok = true;
        for (int i = 0; i < pad; ++i) ok = ok && mem[i].key == 1000 - i && mem[i].id == -1 - i && mem[pad + n + i].key == -1000 + i && mem[pad + n + i].id == -10 - i;
        if (!ok) fail("touched neighbouring memory", in, out);
        std::vector<char> seen(n, 0);
        for (auto e : out)
        {
            if (e.id < 0 || e.id >= n || seen[e.id] || e.key != keys[e.id]) { ok = false; break; }
            seen[e.id] = 1;
        }
        if (!ok) { fail((std::string(name) + " lost or duplicated an element").c_str(), in, out); }
        else
            for (int i = 0; i + 1 < n; ++i)
                if (less(out[i + 1], out[i])) { fail((std::string(name) + " left elements out of order").c_str(), in, out); break; }
        delete[] mem;
    }
}

static void each(std::vector<int> const& keys)
{
    ++states;
    using gal::detail::sort;
    auto lt = [](E const& a, E const& b) { return a.key < b.key; };
    auto gt = [](E const& a, E const& b) { return a.key > b.key; };
    auto half = [](E const& a, E const& b) { return a.key / 2 < b.key / 2; };
    one("by natural order", keys, lt, [](E* f, E* l) { sort(f, l); });
    one("by comparator", keys, gt, [&](E* f, E* l) { sort(f, l, gt); });
    one("by weak comparator", keys, half, [&](E* f, E* l) { sort(f, l, half); });
}

static void words(int len, int alphabet)
{
    std::vector<int> w(len, 0);
    for (;;)
    {
        each(w);
        int i = 0;
        while (i < len && ++w[i] == alphabet) w[i++] = 0;
        if (i == len) break;
    }
}

// ---------------------------------------------------------------- stack
template <size_t C>
struct Machine
{
    gal::detail::stack<int, C> s{};
    std::vector<int> m;
    std::string trace;
    static void fail(std::string const& t, char const* what) { if (bad++ < 12) std::printf("V stack %s after:%s\n", what, t.c_str()); }
    bool check()
    {
        ++states;
        bool ok = s.empty() == m.empty() && s.count == m.size();
        auto const& cs = s;
        for (size_t i = 0; ok && i < m.size(); ++i) ok = cs[i] == m[i] && s[i] == m[i];
        if (ok && !m.empty())
        {
            ok = s.peek() == m.back() && cs.peek() == m.back();
            for (size_t i = 1; ok && i <= m.size(); ++i) ok = cs.peek(i) == m[m.size() - i];
        }
        if (!ok) fail(trace, "differs from the list model");
        return ok;
    }
    void go(int depth)
    {
        if (!check() || !depth) return;
        auto step = [&](std::string t, auto f) {
            Machine n = *this;
            n.trace += " " + t;
            ++transitions;
            if (f(n)) n.go(depth - 1);
            else fail(n.trace, "returned the wrong element");
        };
        for (int v : {7, -3})
            if (m.size() < C) step("push " + std::to_string(v), [&](Machine& n) { n.s.push(v + (int)m.size()); n.m.push_back(v + (int)m.size()); return true; });
        if (!m.empty())
        {
            step("pop", [&](Machine& n) { int e = n.m.back(); n.m.pop_back(); return n.s.pop() == e; });
            for (size_t k = 2; k <= m.size(); ++k)
                step("pop " + std::to_string(k), [&](Machine& n) { int e = n.m[n.m.size() - k]; n.m.resize(n.m.size() - k); return n.s.pop(k) == e; });
            step("write top", [&](Machine& n) { n.m.back() = 99; n.s.peek() = 99; return true; });
            step("write first", [&](Machine& n) { n.m[0] = 55; n.s[0] = 55; return true; });
            step("clear", [&](Machine& n) { n.m.clear(); n.s.clear(); return true; });
        }
    }
};

int main(int, char** argv)
{
    int maxlen = atoi(argv[1]), sd = atoi(argv[2]);
    for (int n = 0; n <= maxlen; ++n) words(n, n < 2 ? 2 : n);
    words(maxlen + 1, 4);
    words(maxlen + 2, 3);
    words(maxlen + 3, 3);
    for (int n = 10; n <= 13; ++n) words(n, 2);
    // structured long sequences: every rotation of sorted, reversed, organ pipe, sawtooth, constant
    for (int n = 11; n <= 40; ++n)
        for (int r = 0; r < n; ++r)
        {
            std::vector<std::vector<int>> base(5, std::vector<int>(n));
            for (int i = 0; i < n; ++i)
            {
                base[0][i] = i; base[1][i] = n - i; base[2][i] = std::min(i, n - i); base[3][i] = i % 5; base[4][i] = 3;
            }
            for (auto b : base) { std::rotate(b.begin(), b.begin() + r, b.end()); each(b); }
        }
    // longer than any table the library sorts today
    for (int n : {41, 48, 63, 64, 65, 66, 100, 127, 128, 129, 150, 200, 255, 256, 257, 258, 300})
        for (int r = 0; r < n; r += 1 + n / 9)
        {
            std::vector<std::vector<int>> base(8, std::vector<int>(n));
            for (int i = 0; i < n; ++i)
            {
                base[0][i] = i; base[1][i] = n - i; base[2][i] = std::min(i, n - i); base[3][i] = i % 5; base[4][i] = 3;
                base[5][i] = i * 37 % n; base[6][i] = i * i % 101; base[7][i] = i & 1 ? i : -i;
            }
            for (auto b : base) { std::rotate(b.begin(), b.begin() + r, b.end()); each(b); }
        }
    // plain integers and std::array iterators (the form the library itself uses)
    std::array<unsigned, 6> a{5, 3, 3, 9, 0, 1};
    gal::detail::sort(a.begin(), a.end());
    if (!std::is_sorted(a.begin(), a.end())) { ++bad; std::printf("V sort of an array of unsigned is out of order\n"); }
    Machine<6>{}.go(sd);
    Machine<1>{}.go(sd);
    std::printf("SAMPLE sort 2 0 1 0 -> sorted permutation with neighbours intact\nSAMPLE stack push 7 push -2 pop 2 push 7\n");
    std::printf("STATS states %llu transitions %llu violations %llu\n", states, transitions, bad);
}
