// Explicit-state exploration of the expression builder and of common subexpression extraction.
//
// State:      an expression in the library's own RPN form (what the user's operators build).
// Transition: one application of a real library operator to reachable states.
// Check:      every state is passed through the real rpn_reshape (sharing / extraction) and the
//             reshaped program is executed by a small stack machine over the integers modulo a
//             prime; the outcome must equal the value of the operator tree computed independently.
// Scalar functions are interpreted as fixed pseudo-random maps, so equality means the right
// function was applied to the right argument.
//
// Candidate counterexamples are printed ("C ...") and replayed by the caller through the public
// compute() before anything is reported.
#include <gal/engine.hpp>
#include <gal/entity.hpp>
#include <gal/geometric_algebra.hpp>

#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using namespace gal;
using A = algebra<metric<3, 0, 0>>;
constexpr int DIM = 3;
constexpr int N = 8;
constexpr width_t CAP = 34;
using R = detail::rpne<A, CAP>;
using u64 = unsigned long long;
constexpr u64 P = (1ull << 61) - 1;

static u64 addm(u64 a, u64 b) { a += b; return a >= P ? a - P : a; }
static u64 subm(u64 a, u64 b) { return a >= b ? a - b : a + P - b; }
static u64 mulm(u64 a, u64 b)
{
    unsigned __int128 t = (unsigned __int128)a * b;
    u64 r = (u64)(t & P) + (u64)(t >> 61);
    return r >= P ? r - P : r;
}
static u64 powm(u64 a, u64 e)
{
    u64 r = 1;
    for (; e; e >>= 1, a = mulm(a, a))
        if (e & 1) r = mulm(r, a);
    return r;
}
static u64 invm(u64 a) { return powm(a, P - 2); }
static u64 fromi(long long v) { return v >= 0 ? (u64)v % P : subm(0, (u64)(-v) % P); }
static u64 mix(u64 x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return (x ^ (x >> 31)) % P;
}

using V = std::array<u64, N>;
enum K { ADD, SUB, GP, EP, REG, LC, SIP, SAND, SP, DIV, NEG, REV, DUAL, SQRT, SIN, COS, TAN, IMUL, IDIV, IADD, ADDI, ISUB, SUBI, IREC, COMP, GRADE, CMUL, MULC, CDIV, DIVC, LEAF };
static char const* const NAME[] = {"+", "-", "*", "^", "&", ">>", "|", "%", "sp", "/", "neg", "~", "!", "sqrt", "sin", "cos", "tan", "imul", "idiv", "iadd", "addi", "isub", "subi", "irec", "[]", "grade", "cmul", "mulc", "cdiv", "divc"};
static bool is_bin(int k) { return k <= DIV; }

// ---------------------------------------------------------------- independent Clifford arithmetic
static int sgn(unsigned a, unsigned b)
{
    int s = 0;
    for (a >>= 1; a; a >>= 1) s += __builtin_popcount(a & b);
    return s & 1 ? -1 : 1;
}
static V zero_v() { V v; v.fill(0); return v; }
static V scal(u64 x) { V v = zero_v(); v[0] = x; return v; }
template <typename F>
static V bil(V const& x, V const& y, F keep)
{
    V r = zero_v();
    for (unsigned a = 0; a < N; ++a)
        if (x[a])
            for (unsigned b = 0; b < N; ++b)
                if (y[b] && keep(__builtin_popcount(a), __builtin_popcount(b), __builtin_popcount(a ^ b)))
                {
                    u64 t = mulm(x[a], y[b]);
                    r[a ^ b] = sgn(a, b) > 0 ? addm(r[a ^ b], t) : subm(r[a ^ b], t);
                }
    return r;
}
static V gp(V const& x, V const& y) { return bil(x, y, [](int, int, int) { return true; }); }
static V ep(V const& x, V const& y) { return bil(x, y, [](int a, int b, int c) { return c == a + b; }); }
static V lc(V const& x, V const& y) { return bil(x, y, [](int a, int b, int c) { return c == b - a; }); }
static V sip(V const& x, V const& y) { return bil(x, y, [](int a, int b, int c) { return a && b && c == (a > b ? a - b : b - a); }); }
static V add(V const& x, V const& y) { V r; for (int i = 0; i < N; ++i) r[i] = addm(x[i], y[i]); return r; }
static V scale(u64 q, V const& x) { V r; for (int i = 0; i < N; ++i) r[i] = mulm(q, x[i]); return r; }
static V rev(V const& x)
{
    V r = x;
    for (unsigned i = 0; i < N; ++i)
        if (__builtin_popcount(i) & 2) r[i] = subm(0, r[i]);
    return r;
}
static V dual(V const& x)
{
    V r = zero_v();
    for (unsigned i = 0; i < N; ++i)
    {
        unsigned c = (N - 1) ^ i;
        r[c] = sgn(i, c) > 0 ? x[i] : subm(0, x[i]);
    }
    return r;
}
static V grade(V const& x, int g)
{
    V r = zero_v();
    for (unsigned i = 0; i < N; ++i)
        if (__builtin_popcount(i) == g) r[i] = x[i];
    return r;
}
static bool is_scalar(V const& x)
{
    for (int i = 1; i < N; ++i)
        if (x[i]) return false;
    return true;
}
static u64 fun(int k, u64 x)
{
    if (x == 0) return k == COS ? 1 : 0;
    return mix(x * 7 + k);
}
static u64 cval(int c) { return mix(1000003 + c); } // PI, E

static bool ref(int k, int p, V const& x, V const& y, V& out)
{
    switch (k)
    {
    case ADD: out = add(x, y); break;
    case SUB: out = add(x, scale(P - 1, y)); break;
    case GP: out = gp(x, y); break;
    case EP: out = ep(x, y); break;
    case REG: out = dual(ep(dual(x), dual(y))); break;
    case LC: out = lc(x, y); break;
    case SIP: out = sip(x, y); break;
    case SAND: out = gp(gp(y, x), rev(y)); break;
    case SP: out = scal(gp(x, y)[0]); break;
    case DIV:
        if (!is_scalar(y) || !y[0]) return false;
        out = scale(invm(y[0]), x);
        break;
    case NEG: out = scale(P - 1, x); break;
    case REV: out = rev(x); break;
    case DUAL: out = dual(x); break;
    case SQRT: case SIN: case COS: case TAN:
        if (!is_scalar(x)) return false;
        out = scal(fun(k, x[0]));
        break;
    case IMUL: out = scale(fromi(p), x); break;
    case IDIV: out = scale(invm(fromi(p)), x); break;
    case IADD: case ADDI: out = add(scal(fromi(p)), x); break;
    case ISUB: out = add(scal(fromi(p)), scale(P - 1, x)); break;
    case SUBI: out = add(x, scal(fromi(-p))); break;
    case IREC:
        if (!is_scalar(x) || !x[0]) return false;
        out = scal(mulm(fromi(p), invm(x[0])));
        break;
    case COMP: out = scal(x[p]); break;
    case GRADE: out = grade(x, p); break;
    case CMUL: case MULC: out = scale(cval(p), x); break;
    case CDIV:
        if (!is_scalar(x) || !x[0]) return false;
        out = scal(mulm(cval(p), invm(x[0])));
        break;
    case DIVC: out = scale(invm(cval(p)), x); break;
    default: return false;
    }
    return true;
}

// ---------------------------------------------------------------- the real operators
template <typename T>
static bool fit(T const& in, R& out)
{
    if (in.count > CAP) return false;
    out = R{};
    for (width_t i = 0; i < in.count; ++i) out.nodes[i] = in.nodes[i];
    out.count = in.count;
    out.q = in.q;
    return true;
}
static bool real(int k, int p, R const& x, R const& y, R& out)
{
    R x_ = x;
    switch (k)
    {
    case ADD: return fit(x + y, out);
    case SUB: return fit(x - y, out);
    case GP: return fit(x * y, out);
    case EP: return fit(x ^ y, out);
    case REG: return fit(x & y, out);
    case LC: return fit(x >> y, out);
    case SIP: return fit(x | y, out);
    case SAND: return fit(x % y, out);
    case SP: return fit(scalar_product(x, y), out);
    case DIV: return fit(x / y, out);
    case NEG: return fit(-x, out);
    case REV: return fit(~x, out);
    case DUAL: return fit(!x, out);
    case SQRT: return fit(sqrt(x), out);
    case SIN: return fit(sin(x), out);
    case COS: return fit(cos(x), out);
    case TAN: return fit(tan(x), out);
    case IMUL: return fit(p * x, out);
    case IDIV: return fit(x / p, out);
    case IADD: return fit(p + x, out);
    case ADDI: return fit(x + p, out);
    case ISUB: return fit(p - x, out);
    case SUBI: return fit(x - p, out);
    case IREC: return fit(p / x, out);
    case COMP: return fit(x_[p], out);
    case GRADE: return fit(x_.select_grade(p), out);
    case CMUL: return fit((p ? ::gal::E : ::gal::PI) * x, out);
    case MULC: return fit(x * (p ? ::gal::E : ::gal::PI), out);
    case CDIV: return fit((p ? ::gal::E : ::gal::PI) / x, out);
    case DIVC: return fit(x / (p ? ::gal::E : ::gal::PI), out);
    }
    return false;
}

// ---------------------------------------------------------------- the stack machine
static std::vector<V> inputs;
static u64 ratm(rat q) { return mulm(fromi(q.num), invm(fromi(q.den))); }

struct Machine
{
    std::vector<V> temps;
    char const* err = nullptr;

    template <typename T>
    bool run(T const& e, width_t i, width_t l, std::vector<V>& st)
    {
        using namespace gal::detail;
        while (i < l)
        {
            auto const& n = e.nodes[i];
            auto need = [&](size_t k) { if (st.size() < k) { err = "stack underflow"; return false; } return true; };
            switch (n.o)
            {
            case op_id:
                if (n.ex >= inputs.size()) { err = "bad input"; return false; }
                st.push_back(inputs[n.ex]);
                break;
            case op_cse:
                if (n.ex >= temps.size()) { err = "temporary used before it is computed"; return false; }
                st.push_back(temps[n.ex]);
                break;
            case op_se: {
                std::vector<V> sub;
                if (i + 1 + n.ex > l) { err = "subexpression too long"; return false; }
                if (!run(e, i + 1, i + 1 + n.ex, sub)) return false;
                if (sub.empty()) { err = "empty subexpression"; return false; }
                V v = sub.back();
                if (n.q.num != 0) v = scale(ratm(n.q), v);
                st.push_back(v);
                i += n.ex;
                break;
            }
            case op_noop:
                if (!need(1)) return false;
                temps.push_back(st.back());
                st.pop_back();
                break;
            case op_rev: if (!need(1)) return false; st.back() = rev(st.back()); break;
            case op_pd: if (!need(1)) return false; st.back() = dual(st.back()); break;
            case op_sum: case op_ep: {
                if (n.ex == 0 || !need(n.ex)) { err = "bad operand count"; return false; }
                V v = st[st.size() - n.ex];
                for (size_t k = st.size() - n.ex + 1; k < st.size(); ++k)
                    v = n.o == op_sum ? add(v, st[k]) : ep(v, st[k]);
                st.resize(st.size() - n.ex);
                st.push_back(v);
                break;
            }
            case op_gp: case op_lc: case op_sip: case op_div: {
                if (!need(2)) return false;
                V y = st.back(); st.pop_back();
                V x = st.back(); st.pop_back();
                if (n.o == op_gp) st.push_back(gp(x, y));
                else if (n.o == op_lc) st.push_back(lc(x, y));
                else if (n.o == op_sip) st.push_back(sip(x, y));
                else st.push_back(scale(mulm(ratm(n.q), invm(y[0])), x));
                break;
            }
            case op_sqrt: case op_sin: case op_cos: case op_tan: {
                if (!need(1)) return false;
                int k = n.o == op_sqrt ? SQRT : n.o == op_sin ? SIN : n.o == op_cos ? COS : TAN;
                st.back() = scal(fun(k, mulm(ratm(n.q), st.back()[0])));
                break;
            }
            case op_comp: if (!need(1)) return false; st.back() = scal(n.ex < N ? st.back()[n.ex] : 0); break;
            case op_grd: if (!need(1)) return false; st.back() = grade(st.back(), (int)n.ex); break;
            case c_zero: st.push_back(zero_v()); break;
            case c_pi: st.push_back(scal(cval(0))); break;
            case c_e: st.push_back(scal(cval(1))); break;
            default: {
                if (n.o < c_scalar || n.o - c_scalar >= N) { err = "unknown node"; return false; }
                V v = zero_v();
                v[n.o - c_scalar] = 1;
                st.push_back(v);
            }
            }
            ++i;
        }
        return true;
    }
};

template <typename T>
static char const* execute(T const& reshaped, std::vector<V>& results)
{
    Machine m;
    if (reshaped.count == 0 || reshaped.q.num == 0)
    {
        results.assign(1, zero_v());
        return nullptr;
    }
    // A divisor or function argument must have been extracted before use: it has to be a single
    // node (input, constant or temporary) - the code generator refers to it by one indeterminate.
    for (width_t i = 0; i < reshaped.count; ++i)
    {
        auto o = reshaped.nodes[i].o;
        if (o == detail::op_div || o == detail::op_sqrt || o == detail::op_sin || o == detail::op_cos || o == detail::op_tan)
        {
            auto q = i ? reshaped.nodes[i - 1].o : detail::op_sum;
            bool leaf = q == detail::op_id || q == detail::op_cse || q >= detail::c_zero;
            if (!leaf) return "operand not extracted";
        }
    }
    results.clear();
    if (!m.run(reshaped, 0, reshaped.count, results)) return m.err;
    for (auto& v : results) v = scale(ratm(reshaped.q), v);
    return nullptr;
}

// ---------------------------------------------------------------- exploration
struct S
{
    R r;
    V v;
    int k, p, x, y; // how it was reached: operator, parameter, operands
    int depth;
};
static std::vector<S> st;
static std::vector<std::string> leafname;
struct Op { int k, p; };
static std::vector<Op> ops;

static std::string show(int i);
static std::string show(int k, int p, std::string const& x, std::string const& y)
{
    std::string s = std::string("(") + NAME[k];
    if (is_bin(k)) return s + " " + x + " " + y + ")";
    if (k >= IMUL) return s + " " + std::to_string(p) + " " + x + ")";
    return s + " " + x + ")";
}
static std::string show(int i)
{
    S const& s = st[i];
    if (s.k == LEAF) return leafname[s.p];
    return show(s.k, s.p, show(s.x), s.y >= 0 ? show(s.y) : "");
}

static u64 hash_of(R const& r)
{
    u64 h = mix(r.count * 31 + (u64)(unsigned)r.q.num * 1315423911u + (unsigned)r.q.den);
    for (width_t i = 0; i < r.count; ++i)
    {
        auto const& n = r.nodes[i];
        h = mix(h * 3 + n.o);
        h = mix(h * 5 + n.checksum);
        h = mix(h * 7 + n.ex);
        h = mix(h * 11 + (((u64)(unsigned)n.q.num << 32) | (unsigned)n.q.den));
    }
    return h;
}
static bool same(R const& a, R const& b)
{
    if (a.count != b.count || a.q.num != b.q.num || a.q.den != b.q.den) return false;
    for (width_t i = 0; i < a.count; ++i)
    {
        auto const &x = a.nodes[i], &y = b.nodes[i];
        if (x.o != y.o || x.checksum != y.checksum || x.ex != y.ex || x.q.num != y.q.num || x.q.den != y.q.den) return false;
    }
    return true;
}

static bool small(rat q) { return q.num < 20000 && q.num > -20000 && q.den < 900; }

// true if the state agrees with the reference
static bool agree(R const& r, V const& v, char const*& why)
{
    auto reshaped = detail::rpn_reshape(r);
    std::vector<V> res;
    why = execute(reshaped, res);
    if (why) return false;
    if (res.size() != 1) { why = "not a single result"; return false; }
    if (res[0] != v) { why = "different value"; return false; }
    return true;
}

struct Shared
{
    u64 done[64], trans[64], states[64], skipped[64], cand[64];
    u64 cur[64][4];
};
static Shared* sh;

int main(int argc, char** argv)
{
    // argv: jobs, depth, max_candidates, mode, ops..., --, leaves...
    // mode 0: all expressions; 1: all pairs of results; 2: all combinations of two expressions with the same checksum
    int jobs = atoi(argv[1]), depth = atoi(argv[2]), maxc = atoi(argv[3]), tuples = atoi(argv[4]);
    int i = 5;
    for (; i < argc && strcmp(argv[i], "--"); ++i)
    {
        std::string o = argv[i];
        int p = 0;
        auto c = o.find(':');
        if (c != std::string::npos) { p = atoi(o.c_str() + c + 1); o = o.substr(0, c); }
        int k = -1;
        for (int j = 0; j < LEAF; ++j) if (o == NAME[j]) k = j;
        if (k < 0) { fprintf(stderr, "bad op %s\n", o.c_str()); return 3; }
        ops.push_back({k, p});
    }
    // inputs: a, b, c as blade masks "name=mask"
    std::map<std::string, int> leafidx;
    auto add_state = [&](S s) { st.push_back(s); return (int)st.size() - 1; };
    int nin = 0, next_id = 0;
    for (++i; i < argc && strcmp(argv[i], "--"); ++i)
    {
        std::string a = argv[i];
        auto eq = a.find('=');
        std::string nm = a.substr(0, eq);
        unsigned mask = (unsigned)strtoul(a.c_str() + eq + 1, nullptr, 0);
        V v = zero_v();
        for (int b = 0; b < N; ++b) if (mask >> b & 1) v[b] = mix(777 + nin * 64 + b);
        S s{};
        if (nm[0] == '#') // literal blade: value in mask, e.g. #2_6 => blade 6 times 2
        {
            int q = atoi(nm.c_str() + 1);
            int bl = atoi(nm.c_str() + nm.find('_') + 1);
            s.r.nodes[0] = detail::node{(uint32_t)(detail::c_scalar + bl), (uint32_t)(detail::c_scalar + bl)};
            s.r.count = 1;
            s.r.q = rat{(num_t)q, 1};
            v = zero_v();
            v[bl] = fromi(q);
        }
        else
        {
            // the id of an input is the number of values of the inputs before it, as in compute()
            s.r.nodes[0] = detail::node{detail::op_id, (uint32_t)next_id, (width_t)nin};
            next_id += __builtin_popcount(mask);
            s.r.count = 1;
            inputs.push_back(v);
            ++nin;
        }
        s.v = v;
        s.k = LEAF;
        s.p = (int)leafname.size();
        leafname.push_back(nm);
        leafidx[nm] = add_state(s);
    }
    // derived leaves: prefix expressions over the inputs; if present they replace the inputs
    std::vector<int> leaves;
    if (i < argc)
    {
        for (++i; i < argc; ++i)
        {
            std::string t = argv[i];
            size_t pos = 0;
            auto parse = [&](auto&& self) -> int {
                while (t[pos] == ' ') ++pos;
                if (t[pos] != '(')
                {
                    size_t b = pos;
                    while (pos < t.size() && t[pos] != ' ' && t[pos] != ')') ++pos;
                    return leafidx.at(t.substr(b, pos - b));
                }
                ++pos;
                size_t b = pos;
                while (t[pos] != ' ') ++pos;
                std::string o = t.substr(b, pos - b);
                int k = -1;
                for (int j = 0; j < LEAF; ++j) if (o == NAME[j]) k = j;
                int p = 0;
                if (k >= IMUL)
                {
                    p = atoi(t.c_str() + pos + 1);
                    ++pos;
                    while (t[pos] != ' ') ++pos;
                }
                int x = self(self), y = -1;
                if (is_bin(k)) y = self(self);
                while (t[pos] == ' ') ++pos;
                ++pos; // ')'
                S s{};
                if (!ref(k, p, st[x].v, y >= 0 ? st[y].v : st[x].v, s.v) || !real(k, p, st[x].r, y >= 0 ? st[y].r : st[x].r, s.r)) { fprintf(stderr, "bad leaf %s\n", t.c_str()); exit(3); }
                s.k = k; s.p = p; s.x = x; s.y = y;
                return add_state(s);
            };
            leaves.push_back(parse(parse));
        }
    }
    else
        for (size_t j = 0; j < st.size(); ++j) leaves.push_back((int)j);

    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof(Shared));
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);

    std::vector<std::vector<int>> level(depth + 1);
    level[0] = leaves;
    std::unordered_multimap<u64, int> seen;
    for (int l : leaves) seen.emplace(hash_of(st[l].r), l);
    u64 transitions = 0, dup = 0, skipped = 0, cands = 0, checked = 0;
    for (int l : leaves)
    {
        char const* why = nullptr;
        if (!agree(st[l].r, st[l].v, why)) { printf("C %s # %s\n", show(l).c_str(), why); ++cands; }
        ++checked;
    }

    // one step; returns false if undefined / out of bounds
    auto step = [&](Op const& o, int x, int y, S& s) {
        V const& vy = y >= 0 ? st[y].v : st[x].v;
        if (!ref(o.k, o.p, st[x].v, vy, s.v)) return false;
        if (!real(o.k, o.p, st[x].r, y >= 0 ? st[y].r : st[x].r, s.r)) return false;
        if (!small(s.r.q)) return false;
        s.k = o.k; s.p = o.p; s.x = x; s.y = y;
        return true;
    };

    int storedepth = tuples ? depth : depth - 1; // modes 1 and 2 combine stored expressions
    for (int d = 1; d <= storedepth; ++d)
    {
        for (auto const& o : ops)
            for (int a = 0; a < d; ++a)
            {
                int b = d - 1 - a;
                if (!is_bin(o.k) && a != d - 1) continue;
                for (int x : level[a])
                {
                    auto body = [&](int y) {
                        S s{};
                        ++transitions;
                        if (!step(o, x, y, s)) { ++skipped; return; }
                        u64 h = hash_of(s.r);
                        auto rg = seen.equal_range(h);
                        for (auto it = rg.first; it != rg.second; ++it)
                            if (same(st[it->second].r, s.r) && st[it->second].v == s.v) { ++dup; return; }
                        char const* why = nullptr;
                        ++checked;
                        if (!agree(s.r, s.v, why))
                        {
                            if ((int)cands < maxc) printf("C %s # %s\n", show(o.k, o.p, show(x), y >= 0 ? show(y) : "").c_str(), why);
                            ++cands;
                            return;
                        }
                        s.depth = d;
                        st.push_back(s);
                        level[d].push_back((int)st.size() - 1);
                        seen.emplace(h, (int)st.size() - 1);
                    };
                    if (is_bin(o.k)) for (int y : level[b]) body(y);
                    else body(-1);
                }
            }
    }
    fflush(stdout);
    seen.clear();

    // last level (or all pairs as tuples) in parallel, without storing
    if (jobs > 64) jobs = 64;
    std::vector<pid_t> kids;
    for (int w = 0; w < jobs; ++w)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            u64 idx = 0, T = 0, SK = 0, CH = 0, CA = 0;
            auto report = [&](std::string const& s, char const* why) {
                if ((int)CA++ < maxc) { printf("C %s # %s\n", s.c_str(), why); fflush(stdout); }
            };
            if (tuples == 2)
            {
                // expressions whose last nodes carry the same checksum: only a full comparison keeps them apart
                std::map<std::pair<u64, u64>, std::vector<int>> by;
                for (auto& l : level) for (int x : l)
                    if (st[x].r.count) by[{st[x].r.nodes[st[x].r.count - 1].checksum, st[x].r.count}].push_back(x);
                int const z1 = level[0].front(), z2 = level[0].back();
                auto check = [&](int k, int x, int y) {
                    Op const op{k, 0};
                    S s{};
                    ++T; ++sh->done[w];
                    if (!step(op, x, y, s)) { ++SK; return; }
                    char const* why = nullptr;
                    ++CH;
                    if (!agree(s.r, s.v, why)) report(show(op.k, op.p, show(x), show(y)), why);
                };
                // the two as operands, and as summands of sums
                auto pair_up = [&](int x, int y) {
                    for (int k : {(int)ADD, (int)SUB, (int)GP, (int)EP}) check(k, x, y);
                    size_t const n = st.size();
                    S s1{}, s2{};
                    if (step(Op{ADD, 0}, x, z1, s1))
                    {
                        st.push_back(s1);
                        check(SUB, (int)n, y);
                        check(ADD, y, (int)n);
                        if (step(Op{SUB, 0}, y, z2, s2))
                        {
                            st.push_back(s2);
                            check(ADD, (int)n, (int)n + 1);
                        }
                    }
                    st.resize(n);
                };
                for (auto const& g : by)
                {
                    auto const& m = g.second;
                    if (m.size() < 2) continue;
                    if ((int)(idx++ % jobs) != w) continue;
                    // all pairs at short distance: neighbours differ in a single step
                    size_t span = m.size() <= 60 ? m.size() : 3600 / m.size() + 2;
                    for (size_t i1 = 0; i1 < m.size(); ++i1)
                        for (size_t i2 = i1 + 1; i2 < m.size() && i2 <= i1 + span; ++i2)
                        {
                            pair_up(m[i1], m[i2]);
                            pair_up(m[i2], m[i1]);
                        }
                }
                // expressions of different length with the same checksum, one the beginning of the other
                for (auto it = by.begin(); it != by.end(); ++it)
                    for (auto jt = std::next(it); jt != by.end() && jt->first.first == it->first.first; ++jt)
                        for (int x : it->second)
                        {
                            if ((int)(idx++ % jobs) != w) continue;
                            for (int y : jt->second)
                            {
                                R const &p = st[x].r, &q = st[y].r;
                                width_t e = 0;
                                while (e != p.count && p.nodes[e] == q.nodes[e]) ++e;
                                if (e != p.count) continue;
                                pair_up(x, y);
                                pair_up(y, x);
                            }
                        }
            }
            else if (!tuples)
            {
                int d = depth;
                if (d >= 1)
                for (size_t oi = 0; oi < ops.size(); ++oi)
                {
                    auto const& o = ops[oi];
                    for (int a = 0; a < d; ++a)
                    {
                        int b = d - 1 - a;
                        if (!is_bin(o.k) && a != d - 1) continue;
                        for (int x : level[a])
                        {
                            if ((int)(idx++ % jobs) != w) continue;
                            auto body = [&](int y) {
                                sh->cur[w][0] = 1; sh->cur[w][1] = oi; sh->cur[w][2] = x; sh->cur[w][3] = (u64)(y + 1);
                                S s{};
                                ++T;
                                ++sh->done[w];
                                if (!step(o, x, y, s)) { ++SK; return; }
                                char const* why = nullptr;
                                ++CH;
                                if (!agree(s.r, s.v, why)) report(show(o.k, o.p, show(x), y >= 0 ? show(y) : ""), why);
                            };
                            if (is_bin(o.k)) for (int y : level[b]) body(y);
                            else body(-1);
                        }
                    }
                }
            }
            else
            {
                std::vector<int> all;
                for (auto& l : level) for (int x : l) all.push_back(x);
                for (int x : all)
                {
                    if ((int)(idx++ % jobs) != w) continue;
                    for (int y : all)
                    {
                        sh->cur[w][0] = 2; sh->cur[w][2] = x; sh->cur[w][3] = (u64)(y + 1);
                        ++T; ++sh->done[w];
                        detail::rpne<A, 2 * CAP + 2> cat;
                        cat.append_as_se(st[x].r);
                        cat.append_as_se(st[y].r);
                        auto reshaped = detail::rpn_reshape(cat);
                        std::vector<V> res;
                        char const* why = execute(reshaped, res);
                        ++CH;
                        if (!why && (res.size() != 2 || res[0] != st[x].v || res[1] != st[y].v)) why = "different value";
                        if (why) report("(tuple " + show(x) + " " + show(y) + ")", why);
                    }
                }
            }
            sh->cur[w][0] = 0;
            sh->trans[w] = T; sh->skipped[w] = SK; sh->states[w] = CH; sh->cand[w] = CA;
            fflush(stdout);
            _exit(0);
        }
        kids.push_back(pid);
    }
    // watch for crashes and stalls
    std::vector<u64> last(jobs, 0);
    std::vector<int> idle(jobs, 0);
    std::vector<bool> gone(jobs, false);
    int left = jobs;
    while (left)
    {
        for (int w = 0; w < jobs; ++w)
        {
            if (gone[w]) continue;
            int status = 0;
            pid_t r = waitpid(kids[w], &status, WNOHANG);
            bool bad = false;
            if (r == kids[w])
            {
                gone[w] = true;
                --left;
                bad = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
            }
            else if (sh->done[w] == last[w] && ++idle[w] > 600)
            {
                kill(kids[w], SIGKILL);
                waitpid(kids[w], &status, 0);
                gone[w] = true;
                --left;
                bad = true;
            }
            else if (sh->done[w] != last[w]) { last[w] = sh->done[w]; idle[w] = 0; }
            if (bad && sh->cur[w][0])
            {
                int x = (int)sh->cur[w][2], y = (int)sh->cur[w][3] - 1;
                ++cands;
                if (sh->cur[w][0] == 2) printf("C (tuple %s %s) # crash\n", show(x).c_str(), show(y).c_str());
                else { Op o = ops[sh->cur[w][1]]; printf("C %s # crash\n", show(o.k, o.p, show(x), y >= 0 ? show(y) : "").c_str()); }
            }
        }
        if (left) { timespec ts{0, 50000000}; nanosleep(&ts, nullptr); }
    }
    for (int w = 0; w < jobs; ++w) { transitions += sh->trans[w]; skipped += sh->skipped[w]; checked += sh->states[w]; cands += sh->cand[w]; }
    std::string lv;
    for (auto& l : level) lv += " " + std::to_string(l.size());
    printf("STATS states %llu transitions %llu duplicates %llu skipped %llu candidates %llu stored%s\n", checked, transitions, dup, skipped, cands, lv.c_str());
    // a few sample states for the evidence
    for (size_t j = leaves.size(), c = 0; j < st.size() && c < 3; j += st.size() / 3 + 1, ++c) printf("SAMPLE %s\n", show((int)j).c_str());
    return 0;
}
