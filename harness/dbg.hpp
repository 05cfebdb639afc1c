#pragma once
// C23: reads the text of an expression back as a postfix program, evaluates symbolic multivectors at the inputs.
// Its own little Clifford algebra, independent of the library.
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

namespace vf
{
struct Space
{
    int dim;
    int sq[8];
};

struct Mv
{
    double c[256] = {};
};

inline int bits(unsigned x) { return __builtin_popcount(x); }

struct Alg
{
    Space s;
    unsigned n() const { return 1u << s.dim; }
    // sign of the product of two blades, counting transpositions one generator at a time
    double sign(unsigned a, unsigned b, bool metric) const
    {
        double r = 1;
        for (int i = 0; i != s.dim; ++i)
        {
            if (!(b >> i & 1)) continue;
            if (bits(a >> (i + 1)) & 1) r = -r;
            if (a >> i & 1) r *= metric ? s.sq[i] : 0;
            a ^= 1u << i;
        }
        return r;
    }
    template <typename F>
    Mv product(Mv const& x, Mv const& y, F keep, bool metric = true) const
    {
        Mv r;
        for (unsigned a = 0; a != n(); ++a)
            for (unsigned b = 0; b != n(); ++b)
                if (x.c[a] != 0 && y.c[b] != 0 && keep(bits(a), bits(b), bits(a ^ b))) r.c[a ^ b] += sign(a, b, metric) * x.c[a] * y.c[b];
        return r;
    }
    Mv gp(Mv const& x, Mv const& y) const { return product(x, y, [](int, int, int) { return true; }); }
    Mv ep(Mv const& x, Mv const& y) const { return product(x, y, [](int, int, int) { return true; }, false); }
    Mv lc(Mv const& x, Mv const& y) const { return product(x, y, [](int a, int b, int r) { return r == b - a; }); }
    Mv sip(Mv const& x, Mv const& y) const { return product(x, y, [](int a, int b, int r) { return a && b && r == std::abs(a - b); }); }
    Mv rev(Mv x) const { for (unsigned a = 0; a != n(); ++a) if (bits(a) / 2 % 2) x.c[a] = -x.c[a]; return x; }
    Mv dual(Mv const& x) const { Mv r; for (unsigned a = 0; a != n(); ++a) r.c[n() - 1 - a] = x.c[a] * sign(a, n() - 1 - a, false); return r; }
    Mv grade(Mv x, int g) const { for (unsigned a = 0; a != n(); ++a) if (bits(a) != g) x.c[a] = 0; return x; }
};

inline Mv scaled(Mv x, double q) { for (double& v : x.c) v *= q; return x; }
inline Mv added(Mv x, Mv const& y) { for (int i = 0; i != 256; ++i) x.c[i] += y.c[i]; return x; }
inline Mv scalar_mv(double v) { Mv r; r.c[0] = v; return r; }

struct Token
{
    std::string name;
    std::vector<double> num;
};

// "name(1/2 count: 3)" -> name and its numbers; words without parentheses are names
inline std::vector<Token> tokens(std::string const& t, size_t i)
{
    std::vector<Token> r;
    while (i < t.size())
    {
        if (std::isspace((unsigned char)t[i])) { ++i; continue; }
        Token k;
        char close = 0;
        if (t[i] == '[' || (t[i] == '<' && i + 1 < t.size() && std::isdigit((unsigned char)t[i + 1]))) { k.name = t[i]; close = t[i] == '[' ? ']' : '>'; ++i; }
        else
        {
            while (i < t.size() && !std::isspace((unsigned char)t[i]) && t[i] != '(') k.name += t[i++];
            if (i < t.size() && t[i] == '(') { close = ')'; ++i; }
        }
        if (close)
        {
            while (i < t.size() && t[i] != close)
            {
                char* e;
                double v = std::strtod(t.c_str() + i, &e);
                if (e != t.c_str() + i) { k.num.push_back(v); i = e - t.c_str(); }
                else ++i;
            }
            ++i;
        }
        r.push_back(k);
    }
    return r;
}

struct View
{
    Alg a;
    std::map<long, Mv> in;   // by identifier of the first component
    std::vector<double> data; // values by identifier
    std::vector<Mv> temps;
    char const* err = nullptr;

    template <typename E>
    void input(E const& e, Mv const& v)
    {
        in[(long)data.size()] = v;
        for (size_t i = 0; i != E::size(); ++i) data.push_back((double)e[i]);
    }
    void number(double v) { in[(long)data.size()] = scalar_mv(v); data.push_back(v); }

    bool run(std::vector<Token> const& k, std::vector<Token> const& full, size_t i, size_t l, std::vector<Mv>& st)
    {
        for (; i < l; ++i)
        {
            Token const& t = k[i];
            auto at = [&](size_t j) { return j < t.num.size() ? t.num[j] : 0.0; };
            auto need = [&](size_t m) { if (st.size() < m) err = "operands missing"; return !err; };
            if (t.name == "id")
            {
                auto f = in.find((long)at(0));
                if (f == in.end()) { err = "unknown input"; return false; }
                st.push_back(f->second);
            }
            else if (t.name == "cse") { if (at(0) >= temps.size()) { err = "unknown temporary"; return false; } st.push_back(temps[(size_t)at(0)]); }
            else if (t.name == "se")
            {
                size_t c = (size_t)at(2);
                if (t.num.size() != 3 || i + 1 + c > l) { err = "bad subexpression"; return false; }
                std::vector<Mv> sub;
                if (!run(k, full, i + 1, i + 1 + c, sub)) return false;
                if (sub.size() != 1) { err = "a subexpression leaves more or less than one value"; return false; }
                st.push_back(at(0) != 0 ? scaled(sub[0], at(0) / at(1)) : sub[0]);
                i += c;
            }
            else if (t.name == "noop") { if (!need(1)) return false; temps.push_back(st.back()); st.pop_back(); }
            else if (t.name == "~") { if (!need(1)) return false; st.back() = a.rev(st.back()); }
            else if (t.name == "!") { if (!need(1)) return false; st.back() = a.dual(st.back()); }
            else if (t.name == "+" || t.name == "^")
            {
                if (full[i].name != t.name || full[i].num.size() != 2) { err = "the two texts differ"; return false; }
                size_t c = (size_t)full[i].num[0];
                if (!c || !need(c)) return false;
                Mv v = st[st.size() - c];
                for (size_t j = st.size() - c + 1; j < st.size(); ++j) v = t.name == "+" ? added(v, st[j]) : a.ep(v, st[j]);
                st.resize(st.size() - c);
                st.push_back(v);
            }
            else if (t.name == "*" || t.name == "<<" || t.name == "|" || t.name == "/")
            {
                if (!need(2)) return false;
                Mv y = st.back(); st.pop_back();
                Mv x = st.back();
                st.back() = t.name == "*" ? a.gp(x, y) : t.name == "<<" ? a.lc(x, y) : t.name == "|" ? a.sip(x, y) : scaled(x, at(0) / at(1) / y.c[0]);
            }
            else if (t.name == "sqrt" || t.name == "sin" || t.name == "cos" || t.name == "tan")
            {
                if (!need(1)) return false;
                double v = st.back().c[0] * at(0) / at(1);
                st.back() = scalar_mv(t.name == "sqrt" ? std::sqrt(v) : t.name == "sin" ? std::sin(v) : t.name == "cos" ? std::cos(v) : std::tan(v));
            }
            else if (t.name == "[") { if (!need(1)) return false; st.back() = scalar_mv(st.back().c[(int)at(0) & 255]); }
            else if (t.name == "<") { if (!need(1)) return false; st.back() = a.grade(st.back(), (int)at(0)); }
            else if (t.name == "0") st.push_back(Mv{});
            else if (t.name == "pi") st.push_back(scalar_mv(M_PI));
            else if (t.name == "e") st.push_back(scalar_mv(M_E));
            else if (t.name.compare(0, 2, "e_") == 0) { Mv v; v.c[std::atoi(t.name.c_str() + 2) & 255] = 1; st.push_back(v); }
            else { err = "unknown word"; return false; }
        }
        return true;
    }

    // the value the text denotes; status row: 0 if it could be read
    template <typename R>
    void text(Out& o, int row, int results, R const& r)
    {
        std::string plain = ::gal::to_string(r), sums = ::gal::to_string(r, true), lines = ::gal::to_string(r, false, true);
        std::vector<Mv> st;
        err = nullptr;
        temps.clear();
        long count = std::atol(plain.c_str());
        size_t c = plain.find(':'), m = plain.find('*', c);
        double q = 1;
        if (c == std::string::npos || m == std::string::npos) err = "heading";
        else
        {
            char* e;
            double num = std::strtod(plain.c_str() + c + 1, &e);
            double den = *e == '/' ? std::strtod(e + 1, nullptr) : 0;
            q = num / den;
            auto k = tokens(plain, m + 1), f = tokens(sums, sums.find('*', sums.find(':')) + 1);
            if ((long)k.size() != count || f.size() != k.size()) err = "number of nodes";
            // the numbered form is the same words, one to a line
            std::string joined;
            size_t p = lines.find('\n'), i = 0;
            while (!err && p != std::string::npos && p + 1 < lines.size() && lines[p + 1] != '\n')
            {
                std::string head = "[" + std::to_string(i++) + "] - ";
                if (lines.compare(p + 1, head.size(), head) != 0) { err = "numbering"; break; }
                size_t s = p + 1 + head.size();
                p = lines.find('\n', s);
                joined += lines.substr(s, p == std::string::npos ? p : p - s);
            }
            if (!err)
            {
                auto j = tokens(joined, 0);
                bool same = j.size() == k.size();
                for (size_t n = 0; same && n != j.size(); ++n) same = j[n].name == k[n].name && j[n].num == k[n].num;
                if (!same) err = "numbered form";
            }
            if (!err) run(k, f, 0, k.size(), st);
            if (!err && count == 0) st.push_back(Mv{});
            if (!err && (int)st.size() != results) err = "number of results";
        }
        if (err) { for (int i = 0; i != results; ++i) o.put(row + i, 1000, 1); return; }
        for (int i = 0; i != results; ++i) put(o, row + i, scaled(st[i], q));
    }

    void put(Out& o, int row, Mv const& v) { for (unsigned e = 0; e != a.n(); ++e) if (v.c[e] != 0) o.put(row, e, v.c[e]); }

    template <typename M>
    void symbolic(Out& o, int row, M const& m, double q)
    {
        Mv v;
        for (auto t = m.cbegin(); t != m.cend(); ++t)
            for (auto j = t.cbegin(); j != t.cend(); ++j)
            {
                double x = (double)j->q.num / j->q.den;
                for (auto i = j.cbegin(); i != j.cend(); ++i)
                {
                    unsigned long id = i->id;
                    double b = id < data.size() ? data[id] : id == ::gal::detail::pi_ind ? M_PI : id == ::gal::detail::e_ind ? M_E : std::nan("");
                    x *= std::pow(b, (double)i->degree.num / i->degree.den);
                }
                v.c[t->element & 255] += x;
            }
        put(o, row, scaled(v, q));
    }
};

template <typename A, typename T, gal::elem_t... E>
Mv dense(gal::entity<A, T, E...> const& x)
{
    Out o;
    emit(o, 0, x);
    Mv r;
    for (int i = 0; i != o.n; ++i) r.c[o.el[i] & 255] += o.val[i];
    return r;
}
} // namespace vf
