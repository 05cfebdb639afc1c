// A stateless model checker for evaluations running concurrently or one after another.
//
// The generated programs are compiled with the compiler's memory access instrumentation and linked with this
// runtime in place of the thread sanitizer's.  Every access to memory outside the running thread's own stack is
// recorded.  A set of evaluations without conflicting accesses has a single interleaving up to commutation of
// independent steps, so one execution stands for all of them; where there are conflicts, every interleaving of the
// conflicting accesses with up to BOUND preemptions is executed and its results compared with those of each
// evaluation run alone in a fresh process.
#include "sched.hpp"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using vf::Out;
using u64 = unsigned long long;

namespace
{
constexpr size_t stack_size = 8u << 20;
constexpr int max_steps     = 20000; // scheduling points per execution
constexpr int fair          = 300;   // a thread running this long without a switch gives way

struct Th
{
    int id      = 0;
    char* lo    = nullptr;
    char* hi    = nullptr;
    bool done   = false;
    int prog    = 0;
    int point   = 0;
    Out* out    = nullptr;
    std::vector<std::pair<int, int>> const* seq = nullptr;
    sem_t go;
};

thread_local Th* me = nullptr;
thread_local int busy = 0;

enum
{
    record,
    schedule
} mode
    = record;

// --- shared between parent and forked executions
struct Shared
{
    int finished;            // execution ran to its end
    int points;              // scheduling points met
    int decided[max_steps];  // 0 = stay, 1 = switch, 2 = no choice
    int nread, nwrite;
    u64 reads[1 << 16];
    u64 writes[1 << 16];
    Out outs[4];
};
Shared* sh;

std::set<u64>* rset;
std::set<u64>* wset;
std::vector<u64> conflict; // granules (8 bytes), sorted

Th ths[2];
std::vector<int> prefix;
int since = 0;
sem_t main_go;

double const* g_pts;
int g_stride, g_npts;
vf::Entry const* g_es;

void give(Th& t)
{
    sem_post(&t.go);
}

// current thread stops, the other one continues
void handover(Th& self, Th& other)
{
    since = 0;
    give(other);
    while (sem_wait(&self.go) != 0) {}
}

void point()
{
    Th& self  = *me;
    Th& other = ths[1 - self.id];
    if (sh->points >= max_steps)
    {
        _exit(7);
    }
    int n   = sh->points++;
    int d   = 0;
    if (other.done)
    {
        d = 2;
    }
    else if (n < static_cast<int>(prefix.size()))
    {
        d = prefix[n] == 1 ? 1 : 0;
    }
    else if (++since > fair)
    {
        // not counted as a choice: fairness
        sh->decided[n] = 2;
        handover(self, other);
        return;
    }
    sh->decided[n] = d;
    if (d == 1)
    {
        handover(self, other);
    }
}

// wait for something only the other thread can do
bool forced()
{
    if (!me || mode != schedule)
    {
        return false;
    }
    Th& self  = *me;
    Th& other = ths[1 - self.id];
    if (other.done)
    {
        return false;
    }
    handover(self, other);
    return true;
}

void access(void const* p, size_t n, bool w)
{
    Th* t = me;
    if (!t || busy)
    {
        return;
    }
    auto a = reinterpret_cast<char const*>(p);
    if (a >= t->lo && a < t->hi)
    {
        return;
    }
    ++busy;
    u64 g0 = reinterpret_cast<u64>(p) >> 3, g1 = (reinterpret_cast<u64>(p) + (n ? n - 1 : 0)) >> 3;
    if (mode == record)
    {
        for (u64 g = g0; g <= g1; ++g)
        {
            (w ? wset : rset)->insert(g);
        }
        --busy;
        return;
    }
    bool hit = false;
    for (u64 g = g0; g <= g1 && !hit; ++g)
    {
        hit = std::binary_search(conflict.begin(), conflict.end(), g);
    }
    --busy;
    if (hit)
    {
        point();
    }
}
} // namespace

extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
#define RW(N)                                                                                                        \
    void __tsan_read##N(void* p) { access(p, N, false); }                                                            \
    void __tsan_write##N(void* p) { access(p, N, true); }                                                            \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false); }                                                  \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true); }                                                  \
    void __tsan_volatile_read##N(void* p) { access(p, N, false); }                                                   \
    void __tsan_volatile_write##N(void* p) { access(p, N, true); }                                                   \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false); }                                         \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true); }                                         \
    void __tsan_read_write##N(void* p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void* __tsan_memcpy(void* d, void const* s, unsigned long n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, void const* s, unsigned long n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { access(d, n, true); return memset(d, c, n); }
#define AT(N, T)                                                                                                     \
    T __tsan_atomic##N##_load(T const volatile* a, int) { access(const_cast<T*>(a), sizeof(T), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_exchange(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_sub(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_and(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_or(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_xor(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_nand(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(T volatile* a, T* c, T v, int, int) { access(const_cast<T*>(a), sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(T volatile* a, T* c, T v, int, int) { access(const_cast<T*>(a), sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_compare_exchange_val(T volatile* a, T c, T v, int, int) { access(const_cast<T*>(a), sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// initialisation of function-local statics: byte 0 = initialised, byte 1 = in progress
int __cxa_guard_acquire(unsigned char* g)
{
    access(g, 1, true);
    while (true)
    {
        if (g[0]) { return 0; }
        if (!g[1]) { g[1] = 1; return 1; }
        if (!forced()) { return 1; }
    }
}
void __cxa_guard_release(unsigned char* g)
{
    access(g, 1, true);
    g[1] = 0;
    __atomic_store_n(g, static_cast<unsigned char>(1), __ATOMIC_SEQ_CST);
}
void __cxa_guard_abort(unsigned char* g) { g[1] = 0; }

// mutexes taken by the code under test are modelled by waiting for the other thread to release them
static std::map<pthread_mutex_t*, int>& held()
{
    static std::map<pthread_mutex_t*, int> m;
    return m;
}
extern int __pthread_mutex_lock(pthread_mutex_t*) __attribute__((weak));
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (me && mode == schedule && !busy)
    {
        ++busy;
        auto& h = held();
        --busy;
        while (h[m] && h[m] != me->id + 1)
        {
            if (!forced()) { break; }
        }
        ++busy;
        h[m] = me->id + 1;
        --busy;
    }
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (me && mode == schedule && !busy)
    {
        ++busy;
        held()[m] = 0;
        --busy;
    }
    return 0;
}
}

namespace
{
void* body(void* arg)
{
    Th& t = *static_cast<Th*>(arg);
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void* lo;
    size_t n;
    pthread_attr_getstack(&at, &lo, &n);
    t.lo = static_cast<char*>(lo);
    t.hi = t.lo + n;
    if (mode == schedule)
    {
        while (sem_wait(&t.go) != 0) {}
    }
    if (mode == record)
    {
        for (size_t i = 0; i != t.seq->size(); ++i)
        {
            Out o;
            o.n = 0;
            me  = &t;
            g_es[(*t.seq)[i].first].fn(g_pts + (*t.seq)[i].second * g_stride, o);
            me               = nullptr;
            sh->outs[i % 4] = o;
        }
        return nullptr;
    }
    Out o;
    o.n = 0;
    me  = &t;
    g_es[t.prog].fn(g_pts + t.point * g_stride, o);
    me     = nullptr;
    *t.out = o;
    t.done = true;
    Th& other = ths[1 - t.id];
    since     = 0;
    sem_post(other.done ? &main_go : &other.go);
    return nullptr;
}

void spawn(pthread_t& h, Th& t)
{
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, stack_size);
    if (pthread_create(&h, &at, body, &t) != 0)
    {
        _exit(9);
    }
}

bool same(Out const& a, Out const& b)
{
    if (a.n != b.n)
    {
        return false;
    }
    for (int i = 0; i != a.n; ++i)
    {
        if (a.res[i] != b.res[i] || a.el[i] != b.el[i]
            || !(a.val[i] == b.val[i] || (a.val[i] != a.val[i] && b.val[i] != b.val[i])))
        {
            return false;
        }
    }
    return true;
}

void limits()
{
    alarm(20);
}

// Run evaluations one after another in one thread of a fresh process; record accesses.
// Returns the wait status.
int run_sequence(std::vector<std::pair<int, int>> const& seq)
{
    sh->finished = 0;
    sh->nread = sh->nwrite = 0;
    pid_t pid = fork();
    if (pid < 0)
    {
        return 9 << 8;
    }
    if (pid == 0)
    {
        limits();
        mode = record;
        rset = new std::set<u64>;
        wset = new std::set<u64>;
        ths[0].seq = &seq;
        pthread_t h;
        spawn(h, ths[0]);
        pthread_join(h, nullptr);
        for (u64 g : *rset)
        {
            if (sh->nread < (1 << 16)) { sh->reads[sh->nread++] = g; }
        }
        for (u64 g : *wset)
        {
            if (sh->nwrite < (1 << 16)) { sh->writes[sh->nwrite++] = g; }
        }
        sh->finished = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return st;
}

// Run two evaluations concurrently, following `pre`
int run_schedule(std::pair<int, int> a, std::pair<int, int> b, int first, std::vector<int> const& pre)
{
    sh->finished = 0;
    sh->points   = 0;
    pid_t pid    = fork();
    if (pid < 0)
    {
        return 9 << 8;
    }
    if (pid == 0)
    {
        limits();
        mode   = schedule;
        prefix = pre;
        since  = 0;
        std::pair<int, int> pr[2] = {a, b};
        sem_init(&main_go, 0, 0);
        for (int i = 0; i != 2; ++i)
        {
            ths[i].id    = i;
            ths[i].done  = false;
            ths[i].prog  = pr[i].first;
            ths[i].point = pr[i].second;
            ths[i].out   = &sh->outs[i];
            sem_init(&ths[i].go, 0, 0);
        }
        pthread_t h[2];
        spawn(h[0], ths[0]);
        spawn(h[1], ths[1]);
        give(ths[first]);
        while (sem_wait(&main_go) != 0) {}
        sh->finished = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return st;
}

struct Solo
{
    bool ok = false;
    Out out;
    std::set<u64> r, w;
};

long total_schedules = 0, total_histories = 0, total_conflicts = 0, truncated = 0, inconclusive = 0;

void violation(int p, char const* kind, std::string const& what)
{
    std::printf("V %d %s %s\n", p, kind, what.c_str());
    std::fflush(stdout);
}

std::string text(Out const& o)
{
    std::string s = "{";
    char b[96];
    for (int i = 0; i != o.n && i < 12; ++i)
    {
        std::snprintf(b, sizeof b, "%s%d:%u=%.12g", i ? " " : "", o.res[i], o.el[i], o.val[i]);
        s += b;
    }
    return s + "}";
}
} // namespace

int main(int argc, char** argv)
{
    int bound  = argc > 1 ? std::atoi(argv[1]) : 2;
    int cap    = argc > 2 ? std::atoi(argv[2]) : 2000;
    double lim = argc > 3 ? std::atof(argv[3]) : 60;
    g_es       = vf::entries();
    int n      = vf::entry_count();
    g_pts      = vf::point_table();
    g_npts     = vf::point_count();
    g_stride   = vf::point_stride();
    auto start = std::chrono::steady_clock::now();
    auto spent = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count(); };
    sh         = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED)
    {
        return 8;
    }
    int K = std::min(3, g_npts);
    std::vector<std::vector<Solo>> solo(n, std::vector<Solo>(K));
    std::vector<int> writers;
    int bad = 0;
    for (int i = 0; i != n; ++i)
    {
        for (int k = 0; k != K; ++k)
        {
            int st = run_sequence({{i, k}});
            auto& s = solo[i][k];
            s.ok    = st == 0 && sh->finished;
            if (s.ok)
            {
                s.out = sh->outs[0];
                s.r.insert(sh->reads, sh->reads + sh->nread);
                s.w.insert(sh->writes, sh->writes + sh->nwrite);
            }
            else
            {
                ++inconclusive;
            }
        }
        // histories: again and with other inputs in between, in one process
        bool writes = false;
        for (auto& s : solo[i]) { writes = writes || !s.w.empty(); }
        std::vector<std::vector<int>> seqs;
        if (K == 3 && writes)
        {
            for (int c = 0; c != 27; ++c) { seqs.push_back({c / 9, c / 3 % 3, c % 3}); }
        }
        else
        {
            seqs = {{0, 1 % K, 0}, {1 % K, 0, K - 1}};
        }
        for (auto& q : seqs)
        {
            std::vector<std::pair<int, int>> seq;
            bool ok = true;
            for (int k : q) { seq.push_back({i, k}); ok = ok && solo[i][k].ok; }
            if (!ok) { continue; }
            int st = run_sequence(seq);
            ++total_histories;
            if ((WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) || (WIFEXITED(st) && WEXITSTATUS(st) != 0))
            {
                ++inconclusive;
                continue;
            }
            if (st != 0 || !sh->finished)
            {
                ++bad;
                violation(i, "history", "evaluating at points " + std::to_string(q[0]) + "," + std::to_string(q[1]) + "," + std::to_string(q[2]) + " one after another does not end normally");
                break;
            }
            bool br = false;
            for (size_t j = 0; j != seq.size() && !br; ++j)
            {
                if (!same(sh->outs[j], solo[i][q[j]].out))
                {
                    ++bad;
                    br = true;
                    violation(i, "history", "evaluating at points " + std::to_string(q[0]) + "," + std::to_string(q[1]) + "," + std::to_string(q[2]) + " one after another: evaluation " + std::to_string(j) + " gives " + text(sh->outs[j]) + ", alone it gives " + text(solo[i][q[j]].out));
                }
            }
            if (br) { break; }
            for (int j = 0; j != sh->nwrite; ++j) { solo[i][0].w.insert(sh->writes[j]); writes = true; }
            for (int j = 0; j != sh->nread; ++j) { solo[i][0].r.insert(sh->reads[j]); }
        }
        if (writes) { writers.push_back(i); }
        std::printf("P %d %zu\n", i, solo[i][0].w.size());
        std::fflush(stdout);
        if (bad >= 4 || spent() > lim) { break; }
    }
    // concurrent evaluations: pairs of evaluations with at least one of them writing to shared memory; the others
    // commute.  One execution each validates that on the implementation.
    auto explore = [&](int i, int k, int j, int l) {
        if (!solo[i][k].ok || !solo[j][l].ok) { return; }
        std::set<u64> c;
        auto cross = [&](std::set<u64> const& w, Solo const& o) {
            for (u64 g : w) { if (o.r.count(g) || o.w.count(g)) { c.insert(g); } }
        };
        cross(solo[i][k].w, solo[j][l]);
        cross(solo[j][l].w, solo[i][k]);
        // what either writes after a history counts as well
        cross(solo[i][0].w, solo[j][0]);
        cross(solo[j][0].w, solo[i][0]);
        conflict.assign(c.begin(), c.end());
        total_conflicts += static_cast<long>(c.size());
        long done = 0;
        for (int first = 0; first != 2; ++first)
        {
            // prefixes with fewer preemptions first
            std::vector<std::vector<std::vector<int>>> todo(bound + 1);
            todo[0].push_back({});
            for (int b = 0; b <= bound; ++b)
            {
                for (size_t t = 0; t != todo[b].size(); ++t)
                {
                    if (done >= cap || spent() > lim) { ++truncated; return; }
                    auto pre = todo[b][t];
                    int st   = run_schedule({i, k}, {j, l}, first, pre);
                    ++done;
                    ++total_schedules;
                    char where[64];
                    int sw = 0;
                    for (int d : pre) { sw += d; }
                    std::snprintf(where, sizeof where, "thread %d first, %d preemption(s)", first, sw);
                    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { ++inconclusive; continue; }
                    if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { ++inconclusive; continue; }
                    if (st != 0 || !sh->finished)
                    {
                        ++bad;
                        violation(i, "interleaving", std::string(where) + ": crashes");
                        return;
                    }
                    if (!same(sh->outs[0], solo[i][k].out) || !same(sh->outs[1], solo[j][l].out))
                    {
                        ++bad;
                        bool f = !same(sh->outs[0], solo[i][k].out);
                        std::string sched;
                        for (size_t q = 0; q != pre.size(); ++q) { if (pre[q] == 1) { sched += " " + std::to_string(q); } }
                        violation(i, "interleaving", std::string(where) + " at conflicting access" + sched + ", with program " + std::to_string(j) + ": thread " + (f ? "0" : "1") + " gives " + text(sh->outs[f ? 0 : 1]) + ", alone it gives " + text(f ? solo[i][k].out : solo[j][l].out));
                        return;
                    }
                    if (b < bound)
                    {
                        int m = std::min(sh->points, max_steps);
                        std::vector<int> dec(sh->decided, sh->decided + m);
                        for (int q = static_cast<int>(pre.size()); q < m; ++q)
                        {
                            if (dec[q] != 0) { continue; }
                            std::vector<int> nx(dec.begin(), dec.begin() + q);
                            for (int& d : nx) { d = d == 1 ? 1 : 0; }
                            nx.push_back(1);
                            todo[b + 1].push_back(nx);
                        }
                    }
                }
            }
        }
    };
    for (int i = 0; i != n && bad < 4; ++i)
    {
        explore(i, 0, i, 1 % K);
    }
    for (size_t x = 0; x != writers.size() && bad < 4; ++x)
    {
        for (int j = 0; j != n && bad < 4; ++j)
        {
            if (j != writers[x]) { explore(writers[x], 0, j, 1 % K); }
        }
    }
    // one history through every program, forwards, and backwards
    for (int dir = 0; dir != 2 && bad < 4; ++dir)
    {
        for (int i = 0; i + 3 < n && bad < 4; i += 4)
        {
            std::vector<std::pair<int, int>> seq;
            bool ok = true;
            for (int j = 0; j != 4; ++j)
            {
                int q = dir ? i + 3 - j : i + j;
                seq.push_back({q, 0});
                ok = ok && solo[q][0].ok;
            }
            if (!ok || run_sequence(seq) != 0) { continue; }
            ++total_histories;
            for (int j = 0; j != 4; ++j)
            {
                if (!same(sh->outs[j], solo[seq[j].first][0].out))
                {
                    ++bad;
                    violation(seq[j].first, "history", "after other programs: gives " + text(sh->outs[j]) + ", alone it gives " + text(solo[seq[j].first][0].out));
                }
            }
        }
    }
    std::printf("T %d %zu %ld %ld %ld %ld %ld\n", n, writers.size(), total_conflicts, total_schedules, total_histories, truncated, inconclusive);
    return 0;
}
