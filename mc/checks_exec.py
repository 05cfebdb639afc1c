"""C21: run-time evaluation is well defined - the programs of all the other checks under every build configuration."""
import time
import numpy as np
from .e2e import Failure, Raw, Runner, points
from .ctx import defined

COMMON = ['-std=c++17', '-w', '-ftemplate-depth=2000']
GCC = COMMON + ['-fconstexpr-ops-limit=200000000', '-fconstexpr-loop-limit=10000000']
CLANG = COMMON + ['-fconstexpr-steps=200000000', '-fbracket-depth=2000']


def fused():
    """the README recommends -ffast-math and -mfma together; the latter needs a processor that has them"""
    try:
        return ['-mfma'] if ' fma ' in open('/proc/cpuinfo').read() else []
    except OSError:
        return []


# (name, compiler, flags)
CONFIGS = [
    ('g++ -O2', 'g++', GCC + ['-O2']),
    ('g++ address and undefined behaviour sanitizers', 'g++', GCC + ['-O0', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-var-tracking']),
    ('g++ -O2 -ffast-math', 'g++', GCC + ['-O2', '-ffast-math'] + fused()),
    ('clang++ -O2', 'clang++', CLANG + ['-O2']),
    ('clang++ memory sanitizer', 'clang++', CLANG + ['-O1', '-fsanitize=memory', '-fno-sanitize-recover=all']),
]
MORE = [
    ('g++ -O3 -march=native', 'g++', GCC + ['-O3', '-march=native']),
    ('clang++ address and undefined behaviour sanitizers', 'clang++', CLANG + ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    ('clang++ -O3 -ffast-math', 'clang++', CLANG + ['-O3', '-ffast-math'] + fused()),
    ('clang++ -O0', 'clang++', CLANG + ['-O0']),
    ('g++ -O0, C++20', 'g++', ['-std=c++20' if f == '-std=c++17' else f for f in GCC] + ['-O0']),
]


_WIDE = {}
EXEC = ('C21', 'C22', 'C23', 'C24', 'C25')      # these run the programs of the others


class Collector:
    """stands in for Ctx: keeps, of every group of programs of another check, `per` evenly spaced ones"""
    quick = True

    def __init__(self, per):
        self.per, self.progs, self.groups, self.total = per, [], 0, 0

    def pick(self, q, t):
        return q

    def done(self):
        return False

    def run(self, what, progs, npts=6, chunk=40):
        self.groups += 1
        self.total += len(progs)
        ps = progs if len(progs) <= self.per else [progs[(i * len(progs)) // self.per] for i in range(self.per)]
        for p in ps:
            if not defined(p):
                continue
            if isinstance(p, Raw):
                # the oracle of a hand written program is evaluated here, while its surroundings are as it expects them
                if p.pts is None:
                    n = max(1, p.arity)
                    p.pts = _WIDE.setdefault((n, p.scale), points(n, 3, p.scale))
                with np.errstate(all='ignore'):
                    v = p.reff(np.asarray(p.pts, dtype=float))
                p.reff = (lambda v: lambda P: v)(v)
            self.progs.append(p)

    def explore(self, *a, **k):
        return True

    def rpn(self, *a, **k):
        pass


def c21(x):
    from .checks import CHECKS
    ps, ngroups, total = [], 0, 0
    for pid in sorted(CHECKS):
        if pid in EXEC:
            continue
        c = Collector(x.pick(4, 40))
        CHECKS[pid](c)
        for p in c.progs:
            ps.append((pid, p))
        ngroups += c.groups
        total += c.total
    for j, (name, cxx, flags) in enumerate(CONFIGS + x.pick([], MORE)):
        if x.done():
            return
        r = Runner(npts=3, chunk=24, cxx=cxx, flags=flags, deadline=x.limit, soft=cxx != 'g++')
        t = time.time()
        # the memory sanitizer does not know the library's string streams: leave the text output out
        r.run([p for q, p in ps if not ('memory' in name and q == 'C20')])
        for f in r.fail[:4]:
            x.report('%s: %s: %s: %s' % (name, f.prog.text(), f.kind, f.detail.splitlines()[0] if f.detail else ''),
                     '// configuration: %s %s\n' % (cxx, ' '.join(flags)) + r.replay_source(f), 'cpp')
        x.notes += ['%s: %s' % (name, d) for d in r.degraded]
        if r.skipped:
            x.complete = False
            x.notes.append('%s: %d programs not explored' % (name, r.skipped))
        x.states += r.stats['programs']
        x.transitions += r.stats['evaluations']
        x.validated += r.stats['evaluations']
        x.samples += r.samples[:1]
        x.bounds.append('%s: %d programs (of %d in %d groups), %d evaluations, %.1fs' % (name, r.stats['programs'], total, ngroups, r.stats['evaluations'], time.time() - t))
        r.close()


# ------------------------------------------------------------------------------------------------ C22
def pure_programs(x):
    """the value depends on nothing but the arguments: repeated objects, results stored over inputs, temporaries"""
    ps = []

    def raw(note, arity, body, reff):
        ps.append(Raw(body, arity, reff, note, exact=False))
    one = 'vf::emit(o, 0, %s);'
    V3 = lambda P, k: {1: P[:, k], 2: P[:, k + 1], 4: P[:, k + 2]}
    from . import ref
    A, B = ref.ALG['vga'], ref.ALG['pga']

    def wrap(f):
        return lambda P: [A.to_null(f(P))]
    gp = lambda p, q: A.gp(p, q)
    raw('the same object as both arguments', 3, 'using namespace ::gal::vga; vector<T> v{p[0], p[1], p[2]};' + one % 'compute([](auto a, auto b) { return a * b + a; }, v, v)',
        wrap(lambda P: A.add(gp(V3(P, 0), V3(P, 0)), V3(P, 0))))
    raw('a result stored over an argument', 6, 'using namespace ::gal::vga; vector<T> v{p[0], p[1], p[2]}; vector<T> w{p[3], p[4], p[5]}; v = compute([](auto a, auto b) { return 2 * a + b; }, v, w); v = compute([](auto a, auto b) { return a - 3 * b; }, v, w);'
        + one % 'compute([](auto a) { return a; }, v)', wrap(lambda P: {b: 2 * V3(P, 0)[b] + V3(P, 3)[b] - 3 * V3(P, 3)[b] for b in (1, 2, 4)}))
    raw('temporary objects as arguments', 6, 'using namespace ::gal::vga;' + one % 'compute([](auto a, auto b) { return a * b; }, vector<T>{p[0], p[1], p[2]}, vector<T>{p[3], p[4], p[5]})',
        wrap(lambda P: gp(V3(P, 0), V3(P, 3))))
    raw('the arguments change after the evaluation', 6, 'using namespace ::gal::vga; vector<T> v{p[0], p[1], p[2]}; vector<T> w{p[3], p[4], p[5]}; auto r = compute([](auto a, auto b) { return sin((a * b)[0]) * a + b; }, v, w); v.x = 100; w.y = -100;' + one % 'r',
        wrap(lambda P: A.add({b: np.sin(A.gp(V3(P, 0), V3(P, 3)).get(0, 0)) * c for b, c in V3(P, 0).items()}, V3(P, 3))))
    raw('the arguments are left as they were', 6, 'using namespace ::gal::vga; vector<T> v{p[0], p[1], p[2]}; vector<T> w{p[3], p[4], p[5]}; auto r = compute([](auto a, auto b) { return ~(a * b) * (a * b) + sin((a * b)[0]); }, v, w); (void)r;' + one % 'compute([](auto a, auto b) { return a + 2 * b; }, v, w)',
        wrap(lambda P: {b: V3(P, 0)[b] + 2 * V3(P, 3)[b] for b in (1, 2, 4)}))
    raw('the same computation in a loop', 6, 'using namespace ::gal::vga; vector<T> v{p[0], p[1], p[2]}; vector<T> w{p[3], p[4], p[5]}; for (int i = 0; i != 4; ++i) { vector<T> t = compute([](auto a, auto b) { return ((a + b) * (a + b))[0] / 16 * b; }, v, w); v = w; w = t; }'
        + one % 'compute([](auto a, auto b) { return a + b; }, v, w)', wrap(loop4))
    return ps


def loop4(P):
    v = [P[:, 0], P[:, 1], P[:, 2]]
    w = [P[:, 3], P[:, 4], P[:, 5]]
    for _ in range(4):
        s = sum((p + q) ** 2 for p, q in zip(v, w)) / 16
        v, w = w, [s * q for q in w]
    return {1: v[0] + w[0], 2: v[1] + w[1], 4: v[2] + w[2]}


def c22(x):
    from .checks import CHECKS
    from .sched import Sched
    x.run('aliased, temporary and overwritten arguments', pure_programs(x), npts=4)
    if x.done():
        return
    ps = pure_programs(x)
    groups = 0
    for pid in sorted(CHECKS):
        if pid in EXEC:
            continue
        c = Collector(x.pick(12, 60))
        CHECKS[pid](c)
        ps += c.progs
        groups += c.groups
    t = time.time()
    r = Sched(x.pick(2, 3), x.pick(1500, 20000), x.pick(60, 900), chunk=32, deadline=x.limit)
    r.run(ps)
    seen = 0
    for k, (p, kind, what, _) in enumerate(r.found[:4]):
        x.report('%s: %s: %s' % (p.text(), kind, what), r.replay(k), 'cpp')
        seen += 1
    for f in r.fail:
        if f.kind not in ('history', 'interleaving') and seen < 4:
            # not a matter of this property: noted, the other checks report it
            x.notes.append('%s: %s' % (f.prog.text(), f.kind))
            seen += 1
    x.notes += r.degraded
    if r.skipped or r.t['truncated']:
        x.complete = False
        x.notes.append('%d programs not explored, %d pairs with more interleavings than the cap' % (r.skipped, r.t['truncated']))
    if r.t['inconclusive']:
        x.notes.append('%d executions inconclusive (abnormal end of an evaluation run alone, or time out)' % r.t['inconclusive'])
    x.states += r.t['schedules'] + r.t['histories']
    x.transitions += r.t['schedules'] * 2 + r.t['histories'] * 3
    x.validated += r.t['schedules'] + r.t['histories']
    x.bounds.append('%d programs of %d groups: %d write to memory shared between evaluations, %d conflicting locations; %d interleavings (up to %d preemptions), %d histories, %.1fs'
                    % (r.t['programs'], groups, r.t['writers'], r.t['conflicts'], r.t['schedules'], r.bound, r.t['histories'], time.time() - t))
    r.close()


# ------------------------------------------------------------------------------------------------ C24
HPP = ['algebra', 'algorithm', 'cga', 'cga2', 'crc', 'dfa', 'engine', 'entity', 'expr', 'format', 'geometric_algebra', 'null_algebra', 'numeric', 'opt', 'pga', 'pga2', 'stack', 'tuple', 'vga']
USE = '''
namespace { template <typename V> double sum(V const& v) { double s = 0; for (size_t i = 0; i != v.size(); ++i) s += v[i]; return s; } }
double NAME(double k)
{
    gal::vga::vector<double> a{k, 2, 3}, b{4, k, -6};
    gal::pga::plane<double> p{k, 1, 2, 3}, q{4, -1, k, 2};
    gal::cga::point<double> c{k, 2, 3}, d{3, 2, k};
    auto r = gal::vga::compute([](auto a, auto b) { return a * b + 2 * (a ^ b); }, a, b);
    auto s = gal::pga::compute([](auto a, auto b) { return (a ^ b) + sin(a | b); }, p, q);
    auto t = gal::cga::compute([](auto a, auto b) { return a | b; }, c, d);
    return sum(r) + sum(s) + sum(t);
}
'''


def c24(x):
    import os, itertools, subprocess, tempfile, shutil
    from concurrent.futures import ThreadPoolExecutor
    from . import e2e
    from .checks import CHECKS
    hs = [h for h in HPP if os.path.exists(os.path.join(e2e.INC, 'gal', h + '.hpp'))]
    work = tempfile.mkdtemp(prefix='galmc-')
    base = ['-std=c++17', '-w', '-I', e2e.INC]
    try:
        # 1. every header alone, twice, and every ordered pair of headers
        t = time.time()
        orders = [(h,) for h in hs] + list(itertools.product(hs, repeat=2))
        cfg = [('g++', []), ('clang++', ['-DGAL_DEBUG'])] + x.pick([], [('g++', ['-DGAL_DEBUG']), ('clang++', []), ('g++', ['-std=c++20'])])
        jobs = [(cxx, fl, o) for cxx, fl in cfg for o in orders]
        lost = []

        def syntax(job):
            cxx, fl, o = job
            if x.done() or time.time() > x.limit:
                lost.append(job)
                return None
            src = ''.join('#include <gal/%s.hpp>\n' % h for h in o)
            try:
                r = subprocess.run([cxx] + base + fl + ['-fsyntax-only', '-x', 'c++', '-'], input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
            except subprocess.TimeoutExpired:
                lost.append(job)
                return None
            return None if r.returncode == 0 else (job, src, e2e.first_error(r.stdout))
        with ThreadPoolExecutor(e2e.JOBS) as ex:
            bad = [b for b in ex.map(syntax, jobs) if b]
        bad.sort(key=lambda b: len(b[0][2]))
        for (cxx, fl, o), src, err in bad[:4]:
            x.report('%s %s: including %s does not compile: %s' % (cxx, ' '.join(fl), ' then '.join(h + '.hpp' for h in o), err.splitlines()[0] if err else ''), '// %s %s -fsyntax-only\n%s// %s\n' % (cxx, ' '.join(base + fl), src, err.replace('\n', '\n// ')), 'cpp')
        x.states += len(orders)
        x.transitions += len(jobs) - len(lost)
        x.validated += len(jobs) - len(lost)
        x.samples.append('algebra.hpp then vga.hpp, clang++ -DGAL_DEBUG')
        x.bounds.append('headers alone, twice and in every ordered pair: %d orders in %d configurations, %.1fs' % (len(orders), len(cfg), time.time() - t))
        if lost:
            x.complete = False
            x.notes.append('%d include orders not explored' % len(lost))
        # 2. several translation units in one program
        t = time.time()
        n = 0
        for cxx, fl in [('g++', ['-O0']), ('clang++', ['-O0', '-DGAL_DEBUG'])] + x.pick([], [('g++', ['-O2', '-DGAL_DEBUG']), ('clang++', ['-O2'])]):
            if x.done():
                return
            objs, text = [], {}
            rot = [hs, hs[::-1]] + x.pick([], [hs[k:] + hs[:k] for k in range(3, len(hs), 4)])
            for k, o in enumerate(rot):
                text['u%d.cpp' % k] = ''.join('#include <gal/%s.hpp>\n' % h for h in o) + USE.replace('NAME', 'unit%d' % k)
            text['main.cpp'] = '#include <cmath>\n#include <cstdio>\n' + ''.join('double unit%d(double);\n' % k for k in range(len(rot))) + \
                'int main() { int bad = 0; for (int i = -3; i <= 3; ++i) { double v[] = {%s}; for (double w : v) if (!(std::fabs(w - v[0]) <= 1e-9 * (1 + std::fabs(v[0])))) { std::printf("at %%d: %%g and %%g\\n", i, v[0], w); bad = 1; } } return bad; }\n' % ', '.join('unit%d(i)' % k for k in range(len(rot)))
            for f, s in text.items():
                open(os.path.join(work, f), 'w').write(s)
            exe = os.path.join(work, 'prog')
            try:
                r = subprocess.run([cxx] + base + fl + [os.path.join(work, f) for f in text] + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=400)
                what = 'do not compile and link into one program' if r.returncode else None
                if not what:
                    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=60)
                    what = 'disagree' if r.returncode else None
            except subprocess.TimeoutExpired:
                x.complete = False
                x.notes.append('translation units with %s: not explored in time' % cxx)
                continue
            n += len(rot)
            if what:
                x.report('%s %s: translation units including the headers in different orders %s: %s' % (cxx, ' '.join(fl), what, (e2e.first_error(r.stdout).splitlines() or [''])[0]), '\n'.join('// ---- %s\n%s' % kv for kv in text.items()) + '// ' + r.stdout[-2000:].replace('\n', '\n// '), 'cpp')
        x.states += n
        x.transitions += n
        x.validated += n
        x.bounds.append('translation units with different include orders linked into one program: %d, %.1fs' % (n, time.time() - t))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # 3. every model on its own, after every other header
    t = time.time()
    per = {}
    for pid in ('C03', 'C04', 'C05', 'C06', 'C07', 'C10', 'C19'):
        c = Collector(x.pick(2, 12))
        CHECKS[pid](c)
        for p in c.progs:
            if not isinstance(p, Raw) and p.alg in ('vga', 'pga', 'pga2', 'cga', 'cga2') and all(k == 'float' or (k.startswith(p.alg + '.') and k != 'pga.vpoint') for k in p.kinds) and sum(map(len, map(str, p.asts))) < 900:
                per.setdefault(p.alg, []).append(p)
    jobs = []
    for m, ps in sorted(per.items()):
        k = x.pick(8, 60)
        for j, h in enumerate([None] + [h for h in hs if h != m]):
            # a different share of the programs after every header; all of them on its own
            sel = ps[:: max(1, len(ps) // (6 * k))] if h is None else [ps[(j * 7 + i * len(ps)) // k % len(ps)] for i in range(k)]
            key = '%s_%s' % (h, m)
            e2e.HEADERS[key] = [m] if h is None else [h, m]
            jobs.append((key, sel))
    progs = evals = 0
    if x.done():
        return

    def one(job):
        key, sel = job
        r = Runner(npts=2, chunk=60, headers=key, deadline=x.limit, stop_after=1)
        try:
            r.run(sel)
            return key, r.stats['programs'], r.stats['evaluations'], r.skipped, [(f, r.replay_source(f)) for f in r.fail[:1]], r.samples[:1]
        finally:
            r.close()
    with ThreadPoolExecutor(max(1, e2e.JOBS // 2)) as ex:
        for key, np_, ev, sk, fails, smp in ex.map(one, jobs):
            progs += np_
            evals += ev
            if sk:
                x.complete = False
                x.notes.append('%s: %d programs not explored' % (key, sk))
            for f, src in fails:
                x.report('including %s only: %s: %s: %s' % (' then '.join(e2e.HEADERS[key]), f.prog.text(), f.kind, f.detail.splitlines()[0] if f.detail else ''), src, 'cpp')
    x.states += progs
    x.transitions += evals
    x.validated += evals
    x.bounds.append('every model on its own and after every other header: %d combinations, %d programs, %d evaluations, %.1fs' % (len(jobs), progs, evals, time.time() - t))


# ------------------------------------------------------------------------------------------------ C25
class Heap(Runner):
    """watches the requests for memory and the size of the results; the values are the business of the other checks"""
    def judge(self, progs, out, P, st):
        at, told = 0, None
        for line in out.splitlines():
            f = line.split()
            if f[:1] == ['S'] and len(f) == 3:
                at, k = int(f[1]), int(f[2])
            elif f[:1] == ['R']:
                self.stats['evaluations'] += 1
            elif f[:1] in (['HEAP'], ['SIZE']):
                told = line
        self.stats['programs'] += at + 1
        if told:
            self.fail.append(Failure(progs[at], told.split(' ', 1)[0].lower(), told, P[k, :progs[at].arity].tolist()))
        elif st != 'ok':
            self.degraded.append('inconclusive (abnormal end): ' + progs[at].text())
        if st != 'ok' and at + 1 < len(progs):
            self.batch += 1
            self.run_chunk('h%d_%d' % (id(out), at), progs[at + 1:])


def sizes(x):
    """every entity occupies exactly its coordinates"""
    ps = []
    for T in ('float', 'double', 'long double'):
        for alg, names in (('vga', ('vector:3', 'point:3', 'rotor:5')), ('pga', ('plane:4', 'point:4', 'vector:3', 'line:6', 'rotor:5', 'translator:4', 'motor:8')), ('pga2', ('line:3', 'point:2', 'vector:2')), ('cga', ('point:3',)), ('cga2', ('point:2',))):
            for nm in names:
                n, k = nm.split(':')
                ps.append(Raw('using E = ::gal::%s::%s<T>; o.put(0, 0, double(sizeof(E)) / sizeof(T)); o.put(0, 1, E::size());' % (alg, n), 0,
                              (lambda k: lambda P: [{0: np.full(len(P), k), 1: np.full(len(P), k)}])(float(k)), 'size of %s::%s<%s>' % (alg, n, T), T=T, group='size of %s::%s' % (alg, n)))
        for n in (1, 2, 3, 5, 8, 16):
            ps.append(Raw('using E = ::gal::entity<::gal::pga::pga_algebra, T, %s>; o.put(0, 0, double(sizeof(E)) / sizeof(T)); o.put(0, 1, E::size());' % ', '.join(map(str, range(n))), 0,
                          (lambda n: lambda P: [{0: np.full(len(P), n), 1: np.full(len(P), n)}])(float(n)), 'size of an entity of %d components, %s' % (n, T), T=T))
        ps.append(Raw('using E = ::gal::scalar<::gal::pga::pga_algebra, T>; o.put(0, 0, double(sizeof(E)) / sizeof(T));', 0, lambda P: [{0: np.ones(len(P))}], 'size of a scalar, ' + T, T=T))
    return ps


def c25(x):
    from .checks import CHECKS
    x.run('size of every entity', sizes(x), npts=1)
    ps, ngroups, total = pure_programs(x), 0, 0
    for pid in sorted(CHECKS):
        if pid in EXEC or pid == 'C20':
            continue
        c = Collector(x.pick(10, 120))
        CHECKS[pid](c)
        ps += c.progs
        ngroups += c.groups
        total += c.total
    for name, cxx, flags in [('g++ -O0', 'g++', GCC + ['-O0'])] + x.pick([], [('g++ -O2', 'g++', GCC + ['-O2']), ('clang++ -O0', 'clang++', CLANG + ['-O0'])]):
        if x.done():
            return
        r = Heap(npts=2, chunk=24, cxx=cxx, flags=flags + ['-DVF_HEAP'], deadline=x.limit, soft=True)
        t = time.time()
        r.run(ps)
        for f in r.fail[:4]:
            x.report('%s: %s: %s' % (name, f.prog.text(), f.detail), '// configuration: %s %s\n' % (cxx, ' '.join(r.flags)) + r.replay_source(f), 'cpp')
        x.notes += ['%s: %s' % (name, d) for d in r.degraded[:6]]
        if r.skipped:
            x.complete = False
            x.notes.append('%s: %d programs not explored' % (name, r.skipped))
        x.states += r.stats['programs']
        x.transitions += r.stats['evaluations']
        x.validated += r.stats['evaluations']
        x.samples += [p.text() for p in ps[::max(1, len(ps) // 3)]][:3]
        x.bounds.append('%s: %d programs (of %d in %d groups), %d evaluations, %.1fs' % (name, r.stats['programs'], total, ngroups, r.stats['evaluations'], time.time() - t))
        r.close()
