"""End-to-end explorer: compile every enumerated program through the library, run it on every
input point and compare with the reference model."""
import itertools
import os, sys, subprocess, tempfile, shutil, time, json, hashlib
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from . import ref, expr
from .types import K

REPO = os.environ.get('GAL_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = os.path.join(REPO, 'public')
JOBS = os.cpu_count() or 4
CXX = 'g++'
FLAGS = ['-std=c++17', '-O0', '-w', '-fno-asynchronous-unwind-tables', '-ftemplate-depth=2000',
         '-fconstexpr-ops-limit=200000000', '-fconstexpr-loop-limit=10000000']

# Deterministic integer input points, generic position first, then structured ones.
_PR = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]


def points(stride, count, scale=1.0):
    rows = []
    s = 12345
    def rnd():
        nonlocal s
        s = (1103515245 * s + 12345) & 0x7fffffff
        return (s >> 8)
    for k in range(count):
        row = []
        for j in range(stride):
            v = (rnd() % 13) - 6
            if v == 0:
                v = 7
            if k % 4 == 3 and rnd() % 3 == 0:
                v = 0
            row.append(float(v) * scale)
        rows.append(row)
    return np.array(rows)


def number(v):
    v = float(v)
    return repr(v) if np.isfinite(v) else '(0.0 / 0.0)' if v != v else '__builtin_inf()' if v > 0 else '-__builtin_inf()'


class Prog:
    """One program. `asts`: list of result expressions (one => plain result, more => tuple)."""
    __slots__ = ('alg', 'kinds', 'asts', 'T', 'body', 'reff', 'exact', 'tol', 'note', 'id', 'arity', 'flat', 'nonan', 'scale', 'tup1', 'pts', 'group', 'floor')

    def __init__(self, alg, kinds, asts, T='double', exact=False, tol=None, note='', flat=False, scale=1.0, pts=None, group=None, floor=1.0):
        self.pts, self.group, self.floor = pts, group, floor
        self.alg, self.kinds, self.T = alg, tuple(kinds), T
        self.asts = [asts] if isinstance(asts, tuple) else list(asts)
        self.exact, self.note = exact, note
        self.tol = tol if tol is not None else (1e-9 if T != 'float' else 2e-4)
        self.body = self.reff = None
        self.arity = sum(K[k].n for k in self.kinds)
        self.scale = scale

    def key(self):
        return self.text()

    def text(self):
        return '%s<%s>[%s](%s)' % (self.alg, self.T, ', '.join(self.kinds),
                                   '; '.join(expr.cpp(self.alg, a) for a in self.asts)) if self.asts else self.note

    def code(self):
        names = expr.NAMES
        L, off = [], 0
        for i, k in enumerate(self.kinds):
            L.append(K[k].decl(names[i], off))
            off += K[k].n
        params = ', '.join('auto %s' % names[i] for i in range(len(self.kinds)))
        args = ''.join(', ' + names[i] for i in range(len(self.kinds)))
        es = [expr.cpp(self.alg, a) for a in self.asts]
        ret = es[0] if len(es) == 1 else '::gal::make_tuple(%s)' % ', '.join(es)
        L.append('vf::emit(o, 0, ::gal::%s::compute([](%s) { return %s; }%s));' % (self.alg, params, ret, args))
        return 'using namespace ::gal::%s; using T = %s; %s' % (self.alg, self.T, ' '.join(L))

    def reference(self, P):
        """-> list (per result) of {user-basis blade: array over points}"""
        A = ref.ALG[self.alg]
        off, env = 0, []
        for k in self.kinds:
            cols = [P[:, off + i] for i in range(K[k].n)]
            off += K[k].n
            env.append(A.to_natural(K[k].mv(cols)))
        return [A.to_null(expr.value(A, a, env)) for a in self.asts]


class Form(Prog):
    """The same program written in another way: how the lambda takes its parameters, names intermediate values, is kept."""
    PARAMS = {'value': 'auto %s', 'const': 'auto const %s', 'const&': 'auto const& %s', '&&': 'auto&& %s'}

    def __init__(self, form, *a, **k):
        super().__init__(*a, **k)
        self.note = form

    def text(self):
        return super().text() + ' written as: ' + self.note

    def code(self):
        take, steps, keep = self.note.split()
        names = expr.NAMES
        L, off = [], 0
        for i, k in enumerate(self.kinds):
            L.append(K[k].decl(names[i], off))
            off += K[k].n
        n = len(self.kinds)
        body, made = [], {}

        def put(a, top=False):
            if not isinstance(a, tuple) or a[0] in ('in', 'lit', 'c'):
                return a
            b = tuple(put(y) if isinstance(y, tuple) else y for y in a)
            if steps == 'nested':
                return b
            if b not in made:
                made[b] = ('in', 20 + len(made))
                body.append('%s %s = %s;' % ({'named': 'auto', 'const': 'auto const', 'refs': 'auto const&'}[steps], names[made[b][1]], expr.cpp(self.alg, b)))
            return made[b]
        es = [expr.cpp(self.alg, put(a)) for a in self.asts]
        ret = es[0] if len(es) == 1 else '::gal::make_tuple(%s)' % ', '.join(es)
        fn = ' '.join(body) + ' return %s;' % ret
        if take == 'pack':
            fn = '[](auto const&... v) { auto f = [](%s) { %s }; return f(v...); }' % (', '.join('auto const& ' + names[i] for i in range(n)), fn)
        else:
            fn = '[](%s) { %s }' % (', '.join(self.PARAMS[take] % names[i] for i in range(n)), fn)
        args = ''.join(', ' + names[i] for i in range(n))
        if keep == 'kept':
            L.append('auto const fn = %s;' % fn)
            fn = 'fn'
        L.append('vf::emit(o, 0, ::gal::%s::compute(%s%s));' % (self.alg, fn, args))
        return 'using namespace ::gal::%s; using T = %s; %s' % (self.alg, self.T, ' '.join(L))


def forms(progs):
    """every program in every way of writing it"""
    return [Form(' '.join(f), p.alg, p.kinds, p.asts, T=p.T, exact=p.exact) for p in progs
            for f in itertools.product(('value', 'const', 'const&', '&&', 'pack'), ('nested', 'named', 'const', 'refs'), ('direct', 'kept'))]


class Raw(Prog):
    """Hand written program: `body` is C++ writing to `o` from `p`; `reff(P)` returns the expected
    list of {tag: array}.  P has one column per input scalar."""
    def __init__(self, body, arity, reff, note, T='double', tol=None, exact=True, scale=1.0, alg='vga', pts=None, group=None, floor=1.0):
        self.pts, self.group, self.floor = pts, group, floor
        self.alg, self.kinds, self.asts, self.T = alg, (), [], T
        self.body, self.arity, self.reff, self.note = body, arity, reff, note
        self.exact, self.tol = exact, tol if tol is not None else (1e-9 if T != 'float' else 2e-4)
        self.scale = scale

    def text(self):
        return self.note

    def code(self):
        return 'using T = %s; %s' % (self.T, self.body)

    def reference(self, P):
        return self.reff(P)


HEADERS = {'all': ['vga', 'pga2', 'cga', 'cga2', 'format']}
HEADERS['debug'] = HEADERS['all']


class Failure:
    def __init__(self, prog, kind, detail, point=None, expected=None, got=None):
        self.prog, self.kind, self.detail, self.point, self.expected, self.got = prog, kind, detail, point, expected, got


class Runner:
    def __init__(self, npts=8, chunk=40, headers='all', cxx=CXX, flags=FLAGS, keep=False, deadline=None, stop_after=4, soft=False):
        self.stop_after = stop_after
        self.soft = soft          # a program this compiler rejects is noted, not reported
        self.tentative, self.compiled, self.degraded, self.samples = {}, {}, [], []
        self.npts, self.chunk, self.cxx, self.flags = npts, chunk, cxx, list(flags)
        self.dir = tempfile.mkdtemp(prefix='galmc-')
        self.headers = headers
        self.deadline = deadline
        self.stats = dict(programs=0, evaluations=0, comparisons=0, tus=0, undefined=0)
        self.fail = []
        self.skipped = 0
        self.pch = None
        self.batch = 0
        self.outcomes = set()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # -------------------------------------------------------------- building
    def prelude(self):
        hs = HEADERS[self.headers]
        return ''.join('#include <gal/%s.hpp>\n' % h for h in hs) + '#include "e2e.hpp"\n#include <limits>\n#include <cstring>\n#include <string>\n' + ('#include "dbg.hpp"\n' if self.headers == 'debug' else '')

    def make_pch(self):
        if self.pch is not None:
            return
        h = os.path.join(self.dir, 'pre.hpp')
        with open(h, 'w') as f:
            f.write(self.prelude())
        if self.cxx != 'g++':
            # clang++ uses a precompiled header only on request; check it and include it textually
            r = self.cc(['-x', 'c++-header', h, '-o', h + '.pch'], 300)
            self.usepch = ['-include-pch', h + '.pch']
        else:
            r = self.cc(['-x', 'c++-header', h, '-o', h + '.gch'], 300)
            self.usepch = []
        self.pch = r[0] == 0
        self.pch_err = r[1]

    def cc(self, args, timeout):
        cmd = [self.cxx] + self.flags + ['-I', INC, '-I', os.path.join(VERIF, 'harness')] + args
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return -9, 'compile timed out after %ss' % timeout

    def source(self, progs, npts, standalone=False):
        stride = max([p.arity for p in progs] + [1])
        L = [self.prelude() if standalone else '' if self.cxx != 'g++' else '#include "pre.hpp"\n', 'using namespace ::gal;\n']
        for i, p in enumerate(progs):
            L.append('// %s\nstatic void f%d(double const* p, vf::Out& o) { %s }\n' % (p.text().replace('\n', ' '), i, p.code()))
        L.append('static vf::Entry const es[] = {%s};\n' % ', '.join('{%d, %d, f%d}' % (i, p.arity, i) for i, p in enumerate(progs)))
        if progs[0].pts is not None:
            P = np.asarray(progs[0].pts, dtype=float)
            if P.shape[1] < stride:
                raise ValueError('point set too narrow')
            npts, stride = P.shape
        else:
            P = points(stride, npts, progs[0].scale)
        L.append('static double const pts[] = {%s};\n' % ', '.join(number(v) for v in P.ravel()))
        L.append('int main() { return vf::drive(es, %d, pts, %d, %d); }\n' % (len(progs), npts, stride))
        return ''.join(L), P

    def build_run(self, progs, tag, timeout=240):
        src = os.path.join(self.dir, 't%s.cpp' % tag)
        exe = os.path.join(self.dir, 't%s' % tag)
        text, P = self.source(progs, self.npts)
        with open(src, 'w') as f:
            f.write(text)
        rc, out = self.cc(self.usepch + [src, '-o', exe], timeout)
        self.stats['tus'] += 1
        if rc != 0:
            return ('compile', out, None)
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True, errors='replace')
            res = r.stdout
            rrc = r.returncode
        except subprocess.TimeoutExpired as e:
            res = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
            rrc = -99
        for f in (src, exe):
            try:
                os.unlink(f)
            except OSError:
                pass
        return ('ok' if rrc == 0 else 'crash', res, P)

    # -------------------------------------------------------------- checking
    def bad(self, f):
        g = f.prog.group
        if self.soft and f.kind == 'does not compile':
            if len(self.degraded) < 5:
                self.degraded.append('not accepted: %s (%s)' % (f.prog.text(), f.detail.splitlines()[0][:200] if f.detail else ''))
        elif g and f.kind == 'does not compile':
            self.tentative.setdefault(g, []).append(f)
        else:
            self.fail.append(f)

    def run_chunk(self, idx, progs):
        if len(self.fail) >= self.stop_after:
            self.skipped += len(progs)
            return
        if self.deadline and time.time() > self.deadline:
            self.skipped += len(progs)
            return
        st, out, P = self.build_run(progs, str(idx))
        if st == 'compile':
            if len(progs) == 1:
                # confirm alone with a generous limit before calling it a violation
                if 'timed out' in out:
                    st, out2, P = self.build_run(progs, str(idx) + 'r', 600)
                    if st == 'compile':
                        self.bad(Failure(progs[0], 'does not compile', out2[-3000:]))
                        return
                    out = out2
                else:
                    self.bad(Failure(progs[0], 'does not compile', first_error(out)))
                    return
            else:
                h = (len(progs) + 1) // 2 if len(progs) > 8 else 1
                for j in range(0, len(progs), h):
                    self.run_chunk('%s_%d' % (idx, j), progs[j:j + h])
                return
        self.judge(progs, out, P, st)

    def judge(self, progs, out, P, st):
        got = {}
        started = set()
        for line in out.splitlines():
            f = line.split()
            if not f:
                continue
            if f[0] == 'S' and len(f) == 3:
                started.add((int(f[1]), int(f[2])))
            elif f[0] == 'R' and len(f) >= 4:
                n = int(f[3])
                if len(f) != 4 + 3 * n:
                    continue
                d = {}
                for j in range(n):
                    d.setdefault(int(f[4 + 3 * j]), []).append((int(f[5 + 3 * j]), float(f[6 + 3 * j])))
                got[(int(f[1]), int(f[2]))] = d
        for i, p in enumerate(progs):
            self.stats['programs'] += 1
            if p.group:
                self.compiled[p.group] = self.compiled.get(p.group, 0) + 1
            self.judge_one(i, p, got, P, st)

    def judge_one(self, i, p, got, P, st):
        try:
            with np.errstate(all='ignore'):
                exp = p.reference(P)
        except expr.Undefined:
            self.stats['undefined'] += 1
            return
        npts = P.shape[0]
        dense = [{b: np.broadcast_to(np.asarray(c, dtype=float), (npts,)) for b, c in r.items()} for r in exp]
        for k in range(npts):
            g = got.get((i, k))
            if g is None:
                if st != 'ok':
                    self.fail.append(Failure(p, 'crashed or hung', 'no result at point %d' % k, P[k, :p.arity].tolist()))
                    return
                self.fail.append(Failure(p, 'no output', '', P[k, :p.arity].tolist()))
                return
            self.stats['evaluations'] += 1
            for r in range(len(dense)):
                e = {b: float(c[k]) for b, c in dense[r].items()}
                if any(not np.isfinite(x) for x in e.values()):
                    continue      # mathematically undefined at this input
                gl = g.get(r, [])
                gd = {}
                for b, v in gl:
                    if b in gd:
                        self.fail.append(Failure(p, 'duplicate component', 'component %d of result %d listed twice' % (b, r), P[k, :p.arity].tolist(), e, gl))
                        return
                    gd[b] = v
                mag = max([p.floor] + [abs(x) for x in e.values()])
                for b in set(e) | set(gd):
                    self.stats['comparisons'] += 1
                    x, y = e.get(b, 0.0), gd.get(b, 0.0)
                    if not (abs(x - y) <= p.tol * mag):
                        self.fail.append(Failure(p, 'wrong value', 'result %d component %d: expected %r got %r' % (r, b, x, y),
                                                 P[k, :p.arity].tolist(), e, gd))
                        return
            extra = [r for r in g if r >= len(dense)]
            if extra:
                self.fail.append(Failure(p, 'extra result', str(extra), P[k, :p.arity].tolist()))
                return
        if len(self.samples) < 4 and self.stats['programs'] % 37 == 1:
            self.samples.append(dict(program=p.text(), input=P[0, :p.arity].tolist(), result={'%d:%d' % (r, b): float(c[0]) for r in range(len(dense)) for b, c in list(dense[r].items())[:8]}))
        # structural exactness: a component is present iff it is not identically zero
        if p.exact and p.asts:
            for r in range(len(dense)):
                live = {b for b, c in dense[r].items() if np.any(np.abs(c) > 1e-12)}
                have = {b for b, _ in got[(i, 0)].get(r, [])}
                if live != have:
                    self.fail.append(Failure(p, 'wrong component set', 'result %d: present %s, not identically zero %s' % (r, sorted(have), sorted(live)), P[0, :p.arity].tolist()))
                    return
        self.outcomes.add(hash(tuple(sorted((r, b, round(float(c[0]), 6)) for r in range(len(dense)) for b, c in dense[r].items()))))

    def run(self, progs):
        self.make_pch()
        if not self.pch:
            if self.soft or self.headers_alone():
                self.degraded.append('the end-to-end glue no longer compiles against the library: ' + first_error(self.pch_err))
            else:
                self.fail.append(Failure(Raw('', 0, None, 'including the public headers'), 'does not compile', first_error(self.pch_err)))
            return self.fail
        bys = {}
        for p in progs:
            bys.setdefault((p.scale, None if p.pts is None else id(p.pts)), []).append(p)
        chunks = []
        for ps in bys.values():
            # interleave so expensive neighbours spread over translation units
            n = max(1, (len(ps) + self.chunk - 1) // self.chunk)
            if len(ps) > 2:
                n = max(n, min(JOBS, len(ps) // 2))
            chunks += [ps[j::n] for j in range(n)]
        chunks = [c for c in chunks if c]
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda t: self.run_chunk('%d_%d' % (self.batch, t[0]), t[1]), enumerate(chunks)))
        self.batch += 1
        # an optional group: if other members compile, the ones that do not are broken; if none does, the name is gone -
        # unless the use itself is accepted and it is the library's own code that no longer compiles
        for g, fs in self.tentative.items():
            if self.compiled.get(g) or (g.startswith('tuple ') and g != 'tuple mutate' and all(f.detail.startswith(INC) for f in fs)):
                self.fail += fs
            else:
                self.degraded.append('%s: interface not available (%s)' % (g, fs[0].detail.splitlines()[0][:200] if fs[0].detail else ''))
        self.tentative = {}
        return self.fail

    def headers_alone(self):
        h = os.path.join(self.dir, 'alone.cpp')
        with open(h, 'w') as f:
            f.write(''.join('#include <gal/%s.hpp>\n' % x for x in HEADERS[self.headers]) + 'int main() {}\n')
        return self.cc([h, '-fsyntax-only'], 300)[0] == 0

    def replay_source(self, f):
        """stand-alone program reproducing failure f (build: g++ -std=c++17 -I/repo/public -I/verif/harness)"""
        text, P = self.source([f.prog], self.npts, standalone=True)
        hdr = '// %s\n// %s: %s\n// input point: %s\n// expected: %s\n// got: %s\n' % (
            f.prog.text(), f.kind, f.detail.replace('\n', '\n// '), f.point, f.expected, f.got)
        hdr += '// build: g++ -std=c++17 -I%s -I%s/harness <this file>\n' % (INC, VERIF)
        return hdr + text


def first_error(out):
    ls = out.splitlines()
    for i, l in enumerate(ls):
        if 'error' in l:
            return '\n'.join(ls[i:i + 6])[:1500]
    return out[-1500:]
