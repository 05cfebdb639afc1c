"""Runs programs under the scheduler of harness/sched_rt.cpp: histories and interleavings of evaluations."""
import os, re, subprocess, time
import numpy as np
from . import e2e, rt
from .e2e import Runner, VERIF, points, number, first_error, FLAGS

TSAN = [f for f in FLAGS if f != '-O0'] + ['-O1', '-fsanitize=thread']


class Sched(Runner):
    def __init__(self, bound, cap, per, **k):
        Runner.__init__(self, flags=TSAN, npts=3, **k)
        self.bound, self.cap, self.per = bound, cap, per
        self.t = dict(programs=0, writers=0, conflicts=0, schedules=0, histories=0, truncated=0, inconclusive=0)
        self.found, self.rt = [], None

    def make_rt(self):
        o = os.path.join(self.dir, 'sched_rt.o')
        r = subprocess.run(['g++', '-std=c++17', '-O1', '-w', '-c', os.path.join(VERIF, 'harness', 'sched_rt.cpp'), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('scheduler does not compile: ' + r.stdout[:500])
        self.rt = o

    def source(self, progs, npts, standalone=False):
        stride = max([p.arity for p in progs] + [1])
        L = [self.prelude() if standalone else '#include "pre.hpp"\n', '#include "sched.hpp"\nusing namespace ::gal;\n']
        for i, p in enumerate(progs):
            L.append('// %d: %s\nstatic void f%d(double const* p, vf::Out& o) { %s }\n' % (i, p.text().replace('\n', ' '), i, p.code()))
        L.append('static vf::Entry const es[] = {%s};\n' % ', '.join('{%d, %d, f%d}' % (i, p.arity, i) for i, p in enumerate(progs)))
        if progs[0].pts is not None:
            P = np.asarray(progs[0].pts, dtype=float)
            npts, stride = P.shape
        else:
            P = points(stride, npts, progs[0].scale)
        L.append('static double const pts[] = {%s};\n' % ', '.join(number(v) for v in P.ravel()))
        L.append('namespace vf { Entry const* entries() { return es; } int entry_count() { return %d; } double const* point_table() { return pts; } int point_count() { return %d; } int point_stride() { return %d; } }\n' % (len(progs), npts, stride))
        return ''.join(L), P

    def build_run(self, progs, tag, timeout=240):
        src, obj, exe = (os.path.join(self.dir, 't%s%s' % (tag, e)) for e in ('.cpp', '.o', ''))
        text, P = self.source(progs, self.npts)
        with open(src, 'w') as f:
            f.write(text)
        rc, out = self.cc(['-c', src, '-o', obj], timeout)
        self.stats['tus'] += 1
        if rc != 0:
            return ('compile', out, None)
        r = subprocess.run(['g++', obj, self.rt, '-o', exe, '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode:
            raise RuntimeError('linking failed: ' + r.stdout[:800])
        try:
            r = subprocess.run([exe, str(self.bound), str(self.cap), str(self.per)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=self.per + 240, text=True, errors='replace')
            res, st = r.stdout, 'ok' if r.returncode == 0 else 'crash'
        except subprocess.TimeoutExpired:
            res, st = '', 'crash'
        for f in (src, obj, exe):
            try:
                os.unlink(f)
            except OSError:
                pass
        return (st, res, P)

    def judge(self, progs, out, P, st):
        tot = None
        for l in out.splitlines():
            f = l.split(' ', 3)
            if f[0] == 'V':
                p = progs[int(f[1])]
                self.fail.append(e2e.Failure(p, f[2], f[3]))
                self.found.append((p, f[2], f[3], list(progs)))
            elif f[0] == 'T':
                tot = [int(v) for v in l.split()[1:]]
        if tot is None:
            self.skipped += len(progs)
            return
        for k, v in zip(('programs', 'writers', 'conflicts', 'schedules', 'histories', 'truncated', 'inconclusive'), tot):
            self.t[k] += v
        self.stats['programs'] += len(progs)

    def run(self, progs):
        if self.rt is None:
            self.make_rt()
        return Runner.run(self, progs)

    def replay(self, k):
        p, kind, what, progs = self.found[k]
        text, _ = self.source(progs, self.npts, standalone=True)
        return ('// %s: %s: %s\n// build: g++ %s -c -I%s -I%s/harness this.cpp -o this.o && g++ -std=c++17 -O1 -w -c %s/harness/sched_rt.cpp && g++ this.o sched_rt.o -lpthread && ./a.out %d %d %d\n'
                % (p.text(), kind, what, ' '.join(self.flags), e2e.INC, VERIF, VERIF, self.bound, self.cap, self.per)) + text
