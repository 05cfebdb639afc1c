"""Bookkeeping of one check run: exploration, counterexamples, evidence."""
import numpy as np
import json, os, re, shutil, sys, tempfile, time
from . import e2e, rt, expr, progs, ref
from .types import K
from .e2e import Prog, Raw, Runner, VERIF, JOBS

EVID = os.path.join(VERIF, 'evidence')


def known(pid):
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for l in f:
                m = re.match(r'finding: property=(\w+) (.*)', l.strip())
                if m and m.group(1) == pid:
                    out.append(m.group(2))
    except OSError:
        pass
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.limit = self.t0 + (700 if self.quick else 4 * 3600)
        self.work = tempfile.mkdtemp(prefix='galrt-')
        self.runner = None
        self.viol, self.kf, self.notes, self.bounds, self.samples = [], [], [], [], []
        self.states = self.transitions = self.validated = self.dup = self.distinct = self.undefined = 0
        self.complete = True
        self.unconfirmed = 0
        self.known = known(pid)
        self.nrep = 0

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def done(self):
        return len(self.viol) >= 4

    # ------------------------------------------------------------------ reporting
    def report(self, text, replay, ext='txt'):
        line = text.replace('\n', ' ')[:600]
        for k in self.known:
            if line.startswith(k):
                self.kf.append(line)
                return
        d = os.path.join(EVID, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%d.%s' % (self.pid, self.nrep, ext))
        self.nrep += 1
        with open(path, 'w') as f:
            f.write(replay)
        self.viol.append((line, path))

    # ------------------------------------------------------------------ end to end
    def run(self, what, progs_, npts=6, chunk=40):
        progs_ = [p for p in progs_ if defined(p)]
        if self.done() or not progs_:
            return
        if self.runner is None:
            self.runner = Runner(npts=npts, chunk=chunk, deadline=self.limit)
        r = self.runner
        r.npts, r.chunk = npts, chunk
        before = dict(r.stats)
        nf, sk, nd = len(r.fail), r.skipped, len(r.degraded)
        t = time.time()
        r.run(progs_)
        for f in r.fail[nf:nf + 4]:
            self.report('%s: %s: %s %s' % (f.prog.text(), f.kind, f.detail.splitlines()[0] if f.detail else '', '' if f.point is None else 'at %s' % (f.point[:12],)),
                        r.replay_source(f), 'cpp')
        self.notes += r.degraded[nd:]
        n = r.stats['programs'] - before['programs']
        ev = r.stats['evaluations'] - before['evaluations']
        self.states += n
        self.transitions += ev
        self.validated += ev
        if r.skipped > sk:
            self.complete = False
            self.notes.append('%s: %d programs not explored' % (what, r.skipped - sk))
        self.undefined += r.stats['undefined'] - before['undefined']
        self.bounds.append('%s: %d programs, %d evaluations, %.1fs' % (what, n, ev, time.time() - t))

    # ------------------------------------------------------------------ explorers
    def explore(self, what, src, args, defs=(), flags=('-O2',), timeout=800, tag=None):
        """run an explorer whose reports are final; returns False if it could not be used"""
        if self.done():
            return True
        t = time.time()
        tag = tag or src.replace('.cpp', '') + ''.join(c for c in '_'.join(defs) if c.isalnum())
        exe, err = rt.build(self.work, src, tag, defs, flags)
        if exe is None:
            self.notes.append('%s: explorer does not compile against this tree, relying on the end-to-end exploration (%s)' % (what, err.splitlines()[0][:300] if err else ''))
            return False
        r = rt.run(exe, args, timeout)
        if not r.ok and not r.violations:
            if 'Sanitizer' in r.err or 'runtime error' in r.err:
                m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)', r.err)
                r.violations.append('memory error: ' + (m.group(1) if m else r.err[:200]))
            elif r.rc < 0 and r.rc != -99:
                # a crash: confirm it is deterministic
                r2 = rt.run(exe, args, timeout)
                if r2.rc == r.rc:
                    r.violations.append('the real code crashed (signal %d) while exploring' % -r.rc)
                else:
                    self.notes.append('%s: explorer crashed once, not reproducible' % what)
            else:
                self.notes.append('%s: explorer ended early (%s)' % (what, r.err[-200:]))
                self.complete = False
        for v in r.violations[:4]:
            self.report('%s: %s' % (what, v), '%s\n\nfound by: g++ -std=c++17 -w %s %s -I%s %s/harness/%s && ./a.out %s\n\n%s' % (
                v, ' '.join(flags), ' '.join('-D' + d for d in defs), e2e.INC, VERIF, src, ' '.join(map(str, args)), r.err))
        self.states += r.stats.get('states', 0)
        self.transitions += r.stats.get('transitions', 0)
        self.samples += r.samples[:3]
        self.bounds.append('%s: %s, %.1fs' % (what, ' '.join('%s=%d' % kv for kv in sorted(r.stats.items())), time.time() - t))
        return True

    _rpn = None

    def rpn(self, what, depth, ops, leaves, derived=(), tuples=0, confirm=('vga',), kinds=None, maxc=40):
        """explore the expression builder; candidates are replayed through compute() before being reported"""
        if self.done():
            return
        if self._rpn is None:
            # clang's run-time evaluation of the builder agrees with constant evaluation; g++ 13 reads `nodes[count++] = {..., back()...}` in another order at run time
            self._rpn = rt.build(self.work, 'rpn_rt.cpp', 'rpn_rt', cxx='clang++')
            if self._rpn[0] is None:
                self._rpn = rt.build(self.work, 'rpn_rt.cpp', 'rpn_rt')
            if self._rpn[0] is None:
                self.notes.append('expression builder explorer does not compile against this tree, relying on the end-to-end exploration (%s)' % self._rpn[1].splitlines()[0][:300])
        exe = self._rpn[0]
        if exe is None:
            return
        t = time.time()
        args = [JOBS, depth, maxc, tuples] + list(ops) + ['--'] + ['%s=%d' % (n, m) for n, m in leaves]
        if derived:
            args += ['--'] + list(derived)
        r = rt.run(exe, args)
        if 'states' not in r.stats:
            self.notes.append('%s: explorer failed (%s)' % (what, r.err[-200:]))
            return
        self.states += r.stats.get('states', 0)
        self.transitions += r.stats.get('transitions', 0)
        self.dup += r.stats.get('duplicates', 0)
        self.samples += r.samples[:2]
        self.bounds.append('%s: %s, depth %d, %.1fs' % (what, ' '.join('%s=%d' % kv for kv in sorted(r.stats.items()) if kv[0] != 'stored'), depth, time.time() - t))
        if r.candidates:
            self.confirm(what, r.candidates, leaves)

    def confirm(self, what, cands, leaves):
        from .types import K, ent, blades, add, VG
        names = [n for n, _ in leaves if not n.startswith('#')]
        kinds = []
        for n, m in leaves:
            if n.startswith('#'):
                continue
            els = [b for b in range(8) if m >> b & 1]
            key = 'vga.mask%d' % m
            if key not in K:
                add(key, ent(VG, els), len(els), blades(els))
            kinds.append(key)
        progs, seen = [], set()
        for c in cands:
            s = c.split(' # ')[0]
            if s in seen:
                continue
            seen.add(s)
            try:
                a = parse(s, names)
            except Exception as e:           # a shape the replay cannot express
                self.notes.append('candidate not replayable: %s (%s)' % (s, e))
                continue
            progs.append(Prog('vga', kinds, list(a[1:]) if a[0] == 'tuple' else a))
        progs.sort(key=lambda p: sum(expr.size(a) for a in p.asts))
        before = len(self.viol)
        self.run('%s: replay of %d suspicious states through compute()' % (what, len(progs)), progs[:60], npts=6, chunk=1)
        if len(self.viol) == before:
            self.unconfirmed += len(progs)
            self.notes.append('%s: %d suspicious states, none reproducible through compute(): the explorer models the builder of this tree differently; not reported' % (what, len(progs)))

    # ------------------------------------------------------------------ finish
    def finish(self):
        wall = time.time() - self.t0
        r = self.runner
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=(self.samples + (r.samples if r else []))[:8] or ['none'],
                   exhaustive=bool(self.complete), bounds=self.bounds,
                   distinct_outcomes=len(r.outcomes) if r else 0,
                   components_compared=r.stats['comparisons'] if r else 0,
                   undefined_programs_skipped=self.undefined, duplicate_states=self.dup,
                   unconfirmed_candidates=self.unconfirmed, notes=self.notes,
                   known_findings=self.kf,
                   violations_found=[v[0] for v in self.viol])
        if r:
            r.close()
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier='quick' if self.quick else 'thorough', seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=['run-time evaluation of the headers in the explorers agrees with constant evaluation (suspicious states of the expression builder are replayed through compute())', 'the reference model in mc/ref.py is the intended algebra'],
                  wall_s=round(wall, 2), violations=len(self.viol))
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for b in self.bounds:
            print('  ' + b)
        for n in self.notes:
            print('  note: ' + n)
        for k in self.kf:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for v, p in self.viol:
            print('  ' + v)
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        print('%s: %s, %d states, %d transitions, %d validated on the implementation, %.1fs' % (
            self.pid, 'VIOLATED' if self.viol else 'held', self.states, self.transitions, self.validated, wall))
        return 1 if self.viol else 0


def defined(p):
    """drop programs that divide by something identically zero (or are undefined everywhere)"""
    if not p.asts or not any(progs.has(x, ('/', 'irec', 'sqrt')) for x in p.asts):
        return True
    P = e2e.points(max(1, p.arity), 8, p.scale)
    A = ref.ALG[p.alg]
    try:
        with np.errstate(all='ignore'):
            off, env = 0, []
            for k in p.kinds:
                env.append(A.to_natural(K[k].mv([P[:, off + i] for i in range(K[k].n)])))
                off += K[k].n
            for t in p.asts:
                for s in expr.subs(t):
                    if s[0] in ('/', 'irec'):
                        v = expr.value(A, s[2], env)
                        if not any(np.any(np.abs(c) > 1e-9) for c in v.values()):
                            return False
            for r in p.reference(P):
                for c in r.values():
                    if not np.any(np.isfinite(c)):
                        return False
    except expr.Undefined:
        return False
    return True


def parse(s, names):
    """prefix form printed by rpn_rt -> AST"""
    tok = s.replace('(', ' ( ').replace(')', ' ) ').split()
    pos = 0

    def go():
        nonlocal pos
        t = tok[pos]
        pos += 1
        if t != '(':
            if t.startswith('#'):
                v, b = t[1:].split('_')
                return ('lit', int(b), int(v))
            return ('in', names.index(t))
        k = tok[pos]
        pos += 1
        param = None
        if k in ('imul', 'idiv', 'iadd', 'addi', 'isub', 'subi', 'irec', '[]', 'grade', 'cmul', 'mulc', 'cdiv', 'divc'):
            param = int(tok[pos])
            pos += 1
        args = []
        while tok[pos] != ')':
            args.append(go())
        pos += 1
        if k in ('imul', 'iadd', 'isub', 'irec'):
            return (k, param, args[0])
        if k in ('idiv', 'addi', 'subi', '[]', 'grade'):
            return (k, args[0], param)
        if k in ('cmul', 'mulc', 'cdiv', 'divc'):
            c = ('c', 'PI' if param == 0 else 'E', 1, 1)
            return {'cmul': ('*', c, args[0]), 'mulc': ('*', args[0], c), 'cdiv': ('/', c, args[0]), 'divc': ('/', args[0], c)}[k]
        return (k,) + tuple(args)
    return go()
