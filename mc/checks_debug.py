"""C23: the debugging view of an expression (GAL_DEBUG) denotes the value the computation returns."""
import time
from . import ref, expr, large
from .e2e import Prog, Runner, FLAGS
from .types import K
from .ctx import defined
from .progs import *
from .progs import _env
from .gen import BIN, UN, ins
from .checks_expr import share_space, nested_shares


class View(Prog):
    """the same expression through every debugging view: the postfix text before and after sharing, the symbolic
    multivector (where no temporary is needed), and compute() itself in a debugging build"""
    __slots__ = ('sym',)

    def __init__(self, alg, kinds, asts, sym=False, T='double'):
        Prog.__init__(self, alg, kinds, asts, T=T, group='debugging views')
        self.sym = sym

    def code(self):
        names = expr.NAMES
        A = ref.ALG[self.alg]
        L, off = [], 0
        for i, k in enumerate(self.kinds):
            L.append(K[k].decl(names[i], off))
            off += K[k].n
        ns = [names[i] for i in range(len(self.kinds))]
        es = [expr.cpp(self.alg, a) for a in self.asts]
        n = len(es)
        ret = es[0] if n == 1 else '::gal::make_tuple(%s)' % ', '.join(es)
        lam = '[](%s) { return %s; }' % (', '.join('auto ' + m for m in ns), ret)
        L.append('vf::View w{{{%d, {%s}}}, {}, {}, {}};' % (A.dim, ', '.join(str(int(s)) for s in A.sq)))
        for m in ns:
            one = '::gal::%s::compute([](auto x) { return x; }, %s)' % (self.alg, m)
            L.append('w.input(%s, vf::dense(%s));' % (m, one) if self.kinds[ns.index(m)] != 'float' else 'w.number(%s);' % m)
        L.append('using D = ::gal::%s::evaluate<%s>;' % (self.alg, ', '.join('std::decay_t<decltype(%s)>' % m for m in ns)))
        L.append('w.text(o, 0, %d, D::rpnf(%s)); w.text(o, %d, %d, D::rpnf_reshaped(%s));' % (n, lam, n, n, lam))
        L.append('vf::Out r; vf::emit(r, 0, ::gal::%s::compute(%s%s)); for (int i = 0; i != r.n; ++i) o.put(%d + r.res[i], r.el[i], r.val[i]);' % (self.alg, lam, ''.join(', ' + m for m in ns), 2 * n))
        if self.sym:
            L.append('auto q = D::rpnf(%s).q; double f = double(q.num) / q.den; w.symbolic(o, %d, D::ie(%s), f); w.symbolic(o, %d, D::ie_reshaped(%s), f);' % (lam, 3 * n, lam, 3 * n + 1, lam))
        return 'using namespace ::gal::%s; using T = %s; %s' % (self.alg, self.T, ' '.join(L))

    def reference(self, P):
        v = Prog.reference(self, P)
        return v * 3 + (v * 2 if self.sym else [])


def sym(x, kinds, alg):
    """a symbolic form without temporaries is promised, and it is not the zero expression"""
    if not exactable(x, kinds, alg):
        return False
    A = ref.ALG[alg]
    v = expr.value(A, x, [A.to_natural(m) for m in _env(tuple(kinds))])
    return any(abs(c) > 1e-9 for c in v.values())


def c23(x):
    groups = []
    for alg in ('vga', 'pga', 'pga2'):
        k = PAIRS[alg]
        S = SCALARS[alg]
        asts = sized(2, [a, b], BIN, UN)
        asts += [e for e in sized(2, [a, b], ['+', '*', '^'], IUN + [('[]', 2), ('grade', 1)]) if e not in asts]
        groups.append(('expressions of up to two operators in ' + alg, [View(alg, k, e, sym(e, k, alg)) for e in every(asts, x.pick(6 if alg == 'vga' else 16, 1))]))
        fun = sized(2, [a, b], ['/', '*', '+'], FUN + [('imul', 2), ('irec', 3), ('idiv', 2)])
        groups.append(('divisions and functions in ' + alg, [View(alg, S, e) for e in every(fun, x.pick(8 if alg == 'vga' else 20, 1))]))
        lits = [(op, p, q) for op in ('+', '*', '^', '>>') for p in (('lit', 1, 1), ('lit', 3, -2), ('lit', 7, 5)) for q in (a, b, ('*', a, b))]
        lits += [('*', ('c', n, p, q), e) for n in ('PI', 'E') for p, q in ((1, 1), (-3, 4)) for e in (a, ('+', a, b))]
        groups.append(('literals and named constants in ' + alg, [View(alg, k, e) for e in every(lits, x.pick(3, 1))]))
        pool = [a, ('*', a, b), ('imul', 2, ('*', a, b)), ('+', ('*', a, b), a), ('~', ('*', a, b)), ('-', a, a), ('idiv', a, 3), ('^', ('+', a, b), b)]
        two = [[p, q] for p in pool for q in pool] + [[p, q, r] for p in pool[:4] for q in pool[2:6] for r in pool[3:]]
        groups.append(('several results in ' + alg, [View(alg, k, e) for e in every(two, x.pick(5, 1))]))
        sh = share_space(alg, x.quick)
        groups.append(('repeated subexpressions in ' + alg, [View(alg, k, e) for e in every(sh, x.pick(12 if alg == 'vga' else 50, 2), 3)]))
    groups.append(('nested repeats', [View('vga', PAIRS['vga'], e) for e in every(nested_shares(), x.pick(20, 1))]))
    xs = ins(6)
    p = [('*', xs[i], xs[i + 1]) for i in range(5)]
    many = [large.left('+', [('*', t, t) for t in p[:n]]) for n in (2, 3, 4, 5)] + [large.bal('+', p[:n] + p[:n][::-1] + [('sin', t) for t in p[:n]]) for n in (2, 3, 5)]
    many += [('*', large.left('+', p[:n]), large.left('+', p[:n])) for n in (3, 5)] + [large.left('^', xs[:n]) for n in (3, 4, 6)] + [large.left('+', [('imul', i - 2, t) for i, t in enumerate(xs)])]
    groups.append(('many subexpressions, summands and factors', [View('vga', ('float',) * 6, e) for e in many] + [View('vga', ('vga.vector',) * 6, e) for e in every(many, 2) if not has(e, ('sin',))]))
    r = Runner(npts=3, chunk=24, flags=FLAGS + ['-DGAL_DEBUG'], headers='debug', deadline=x.limit)
    for what, ps in groups:
        if x.done():
            break
        ps = [p for p in ps if defined(p)]
        before, nf, sk, nd, t = dict(r.stats), len(r.fail), r.skipped, len(r.degraded), time.time()
        r.run(ps)
        for f in r.fail[nf:nf + 4]:
            x.report('debugging view of %s: %s: %s %s' % (f.prog.text(), f.kind, f.detail.splitlines()[0] if f.detail else '', '' if f.point is None else 'at %s' % (f.point[:12],)), '// build with -DGAL_DEBUG\n' + r.replay_source(f), 'cpp')
        x.notes += r.degraded[nd:]
        n, ev = r.stats['programs'] - before['programs'], r.stats['evaluations'] - before['evaluations']
        x.states += n
        x.transitions += ev
        x.validated += ev
        if r.skipped > sk:
            x.complete = False
            x.notes.append('%s: %d programs not explored' % (what, r.skipped - sk))
        x.bounds.append('%s: %d programs, %d evaluations, %.1fs' % (what, n, ev, time.time() - t))
    x.samples += r.samples[:3]
    r.close()
