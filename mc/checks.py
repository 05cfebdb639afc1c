from . import checks_expr as E, checks_base as B, checks_geom as G, checks_exec as X, checks_debug as D
CHECKS = {}
for m in (E, B, G, X, D):
    for n in range(1, 40):
        f = getattr(m, 'c%02d' % n, None)
        if f:
            CHECKS['C%02d' % n] = f
