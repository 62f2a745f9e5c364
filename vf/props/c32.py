"""The returned multipliers belong to the returned point."""
import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen, kkt
from ..core import Part, require
from . import c03

RULE = 'a case counts when at least one step was tried and, for certified points, the run reports success with independent active constraints'
ASSUMPTIONS = [
    'smooth problems with exact derivatives for the stationarity part',
    'the residual and the product of multiplier and inequality value are limited by (300 tol + 1e-3 times the local curvature) times (1 + the size of the multipliers), as for C03',
    'interpolation sets that determine the gradient (sub-basis models, minimum Frobenius norm models on n+1 points); dependent active constraints and sets collapsed to rounding level are skipped, as for C03',
    'a bound is active within 1e-5 of it']


def structure(P, r, x, rec):
    """Length, finiteness, inactive bounds and signs; holds however the run ends."""
    n, m = P.n, P.me + P.mi
    lm = np.asarray(r.lm, float).ravel()
    require(len(lm) == n + m, '%d multipliers for %d variables and %d constraints', len(lm), n, m)
    require(np.isfinite(lm).all(), 'multipliers %s', lm.tolist())
    for i in range(n):
        lo, up = x[i] - P.lb[i] < 1.001e-5, P.ub[i] - x[i] < 1.001e-5
        if not lo and not up:
            require(abs(lm[i]) <= 1e-12, 'multiplier %g for variable %d = %r, which is at none of its bounds [%g, %g]', lm[i], i, x[i], P.lb[i], P.ub[i])
        elif not up:
            require(lm[i] <= 1e-12, 'multiplier %g for variable %d at its lower bound', lm[i], i)
        elif not lo:
            require(lm[i] >= -1e-12, 'multiplier %g for variable %d at its upper bound', lm[i], i)
        rec.label('active' if lo or up else 'inactive')
    return lm


def anyend(p, rec):
    P = e2e.Problem(p)
    r = P.run()
    rec.label('flag%d' % r.info.flag)
    if len(r.fcalls) <= P.n + 1 or int(r.info.flag) not in (0, 4, 5, 6, 15):
        rec.trivial()
        return
    structure(P, r, e2e.final_x(r, P.n), rec)


def certify(p, rec):
    P = e2e.Problem(p)
    n, m = P.n, P.me + P.mi
    r = P.run()
    rec.label('flag%d' % r.info.flag)
    if int(r.info.flag) != 0 or len(r.fcalls) <= n + 1:
        rec.trivial()
        return
    x = e2e.final_x(r, n)
    lm = structure(P, r, x, rec)
    tol = p['opt'].get('tol_grad') or 1e-5
    act = max(1e-4, 10 * (p['opt'].get('tol_feas') or 1e-5))
    near = max(np.abs(np.array(c[1]) - x).max() for c in r.fcalls[-(n + 1):])
    if kkt.degenerate(P, x, act) or near <= c03.COLLAPSED * (1.0 + np.abs(x).max()):
        rec.label('degenerate or collapsed')
        rec.trivial()
        return
    g = P.grad(x) + lm[:n]
    for k in range(m):
        g = g + lm[n + k] * P.cgs[k](x)
    lim = (300 * tol + 1e-3 * kkt.curvature(P, x)) * (1.0 + np.abs(lm).max())
    res = np.abs(g).max()
    rec.label('tight' if res > 0.1 * lim else 'loose' if res > 1e-3 * lim else 'exact')
    require(res <= lim, 'success at %s with multipliers %s, which leave a gradient of the Lagrangian of %g (limit %g)', x.tolist(), lm.tolist(), res, lim)
    for k in range(P.me, m):
        v = P.cs[k](x)
        comp = abs(lm[n + k] * v) / (1.0 + np.abs(P.cgs[k](x)).max())
        rec.label('slack' if v > act else 'tight constraint')
        require(comp <= lim, 'success at %s with multiplier %g of inequality %d, which is inactive (value %g)', x.tolist(), lm[n + k], k - P.me, v)


PARTS = [Part('ends', gen.problem(opt=gen.options(miter=st.sampled_from([4, 20, 80]), msimul=st.sampled_from([10, 20, 40, 120]), verbose=(0,))), anyend, 1600, 30000, shards=8),
         Part('equality', c03.equality(), certify, 900, 40000, shards=8),
         Part('slacks', c03.inequality(), certify, 500, 30000, shards=8)]
