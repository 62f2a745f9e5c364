"""Trust-region subproblem without bounds: global minimiser of the model in the ball."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Part, require, sut
from ..e2e import householder

RULE = 'a case counts when the gradient norm is at least 1e-5 (below 1e-6 the step is zero by design)'


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    return {'n': n,
            'd': draw(st.one_of(st.lists(st.integers(-4, 4).map(float), min_size=n, max_size=n), gen.vec(n, -5, 5))),
            'v': draw(st.one_of(st.just([0.0] * n), gen.vec(n, -1, 1))),
            'g': draw(st.lists(st.one_of(st.just(0.0), gen.num(-4, 4)), min_size=n, max_size=n)),
            'gs': draw(gen.scale(-3, 2)), 'hs': draw(gen.scale(-3, 3)), 'delta': draw(gen.scale(-4, 2)),
            'rot': draw(st.booleans()), 'hard': draw(st.booleans()), 'eps': draw(st.sampled_from([1e-4, 1e-3]))}


def body(c, rec):
    n = c['n']
    H = householder(c['v'], np.array(c['d']) * c['hs'])
    H = 0.5 * (H + H.T)
    g = np.array(c['g']) * c['gs']
    if c['rot']:       # gradient given in the eigenbasis: hits the hard case
        if c['hard']:
            d = np.array(c['d'])
            g[d == d.min()] = 0.0
        g = reflect(c['v'], g)
    judge(H, g, c['delta'], c['eps'], rec)


def reflect(v, g):
    """householder(v, d) is reflection * diag(d) * reflection."""
    v = np.array(v)
    nv = float(v @ v)
    return g if nv < 1e-6 else g - 2.0 * np.multiply.outer(v, v @ g) / nv


@st.composite
def hard(draw):
    n = draw(st.integers(2, 6))
    return {'n': n, 'mult': draw(st.integers(1, n - 1)), 'low': draw(gen.num(-4, 1)), 'up': draw(gen.vec(n, 0.25, 5)), 'v': draw(gen.vec(n, -1, 1)),
            'w': draw(gen.vec(n, -1, 1)), 'g': draw(gen.vec(n, -4, 4)), 'hs': draw(gen.scale(-2, 2)),
            'fac': draw(st.sampled_from([0.3, 0.9, 1.05, 1.2, 1.5, 2.0, 4.0])), 'eps': draw(st.sampled_from([1e-6, 1e-4, 1e-3]))}


def hardcase(c, rec):
    """Gradient orthogonal (to rounding) to the eigenvectors of the smallest eigenvalue, which may be multiple."""
    n, k = c['n'], c['mult']
    d = np.array([c['low']] * k + [c['low'] + max(0.25, u) for u in c['up'][k:]]) * c['hs']
    Q = reflect(c['w'], reflect(c['v'], np.eye(n)))
    H = Q @ np.diag(d) @ Q.T
    H = 0.5 * (H + H.T)
    b = np.array(c['g'])
    b[:k] = 0.0
    crit = np.linalg.norm(b[k:] / (d[k:] - d[0]))
    if crit == 0.0:
        rec.trivial()
        return
    rec.label('multiple' if k > 1 else 'single', 'convex' if d[0] > 0 else 'nonconvex')
    judge(H, Q @ b, crit * c['fac'], c['eps'], rec)


def judge(H, g, delta, eps, rec):
    from sqpdfo.bcdfo_solve_TR_MS import bcdfo_solve_TR_MS_
    n = len(g)
    g0, H0 = g.copy(), H.copy()
    with sut('trust-region solver'):
        s, lam, ns, val, gp, nf, ne, msg, hard = bcdfo_solve_TR_MS_(g.reshape(-1, 1), H, delta, eps)
    require(np.array_equal(g, g0) and np.array_equal(H, H0), 'an argument was modified')
    s = np.asarray(s, float)
    require(s.shape == (n, 1) and np.all(np.isfinite(s)), 'step is %s', s.tolist())
    s = s.ravel()
    require(np.linalg.norm(s) <= (1 + eps) * delta * (1 + 1e-9), 'step of length %g for radius %g', np.linalg.norm(s), delta)
    gn = np.linalg.norm(g)
    mval = g @ s + 0.5 * s @ H @ s
    unit = gn * delta + np.abs(H).max() * delta ** 2
    if gn < 1e-5:
        rec.trivial()
        return
    val = float(np.asarray(val).item())
    require(abs(val - mval) <= 1e-10 * unit + 2e-15, 'reported model value %r, step has %r', val, mval)
    require(abs(float(np.asarray(ns).item()) - np.linalg.norm(s)) <= 1e-9 * delta or abs(val) <= 1e-14, 'reported step length %r, step has %r', ns, np.linalg.norm(s))
    r = np.asarray(gp, float).ravel() - g - H @ s
    require(np.abs(r).max() <= 1e-9 * (gn + np.abs(H).max() * delta) or abs(val) <= 1e-14, 'reported gradient at the step is wrong')
    best = ref.tr_optimum(g, H, delta * (1 - eps))
    require(mval <= best + 1e-7 * unit * (1e-3 + min(1.0, abs(best) / max(unit, 1e-300))) + 1e-14,
            'model value %r, but the minimum over the (slightly reduced) ball is %r (radius %g)', mval, best, delta)
    rec.label('hard' if hard else 'interior' if np.linalg.norm(s) < (1 - eps) * delta else 'boundary')


PARTS = [Part('subproblem', cases(), body, 6000, 100000, shards=8),
         Part('hardcase', hard(), hardcase, 4000, 80000, shards=8)]
