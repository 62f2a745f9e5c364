"""Least-squares multipliers: sign rules, exactness without bounds, certificates at stationary points."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Part, require, sut

RULE = 'a case counts when there is an active bound or a constraint, and the gradient is not zero'
ASSUMPTIONS = ['constraint gradients (together with the unit vectors of the active bounds, where a certificate is asked for) have a smallest '
               'singular value of at least 0.05']
INF = 1e20


class Info:
    pass


@st.composite
def cases(draw, kkt=False, bounds=True):
    n = draw(st.integers(1, 5))
    me = draw(st.integers(0 if bounds else 1, min(n, 3)))
    ns = draw(st.integers(0, me)) if draw(st.booleans()) else 0
    kinds = ['none'] if not bounds else ['none', 'none', 'lower', 'upper'] if kkt else ['none', 'lower', 'upper', 'inside', 'offlower', 'offupper', 'both']
    return {'n': n, 'me': me, 'A': [draw(gen.vec(n, -3, 3)) for _ in range(me)], 'g': draw(gen.vec(n, -5, 5)),
            'x': draw(gen.vec(n, -3, 3)), 'kind': [draw(st.sampled_from(kinds)) for _ in range(n)],
            'far': draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            'sl': draw(gen.vec(ns, 0.2, 2)), 'mu': draw(gen.vec(n, 0.0, 3)), 'la': draw(gen.vec(me, -3, 3)), 'kkt': kkt,
            'empty': draw(st.booleans())}


def build(c):
    n, me, ns = c['n'], c['me'], len(c['sl'])
    x = np.round(np.array(c['x']), 6)
    A = np.round(np.array(c['A']).reshape(me, n), 6)
    lb, ub = np.full(n, -np.inf), np.full(n, np.inf)
    for i, k in enumerate(c['kind']):
        w = INF * 10 if c['far'][i] else 2.0
        if k == 'lower':
            lb[i], ub[i] = x[i], x[i] + w
        elif k == 'upper':
            lb[i], ub[i] = x[i] - w, x[i]
        elif k == 'inside':
            lb[i], ub[i] = x[i] - 1, x[i] + 2
        elif k == 'offlower':
            lb[i] = x[i] - 1
        elif k == 'offupper':
            ub[i] = x[i] + 1
        elif k == 'both':
            lb[i] = ub[i] = x[i]
    return x, A, lb, ub


def call(c, g, x, A, lb, ub):
    import sqpdfo.sqpdfo_global_variables as glob
    from sqpdfo.helper import dummyOptions, dummyValues
    from sqpdfo.sqpdfo_compute_multiplier import sqpdfo_compute_multiplier_
    n, me, ns = c['n'], c['me'], len(c['sl'])
    info = Info()
    info.g, info.ae = g.reshape(-1, 1), A.copy()
    info.ai, info.ci, info.ce, info.f, info.flag = np.array([]), np.array([]), np.zeros((me, 1)), 0.0, 0
    opt = dummyOptions()
    opt.inf, opt.dxmin, opt.verbose = INF, 1e-6, 0
    glob.set_nbr_slacks(ns)
    glob.set_slacks(np.array(c['sl']).reshape(-1, 1) if ns else None)
    glob.set_check_condition(0)
    free = all(k == 'none' for k in c['kind'])
    col = lambda v: np.array([]) if free and c['empty'] else v.reshape(-1, 1).copy()
    keep = (info.g.copy(), info.ae.copy())
    try:
        with sut('multipliers'):
            lm, inf2 = sqpdfo_compute_multiplier_(x.reshape(-1, 1), col(lb), col(ub), info, opt, dummyValues())
    finally:
        glob.set_nbr_slacks(0)
        glob.set_slacks(None)
    require(np.array_equal(info.g, keep[0]) and np.array_equal(info.ae, keep[1]), 'gradient or Jacobian modified')
    lm = np.asarray(lm, float)
    require(lm.size == n + me and np.all(np.isfinite(lm)), 'multipliers are %s', lm.tolist())
    return lm.ravel()


def jac(c, A):
    n, me, ns = c['n'], c['me'], len(c['sl'])
    if not ns:
        return A
    return np.hstack([A, np.vstack([np.zeros((me - ns, ns)), -2 * np.diag(c['sl'])])])


def smallest(M):
    return np.linalg.svd(M, compute_uv=False)[-1] if M.size else 1.0


def body(c, rec):
    x, A, lb, ub = build(c)
    n, me, ns = c['n'], c['me'], len(c['sl'])
    J = jac(c, A)
    if me and smallest(J) < 0.05:
        rec.trivial()
        return
    g = np.round(np.array(c['g']), 6)
    act = [i for i, k in enumerate(c['kind']) if k in ('lower', 'upper')]
    if c['kkt']:
        E = np.eye(n + ns)[act]
        if len(act) + me and (len(act) + me > n + ns or smallest(np.vstack([E, J])) < 0.05):
            rec.trivial()
            return
        mu = np.zeros(n)
        for i in act:
            mu[i] = -c['mu'][i] if c['kind'][i] == 'lower' else c['mu'][i]
        la = np.round(np.array(c['la']), 6)
        if ns:
            la[me - ns:] = 0.0      # stationarity in a slack of at least 0.2 forces a zero multiplier
        g = -(mu + A.T @ la)
    if not np.any(g) or not (act or me):
        rec.trivial()
    lm = call(c, g, x, A, lb, ub)
    for i, k in enumerate(c['kind']):
        tiny = 1e-12
        v = lm[i]
        if k == 'none':
            require(v == 0, 'variable %d has no bounds but multiplier %r', i, v)
        if k in ('lower', 'offlower'):
            require(v <= tiny, 'lower bound of variable %d (%s) has multiplier %r', i, k, v)
        if k in ('upper', 'offupper'):
            require(v >= -tiny, 'upper bound of variable %d (%s) has multiplier %r', i, k, v)
        if k == 'both':
            require(v == 0, 'variable %d at both bounds has multiplier %r', i, v)
        rec.label(k)
    scale = 1 + np.abs(g).max()
    G = np.concatenate([g, np.zeros(ns)])
    if all(k in ('none', 'both') for k in c['kind']) and me:
        ref = -np.linalg.lstsq(J.T, G, rcond=None)[0]
        err = np.abs(lm[n:] - ref).max()
        require(err <= 1e-5 * scale, 'multipliers %s, least squares gives %s', lm[n:].tolist(), ref.tolist())
        rec.label('exact')
    if c['kkt']:
        res = G + J.T @ lm[n:]
        res[:n] += lm[:n]
        r = np.linalg.norm(res)
        require(r <= 1e-5 * scale, 'stationary point, but the multipliers leave a residual of %.3g', r)
        rec.label('kkt')


PARTS = [Part('signs', cases(), body, 4000, 80000, shards=8),
         Part('stationary', cases(True), body, 4000, 80000, shards=8),
         Part('unbounded', cases(bounds=False), body, 2000, 40000, shards=8)]
