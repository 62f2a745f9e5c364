"""First-order residual of the Lagrangian, infeasibility and projected gradient."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Part, require, sut

RULE = 'a residual case counts when a bound is active or there is a constraint; a projection case when the projected gradient is neither zero nor the gradient'
ASSUMPTIONS = ['a bound counts as active within 1e-5 (generated distances stay away from that value)', 'the point of the projected gradient lies inside its bounds']
DIST = [0.0, 0.0, 1e-7, 4e-6, 3e-5, 1e-3, 0.5, 2.0, 100.0, None]


class Info:
    pass


def bounds(c):
    x = np.round(np.array(c['x']), 6).reshape(-1, 1)
    lb = np.array([-np.inf if d is None else x[i, 0] - d for i, d in enumerate(c['lo'])]).reshape(-1, 1)
    ub = np.array([np.inf if d is None else x[i, 0] + d for i, d in enumerate(c['hi'])]).reshape(-1, 1)
    return x, lb, ub


@st.composite
def common(draw):
    n = draw(st.integers(1, 6))
    return {'n': n, 'x': draw(gen.vec(n, -4, 4)), 'lo': [draw(st.sampled_from(DIST)) for _ in range(n)], 'hi': [draw(st.sampled_from(DIST)) for _ in range(n)],
            'g': draw(gen.vec(n, -6, 6)), 'gs': draw(gen.scale(-6, 6))}


@st.composite
def residual_cases(draw):
    c = draw(common())
    n = c['n']
    me = c['me'] = draw(st.integers(0, 3))
    ns = draw(st.integers(0, me))
    c['sl'] = draw(gen.vec(ns, -2, 2))
    c['A'] = draw(gen.mat(me, n, -3, 3)) if me else []
    c['ce'] = draw(gen.vec(me, -5, 5))
    c['lm'] = draw(gen.vec(n + me, -4, 4))
    c['more'] = draw(st.booleans())
    return c


def residual(c, rec):
    import sqpdfo.sqpdfo_global_variables as glob
    from sqpdfo.helper import dummyOptions
    from sqpdfo.sqpdfo_optimality import sqpdfo_optimality_
    n, me, ns = c['n'], c['me'], len(c['sl'])
    x, lb, ub = bounds(c)
    g = np.array(c['g']).reshape(-1, 1) * c['gs']
    A = np.array(c['A']).reshape(me, n)
    sl = np.array(c['sl']).reshape(-1, 1)
    lm = np.array(c['lm']).reshape(-1, 1)
    ce = np.array(c['ce']).reshape(-1, 1)
    info = Info()
    info.g, info.ae, info.ai = g.copy(), A.copy() if me else np.array([]), np.array([])
    info.ce, info.ci, info.flag = ce.copy() if me else np.array([]), np.array([]), 0
    info.glag = np.zeros((n, 1))
    opt = dummyOptions()
    opt.verbose, opt.inf, opt.dxmin = 0, np.inf, 1e-8
    glob.set_nbr_slacks(ns)
    glob.set_slacks(sl.copy() if ns else None)
    LB, UB = lb, ub
    if ns and c['more']:        # the bounds of the slack variables follow those of the variables
        LB, UB = np.vstack([lb, np.zeros((ns, 1))]), np.vstack([ub, np.full((ns, 1), np.inf)])
        xx = x
    args = [x.copy(), lm.copy(), LB[:n].copy(), UB[:n].copy()]
    keep = [t.copy() for t in args]
    try:
        with sut('residual'):
            feas, compl, out = sqpdfo_optimality_(*args, info, opt, nargout=3)
    finally:
        glob.set_nbr_slacks(0)
        glob.set_slacks(None)
    for a, b in zip(args, keep):
        require(np.array_equal(a, b), 'an argument was modified')
    require(np.array_equal(info.g, g) and np.array_equal(out.g, g) and (not me or (np.array_equal(out.ae, A) and np.array_equal(out.ce, ce))),
            'gradient, Jacobian or constraint values changed')
    act = np.array([[c['lo'][i] is not None and c['lo'][i] < 1e-5 or c['hi'][i] is not None and c['hi'][i] < 1e-5] for i in range(n)])
    R = g + np.where(act, lm[:n], 0.0)
    if me:
        R = R + A.T @ lm[n:]
    G = np.asarray(out.glag, float)
    require(G.shape == (n, 1), 'gradient of the Lagrangian has shape %s', G.shape)
    tol = 1e-12 * (np.abs(g).max() + 100)
    err = np.abs(G - R).max()
    require(err <= tol, 'gradient of the Lagrangian is %s, expected %s', G.ravel().tolist(), R.ravel().tolist())
    if me:
        off = np.zeros((me, 1))
        if ns:
            off[me - ns:] = sl ** 2
        F = np.asarray(feas, float).reshape(-1, 1)
        require(F.shape == (me, 1) and np.abs(F - (ce - off)).max() <= 1e-13 * 100, 'infeasibility is %s, expected %s', F.tolist(), (ce - off).tolist())
    else:
        require(np.asarray(feas).size == 0, 'infeasibility %r without constraints', feas)
    require(not np.any(np.asarray(compl, float)), 'complementarity %r', compl)
    if not (act.any() or me):
        rec.trivial()
    rec.label('me%d' % me, 'slacks%d' % ns, 'active%d' % act.sum())


def project(c, rec):
    from sqpdfo.bcdfo_projgrad import bcdfo_projgrad_
    n = c['n']
    x, lb, ub = bounds(c)
    g = np.array(c['g']).reshape(-1, 1) * c['gs']
    args = [x.copy(), g.copy(), lb.copy(), ub.copy()]
    with sut('projected gradient'):
        norm, p = bcdfo_projgrad_(n, *args)
    for a, b in zip(args, (x, g, lb, ub)):
        require(np.array_equal(a, b), 'an argument was modified')
    R = np.where(g < 0, -np.minimum(ub - x, -g), np.minimum(x - lb, g))
    p = np.asarray(p, float)
    require(p.shape == (n, 1) and np.abs(p - R).max() <= 1e-12 * (1 + np.abs(g).max()), 'projected gradient %s, expected %s', p.tolist(), R.tolist())
    norm = float(np.asarray(norm).item())
    require(norm == np.abs(p).max(), 'norm %r of the projected gradient %s', norm, p.tolist())
    same = np.array_equal(R, g)
    if same or not R.any():
        rec.trivial()
    rec.label('free' if same else 'cut')


PARTS = [Part('residual', residual_cases(), residual, 4000, 60000, shards=8),
         Part('projection', common(), project, 4000, 60000, shards=8)]
