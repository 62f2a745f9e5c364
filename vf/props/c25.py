"""Second-order information: Hessian of the model of the Lagrangian, or the quasi-Newton update from the change of its gradient."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Part, require, sut
from ..e2e import householder
from .c13 import setmatrix

RULE = ('a case of the model form counts when the interpolation matrix has condition number at most 1e6 and the reference Hessian is not zero; '
        'one of the quasi-Newton form when the gradient of the Lagrangian changed and the step is not zero')
ASSUMPTIONS = ['the multipliers of the constraints follow those of the n bounds', 'slack variables enter as their squares, constant in the point']
NAMES = ['subbasis', 'frobnorm', 'l2norm', 'regression']


class Info:
    pass


@st.composite
def common(draw, c):
    n = c['n']
    me = c['me'] = draw(st.integers(0, 2))
    ns = draw(st.integers(0, me))
    c['sl'] = draw(gen.vec(ns, 0, 2))
    c['lm'] = draw(gen.vec(n + me, -3, 3))
    c['g0'] = draw(gen.vec(n, -5, 5))
    c['A0'] = draw(gen.mat(me, n, -3, 3)) if me else []
    c['g1'] = draw(gen.vec(n, -5, 5))
    c['A1'] = draw(gen.mat(me, n, -3, 3)) if me else []
    c['null'] = draw(st.integers(0, 9)) == 0
    c['d'] = draw(gen.vec(n, 0.25, 8))
    c['v'] = draw(gen.vec(n, -1, 1))
    c['s'] = draw(gen.vec(n, -2, 2))
    c['niter'] = draw(st.sampled_from([1, 2, 3, 7]))
    c['nsimul'] = draw(st.integers(2, 30))
    c['restart'] = draw(st.sampled_from([0, 0, 1, 2, 3, 5, 7]))
    return c


@st.composite
def model_cases(draw):
    c = draw(gen.pointset(nmax=3))
    c['which'] = draw(st.integers(0, 3))
    c['shift'] = draw(st.sampled_from([1, 1, 0]))
    k = len(c['Y'])
    c['f'] = draw(gen.vec(k, -10, 10))
    c['ce'] = [draw(gen.vec(k, -10, 10)) for _ in range(2)]
    c['quad'] = draw(st.booleans())
    c['co'] = [draw(gen.vec(gen.nquad(c['n']), -4, 4)) for _ in range(3)]
    return draw(common(c))


@st.composite
def bfgs_cases(draw):
    return draw(common({'n': draw(st.integers(1, 4))}))


def setup(c):
    import sqpdfo.sqpdfo_global_variables as glob
    from sqpdfo.helper import dummyOptions, dummyValues
    n, me, ns = c['n'], c['me'], len(c['sl'])
    glob.set_nbr_slacks(ns)
    glob.set_slacks(np.array(c['sl']).reshape(-1, 1) if ns else None)
    info = Info()
    info.g = np.array(c['g0']).reshape(-1, 1)
    info.ae = np.array(c['A0']).reshape(me, n)
    info.ai = np.array([])
    info.ce, info.ci = np.zeros((me, 1)), np.array([])
    info.niter, info.nsimul, info.flag = c['niter'], np.array([0., c['nsimul'], 0., 0.]), 0
    opt = dummyOptions()
    opt.verbose, opt.bfgs_restart = 0, c['restart']
    M = householder(np.round(c['v'], 6), np.maximum(0.25, np.round(c['d'], 6)))
    M = (M + M.T) / 2
    gx, gce = np.array(c['g1']).reshape(-1, 1), np.array(c['A1']).reshape(me, n)
    lm = np.array(c['lm']).reshape(-1, 1)
    return info, opt, dummyValues(), M, gx, gce, lm


def run(args, c, info, M, gx, gce, lm, what):
    import sqpdfo.sqpdfo_global_variables as glob
    from sqpdfo.sqpdfo_computeHessian import sqpdfo_computeHessian_
    keep = [t.copy() for t in (M, gx, gce, lm, info.g, info.ae)]
    try:
        with sut(what):
            N, pc, inf2 = sqpdfo_computeHessian_(*args)
    finally:
        glob.set_nbr_slacks(0)
        glob.set_slacks(None)
    for a, b in zip(keep, (M, gx, gce, lm, info.g, info.ae)):
        require(np.array_equal(a, b), '%s: an argument was modified', what)
    N = np.asarray(N, float)
    if c['null']:
        require(np.array_equal(N, M), 'Hessian approximation changed without a step')
        require(np.array_equal(inf2.g, info.g), 'gradient changed without a step')
        return None
    require(np.array_equal(np.asarray(inf2.g), gx) and np.array_equal(np.asarray(inf2.ae), gce), 'the derivatives of the new point are not stored')
    return N, pc, inf2


def body_model(c, rec):
    from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
    from sqpdfo.bcdfo_computeP import bcdfo_computeP_
    n, me, w, ns = c['n'], c['me'], c['which'], len(c['sl'])
    Y = np.array(c['Y']).T.copy()
    q = gen.nquad(n)
    p1 = Y.shape[1]
    Z, base, s = ref.matrix(Y, q, c['shift'])
    A = setmatrix(Z, w, n, p1, q)
    cond = np.linalg.cond(A)
    if not cond <= 1e6:
        rec.trivial()
        return
    f = np.array(c['f'])[:p1]
    ce = np.array(c['ce'])[:me, :p1]
    if c['quad']:
        f = Z @ np.array(c['co'][0])
        ce = np.array([Z @ np.array(c['co'][1 + k]) for k in range(me)]).reshape(me, p1)
    info, opt, val, M, gx, gce, lm = setup(c)
    opt.hess_approx = val.model
    K = (1.0, 1.0, 1e15)
    with sut('building the model'):
        QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, w, c['shift'], *K)
        data = np.vstack([f.reshape(1, -1), ce]) if me else f.reshape(1, -1)
        fc = bcdfo_computeP_(QZ, RZ, Y, data, w, np.zeros((1 + me, q)), list(range(p1)), 0, 0, None, sc, c['shift'], 1.0)
    ceY = ce.copy() if me else np.array([])
    args = (None, Y[:, [0]], int(c['null']), me, lm, M, n, me, 0, np.array(c['s']).reshape(-1, 1), gx, np.array([]), gce, info, opt, val, fc, Y, f.copy(),
            np.array([]), ceY, 1.0, sc, c['shift'], QZ, RZ, w, np.arange(p1), 0, p1 - 1)
    r = run(args, c, info, M, gx, gce, lm, 'Hessian of the model')
    if r is None:
        rec.label('no-step')
        return
    H = r[0]
    # reference: minimum-norm family member through the Lagrangian values, its Hessian in the original variables
    off = np.zeros(me)
    if ns:
        off[me - ns:] = np.array(c['sl']) ** 2
    la = np.array(c['lm'])[n:]
    v = f + la @ (ce - off[:, None]) if me else f
    if w == 1 and n + 1 < p1 < q:
        MQ = Z[:, n + 1:]
        sol = np.linalg.solve(A, np.concatenate([v, np.zeros(n + 1)]))
        C = np.concatenate([sol[p1:], MQ.T @ sol[:p1]])
    elif w in (0, 1) or p1 == q:
        C = np.linalg.solve(Z[:, :p1], v)
    else:
        C = np.linalg.lstsq(Z, v, rcond=None)[0]
    R = ref.unpack(C, n)[2] * s * s
    if not np.any(R):
        rec.trivial()
    tol = 1e-11 * max(cond, 100) * (np.abs(C).max() + np.abs(v).max()) * s * s + 1e-12
    require(H.shape == (n, n), 'Hessian of shape %s', H.shape)
    err = np.abs(H - R).max()
    require(err <= tol, 'Hessian of the %s model of the Lagrangian is off by %.3g (tolerance %.3g)', NAMES[w], err, tol)
    if c['quad'] and p1 == q and me:
        E = ref.unpack(c['co'][0], n)[2] + sum(la[k] * ref.unpack(c['co'][1 + k], n)[2] for k in range(me))
        err = np.abs(H - E * s * s).max()
        require(err <= 10 * tol, 'exact Hessian of the Lagrangian missed by %.3g', err)
        rec.label('exact')
    rec.label(NAMES[w], 'me%d' % me, 'slacks%d' % ns)


def body_bfgs(c, rec):
    n, me = c['n'], c['me']
    info, opt, val, M, gx, gce, lm = setup(c)
    opt.hess_approx = val.bfgs
    s = np.round(np.array(c['s']), 6).reshape(-1, 1)
    if not np.any(s) and not c['null']:
        rec.trivial()
        return
    y = gx - info.g
    if me:
        y = y + (gce - info.ae).T @ lm[n:]
    args = (None, np.zeros((n, 1)), int(c['null']), me, lm, M, n, me, 0, s, gx, np.array([]), gce, info, opt, val, None, np.zeros((n, 2)), np.zeros(2),
            np.array([]), np.zeros((me, 2)) if me else np.array([]), 1.0, None, 1, None, None, 0, None, 0, 1)
    r = run(args, c, info, M, gx, gce, lm, 'quasi-Newton update')
    if r is None:
        rec.label('no-step')
        return
    N, pc, inf2 = r
    pc = float(np.asarray(pc).item())
    if c['restart'] and c['nsimul'] % c['restart'] == 0:
        require(np.array_equal(N, np.eye(n)), 'restart of the approximation gives %s', N.tolist())
        rec.label('restart')
        return
    if not np.any(np.abs(y) > 1e-9):
        rec.trivial()
        return
    ys, sMs = float((y.T @ s).item()), float((s.T @ M @ s).item())
    th = 1.0
    if ys < 0.2 * sMs:
        th = 0.8 * sMs / (sMs - ys)
    yt = th * y + (1 - th) * (M @ s)
    yts = float((yt.T @ s).item())
    B = M
    if c['niter'] == 1:
        B = float((yt.T @ yt).item()) / yts * np.eye(n)
    Bs = B @ s
    R = B - Bs @ Bs.T / float((s.T @ Bs).item()) + yt @ yt.T / yts
    scale = max(np.abs(B).max(), np.abs(R).max(), 1.0)
    err = np.abs(N - R).max()
    require(err <= 1e-8 * scale, 'update differs from the damped BFGS formula for the change of the Lagrangian gradient by %.3g (values up to %.3g)', err, scale)
    rec.label('damped' if th < 1 else 'plain', 'me%d' % me, 'first' if c['niter'] == 1 else 'later')


PARTS = [Part('model', model_cases(), body_model, 3000, 60000, shards=8),
         Part('update', bfgs_cases(), body_bfgs, 4000, 80000, shards=8)]
