"""Geometry improvement of interpolation sets."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Part, require, sut
from .c13 import setmatrix

RULE = 'a case counts when the starting set has condition number at most 1e6 and the Lagrange polynomials involved are not flat (gradient norm at least 1e-5 in scaled variables)'
NAMES = ['subbasis', 'frobnorm', 'l2norm', 'regression']


@st.composite
def cases(draw):
    c = draw(gen.pointset(nmax=3))
    c['which'] = draw(st.integers(0, 3))
    c['shift'] = draw(st.sampled_from([1, 1, 1, 0]))
    c['j'] = draw(st.integers(1, 30))
    c['dm'] = draw(st.sampled_from([0.01, 0.1, 0.5, 1.0, 1.0, 3.0]))
    c['z'] = draw(st.lists(gen.vec(c['n'], -1, 1), min_size=4, max_size=8))
    c['far'] = draw(st.sampled_from([1, 1, 10]))
    return c


def prep(c, rec):
    from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
    n, w, sh = c['n'], c['which'], c['shift']
    Y = np.array(c['Y']).T.copy()
    q, p1 = gen.nquad(n), Y.shape[1]
    Z, base, s = ref.matrix(Y, q, sh)
    cond = np.linalg.cond(setmatrix(Z, w, n, p1, q))
    if not cond <= 1e6:
        rec.trivial()
        return None
    rec.label(NAMES[w], 'shift' if sh else 'noshift')
    rad = np.sqrt(((Y - Y[:, [0]]) ** 2).sum(0)).max()
    with sut('build'):
        QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, w, sh, rad, 1.0, 1e15)
    return n, w, sh, Y, q, p1, cond, rad, QZ, RZ, xb, sc


def lvals(QZ, RZ, Y, z, xb, w, sc, sh):
    from sqpdfo.bcdfo_evalL import bcdfo_evalL_
    with sut('evaluating Lagrange polynomials'):
        return np.asarray(bcdfo_evalL_(QZ, RZ, Y, np.arange(Y.shape[1]), z.reshape(-1, 1), xb, w, sc, sh), float).ravel()


def slope(QZ, RZ, Y, j, w, sc, sh):
    """Gradient norm of the j-th Lagrange polynomial at the base point, in scaled variables."""
    from sqpdfo.bcdfo_computeLj import bcdfo_computeLj_
    with sut('Lagrange polynomial'):
        L = np.asarray(bcdfo_computeLj_(QZ, RZ, j, Y, w, sc, sh), float)
    c, g, H = ref.unpack(L, Y.shape[0])
    if not sh:
        g = g + H @ Y[:, 0]
    return np.linalg.norm(g), max(np.abs(L).max(), 1.0)


def improve_body(c, rec):
    """A proposed replacement maximises the absolute Lagrange polynomial over the ball."""
    from sqpdfo.bcdfo_find_new_yj import bcdfo_find_new_yj_
    t = prep(c, rec)
    if t is None:
        return
    n, w, sh, Y, q, p1, cond, rad, QZ, RZ, xb, sc = t
    j = 1 + c['j'] % (p1 - 1)
    D = rad * c['dm']
    Y0 = Y.copy()
    with sut('proposing a point'):
        y, imp, msg = bcdfo_find_new_yj_(QZ, RZ, Y, j, D, 1e-3, xb, 1, w, sc, sh)
    require(np.array_equal(Y, Y0), 'the interpolation set was modified')
    y = np.asarray(y, float).reshape(-1)
    imp = float(np.asarray(imp).item())
    b = Y[:, 0]
    require(np.linalg.norm(y - b) <= D * (1 + 1e-3) * (1 + 1e-6) + 1e-9 * np.abs(b).max(), 'proposed point at distance %g of the base point, radius %g', np.linalg.norm(y - b), D)
    sl, big = slope(QZ, RZ, Y, j, w, sc, sh)
    if sl < 1e-5:
        rec.trivial()
        return
    v = lvals(QZ, RZ, Y, y, xb, w, sc, sh)[j]
    bz = max(1.0, c['dm']) ** 2 if sh else max(1.0, np.abs(Y).max() + D) ** 2
    tol = 1e-12 * max(cond, 100) * big * bz * 10
    require(abs(abs(v) - imp) <= tol + 1e-9 * imp, 'reported improvement %r, the Lagrange polynomial has value %r there', imp, v)
    best = imp
    for z in c['z']:
        d = np.array(z)
        nd = np.linalg.norm(d)
        if nd == 0:
            continue
        for r in (1.0, 0.5):
            zz = b + D * (1 - 1e-3) * r * d / nd
            u = abs(lvals(QZ, RZ, Y, zz, xb, w, sc, sh)[j])
            best = max(best, u)
            require(u <= imp * (1 + 1e-6) + tol, 'proposed improvement %r, but %s in the ball has absolute value %r', imp, zz.tolist(), u)
    rec.label('improve')


def repair_body(c, rec):
    from sqpdfo.bcdfo_poisedness_Y import bcdfo_poisedness_Y_
    from sqpdfo.bcdfo_repair_Y import bcdfo_repair_Y_
    t = prep(c, rec)
    if t is None:
        return
    n, w, sh, Y, q, p1, cond, rad, QZ, RZ, xb, sc = t
    D = rad * c['dm']
    Y0 = Y.copy()
    e = 1e-3
    with sut('poisedness'):
        lam0, r0 = bcdfo_poisedness_Y_(QZ, RZ, Y, e, xb, 1, w, 0, None, None, None, 1, sc, sh)
    require(abs(float(np.asarray(r0).item()) - rad) <= 1e-12 * rad, 'radius of the set reported as %r instead of %r', r0, rad)
    lam0 = float(np.asarray(lam0).item())
    tol = 1e-10 * max(cond, 100) * max(1.0, (np.abs(Y).max() if not sh else 1.0) ** 2)
    for z in c['z']:
        d = np.array(z)
        nd = np.linalg.norm(d)
        if nd:
            L = lvals(QZ, RZ, Y, Y[:, 0] + rad * (1 - e) * d / nd, xb, w, sc, sh)
            for j in range(1, p1):
                sl, big = slope(QZ, RZ, Y, j, w, sc, sh)
                if sl >= 1e-5:
                    require(abs(L[j]) <= lam0 * (1 + 1e-6) + tol * big, 'poisedness %r, but Lagrange polynomial %d reaches %r within the radius', lam0, j, L[j])
    with sut('repair'):
        QZ2, RZ2, Y2, rep, mx, r2, xb2, sc2 = bcdfo_repair_Y_(QZ, RZ, Y, D, c['far'], 1e-10, 1.2, e, xb, 1, w, 0, None, None, None, 1, sc, sh, 1.0, 1e15)
    require(np.array_equal(Y, Y0), 'the interpolation set passed in was modified')
    require(Y2.shape == Y.shape, 'repaired set has shape %s', Y2.shape)
    require(np.array_equal(Y2[:, 0], Y[:, 0]), 'the current iterate was replaced')
    rep = sorted(int(t) for t in np.asarray(rep).ravel())
    require(len(set(rep)) == len(rep), 'a point is listed twice as replaced: %s', rep)
    changed = [j for j in range(p1) if not np.array_equal(Y[:, j], Y2[:, j])]
    require(set(changed) <= set(rep), 'points %s changed, reported as replaced: %s', changed, rep)
    dist = np.sqrt(((Y2 - Y2[:, [0]]) ** 2).sum(0))
    lim = D * (1 + e) * (1 + 1e-6) + 1e-9 * np.abs(Y).max()
    for j in range(1, p1):
        require(dist[j] <= (lim if j in rep else c['far'] * D * (1 + e) * (1 + 1e-9)), 'point %d (%s) is at distance %g, radius %g, factor %g', j, 'replaced' if j in rep else 'kept', dist[j], D, c['far'])
    require(abs(float(np.asarray(r2).item()) - dist.max()) <= 1e-9 * dist.max() + 1e-12 or not rep, 'radius of the repaired set reported as %r instead of %r', r2, dist.max())
    Z, base, s = ref.matrix(Y2, q, sh)
    cond2 = np.linalg.cond(setmatrix(Z, w, n, p1, q))
    rec.label('replaced' if rep else 'kept')
    if not cond2 <= 1e6:
        rec.label('still-bad')
        return
    # factorisation belongs to the new set
    from sqpdfo.bcdfo_computeP import bcdfo_computeP_
    from sqpdfo.bcdfo_evalP import bcdfo_evalP_
    f = np.sin(np.arange(1, p1 + 1) * 1.7).reshape(1, -1)
    with sut('model of the repaired set'):
        P = bcdfo_computeP_(QZ2, RZ2, Y2, f, w, np.zeros((1, q)), list(range(p1)), 0, 0, None, sc2, sh, D)
        v = np.array([float(np.asarray(bcdfo_evalP_(P, Y2[:, [j]], xb2, sc2, sh)).item()) for j in range(p1)])
    require(np.abs(v - f).max() <= 1e-12 * max(cond2, 100) * 20, 'factorisation does not belong to the repaired set')


def judged_poised(c, rec):
    """After repair no replacement within the radius improves a Lagrange value beyond the threshold."""
    from sqpdfo.bcdfo_repair_Y import bcdfo_repair_Y_
    t = prep(c, rec)
    if t is None:
        return
    n, w, sh, Y, q, p1, cond, rad, QZ, RZ, xb, sc = t
    D = rad * c['dm']
    with sut('repair'):
        QZ2, RZ2, Y2, rep, mx, r2, xb2, sc2 = bcdfo_repair_Y_(QZ, RZ, Y, D, c['far'], 1e-10, 1.2, 1e-3, xb, 1, w, 0, None, None, None, 1, sc, sh, 1.0, 1e15)
    mx = float(np.asarray(mx).item())
    Z, base, s = ref.matrix(Y2, q, sh)
    cond2 = np.linalg.cond(setmatrix(Z, w, n, p1, q))
    if not cond2 <= 1e6 or mx >= 1.2:
        rec.trivial()
        rec.label('unfinished' if mx >= 1.2 else 'still-bad')
        return
    tol = 1e-10 * max(cond2, 100) * max(1.0, (np.abs(Y2).max() if not sh else 1.0) ** 2)
    for z in c['z']:
        d = np.array(z)
        nd = np.linalg.norm(d)
        if nd:
            L = lvals(QZ2, RZ2, Y2, Y2[:, 0] + D * (1 - 1e-3) * d / nd, xb2, w, sc2, sh)
            for j in range(1, p1):
                sl, big = slope(QZ2, RZ2, Y2, j, w, sc2, sh)
                if sl >= 1e-5:
                    require(abs(L[j]) <= max(1.2, mx) * (1 + 1e-6) + tol * big, 'repaired set: Lagrange polynomial %d reaches %r within the radius, threshold 1.2', j, L[j])
    rec.label('poised')


PARTS = [Part('improve', cases(), improve_body, 1500, 30000, shards=8),
         Part('repair', cases(), repair_body, 800, 10000, shards=8),
         Part('poised', cases(), judged_poised, 600, 10000, shards=8)]
