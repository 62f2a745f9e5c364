"""Lagrange polynomials of an interpolation set."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Part, require, sut

RULE = 'a case counts when the interpolation matrix of the generated set has condition number at most 1e6'
NAMES = ['subbasis', 'frobnorm', 'l2norm', 'regression']


@st.composite
def cases(draw):
    c = draw(gen.pointset())
    c['which'] = draw(st.integers(0, 3))
    c['shift'] = draw(st.sampled_from([1, 1, 0]))
    c['z'] = draw(gen.vec(c['n'], -1.5, 1.5))
    c['f'] = draw(gen.vec(len(c['Y']), -10, 10))
    c['sub'] = draw(st.lists(st.integers(0, len(c['Y']) - 1), min_size=1, max_size=len(c['Y']), unique=True))
    return c


def setmatrix(Z, w, n, p1, q):
    if w == 0 or (w == 1 and p1 == n + 1):
        return Z[:, :p1]
    if w == 1 and p1 < q:
        ML, MQ = Z[:, :n + 1], Z[:, n + 1:]
        return np.block([[MQ @ MQ.T, ML], [ML.T, np.zeros((n + 1, n + 1))]])
    return Z


def body(c, rec):
    from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
    from sqpdfo.bcdfo_computeLj import bcdfo_computeLj_
    from sqpdfo.bcdfo_computeP import bcdfo_computeP_
    from sqpdfo.bcdfo_evalL import bcdfo_evalL_
    from sqpdfo.bcdfo_evalP import bcdfo_evalP_
    n, Y, w, sh = c['n'], np.array(c['Y']).T, c['which'], c['shift']
    q, p1 = gen.nquad(n), Y.shape[1]
    Z, base, s = ref.matrix(Y, q, sh)
    cond = np.linalg.cond(setmatrix(Z, w, n, p1, q))
    if not cond <= 1e6:
        rec.trivial()
        return
    rec.label(NAMES[w], 'lin' if p1 == n + 1 else 'full' if p1 == q else 'under', 'shift' if sh else 'noshift')
    tol = 1e-12 * max(cond, 100)
    Y0 = Y.copy()
    z = (base + np.array(c['z']) / s).reshape(-1, 1)
    bz = np.abs(ref.basis((z.ravel() - base) * s, q)).max()
    f = np.array([c['f']])
    with sut('Lagrange polynomials'):
        QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, w, sh, 1.0, 1.0, 1e15)
        L = [bcdfo_computeLj_(QZ, RZ, j, Y, w, sc, sh) for j in range(p1)]
        atY = np.array([[float(np.asarray(bcdfo_evalP_(l, Y[:, [k]], xb, sc, sh)).item()) for k in range(p1)] for l in L])
        atz = np.array([float(np.asarray(bcdfo_evalP_(l, z, xb, sc, sh)).item()) for l in L])
        ev = np.asarray(bcdfo_evalL_(QZ, RZ, Y, np.arange(p1), z, xb, w, sc, sh), float)
        es = np.asarray(bcdfo_evalL_(QZ, RZ, Y, np.array(c['sub']), z, xb, w, sc, sh), float)
        P = bcdfo_computeP_(QZ, RZ, Y, f, w, np.zeros((1, q)), list(range(p1)), 0, 0, None, sc, sh, 1.0)
        m = float(np.asarray(bcdfo_evalP_(P, z, xb, sc, sh)).item())
    require(np.array_equal(Y, Y0), 'the interpolation set was modified')
    big = max(1.0, np.abs(L[0]).max(), max(np.abs(l).max() for l in L)) * max(bz, 1.0)
    err = np.abs(atY - np.eye(p1)).max()
    require(err <= tol * big, '%s: Lagrange polynomials are not 0/1 at the points: error %.3g (condition %.1g)', NAMES[w], err, cond)
    require(ev.size == p1, 'wrong number of values')
    err = np.abs(ev.ravel() - atz).max()
    require(err <= tol * big * 10, '%s: value of the Lagrange polynomials at a point differs by %.3g from their coefficients', NAMES[w], err)
    full = np.zeros(p1)
    full[c['sub']] = ev.ravel()[c['sub']]
    err = np.abs(es.ravel() - full).max()
    require(err <= tol * big, 'values for a subset of the points differ by %.3g', err)
    err = abs(ev.ravel() @ f.ravel() - m)
    require(err <= tol * big * 100 * max(1.0, np.abs(f).max()), '%s: model is not the combination of Lagrange polynomials: %.3g', NAMES[w], err)
    # constants are reproduced by every model class: the polynomials sum to one
    err = abs(ev.sum() - 1.0)
    if w != 2 and not (w == 3 and p1 < q) or p1 == q:
        require(err <= tol * big * 10, '%s: Lagrange polynomials do not sum to one: %.3g', NAMES[w], err)


PARTS = [Part('lagrange', cases(), body, 3000, 40000, shards=8)]
