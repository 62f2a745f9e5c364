"""Interpolation models reproduce the data and are the right member of the interpolating family."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Part, require, sut

RULE = ('a case counts when the interpolation matrix of the generated set has condition number at most '
        '1e7 (otherwise nothing is asserted) and the data are not all equal')
NAMES = ['subbasis', 'frobnorm', 'l2norm', 'regression']


@st.composite
def cases(draw):
    c = draw(gen.pointset(over=True))
    c['which'] = draw(st.integers(0, 3))
    c['shift'] = draw(st.sampled_from([1, 1, 0]))
    k = len(c['Y'])
    c['nrhs'] = draw(st.integers(1, 3))
    c['f'] = [draw(gen.vec(k, -10, 10)) for _ in range(c['nrhs'])]
    c['fs'] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e4]))
    c['z'] = draw(gen.vec(c['n'], -1.5, 1.5))
    c['quad'] = draw(st.booleans())
    c['co'] = draw(gen.vec(gen.nquad(c['n']), -4, 4))
    return c


def body(c, rec):
    from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
    from sqpdfo.bcdfo_computeP import bcdfo_computeP_
    from sqpdfo.bcdfo_evalP import bcdfo_evalP_
    n, Y = c['n'], np.array(c['Y']).T
    q, p1, w = gen.nquad(n), Y.shape[1], c['which']
    if p1 > q and w != 3:
        Y = Y[:, :q]
        p1 = q
    Y0 = Y.copy()
    Z, base, s = ref.matrix(Y, q, c['shift'])
    if w == 0 or (w == 1 and p1 == n + 1):
        A = Z[:, :p1]
    elif w == 1 and p1 < q:
        ML, MQ = Z[:, :n + 1], Z[:, n + 1:]
        A = np.block([[MQ @ MQ.T, ML], [ML.T, np.zeros((n + 1, n + 1))]])
    else:
        A = Z
    cond = np.linalg.cond(A)
    f = np.array(c['f'])[:, :p1] * c['fs']
    if c['quad']:
        f = np.array([Z @ np.array(c['co']) * c['fs'] for _ in range(c['nrhs'])])
    if not cond <= 1e7 or not np.ptp(f) > 0:
        rec.trivial()
        return
    rec.label(NAMES[w], 'lin' if p1 == n + 1 else 'full' if p1 == q else 'over' if p1 > q else 'under',
              'shift' if c['shift'] else 'noshift')
    with sut('building the model'):
        QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, w, c['shift'], 1.0, 1.0, 1e15)
        P = bcdfo_computeP_(QZ, RZ, Y, f, w, np.zeros((1, q)), list(range(p1)), 0, 0, None, sc, c['shift'], 1.0)
        P = np.asarray(P, float)
        val = np.array([bcdfo_evalP_(P, Y[:, [j]], xb, sc, c['shift']) for j in range(p1)])[:, :, 0].T
        zz = base + np.array(c['z']) / s
        vz = np.asarray(bcdfo_evalP_(P, zz.reshape(-1, 1), xb, sc, c['shift']), float).ravel()
    require(np.array_equal(Y, Y0), 'building the model modified the interpolation set')
    require(P.shape[0] == len(f), 'wrong number of models: %s', P.shape)
    fmax = np.abs(f).max()
    tol = 1e-14 * max(cond, 100) * fmax * 100 + 1e-300
    # reference coefficients
    if w == 0 or p1 == q:
        C = np.linalg.solve(Z[:, :p1], f.T).T
    elif w == 1 and p1 == n + 1:
        C = np.linalg.solve(Z[:, :p1], f.T).T
    elif w == 1:
        sol = np.linalg.solve(A, np.vstack([f.T, np.zeros((n + 1, len(f)))]))
        C = np.hstack([sol[p1:].T, (MQ.T @ sol[:p1]).T])
    else:
        C = np.linalg.lstsq(Z, f.T, rcond=None)[0].T
    Cf = np.zeros((len(f), q))
    Cf[:, :C.shape[1]] = C
    if p1 <= q:
        err = np.abs(val - f).max()
        require(err <= tol, 'model %s does not interpolate: error %.3g (condition %.1g, values up to %.3g)',
                NAMES[w], err, cond, fmax)
    Pf = np.zeros((len(f), q))
    require(P.shape[1] <= q, 'too many coefficients')
    Pf[:, :P.shape[1]] = P
    bz = ref.basis((zz - base) * s, q)
    cmax = np.abs(Cf).max() + fmax
    err = np.abs(Pf - Cf).max()
    require(err <= 1e-13 * max(cond, 100) * cmax * 100,
            'model %s: coefficients differ from the reference by %.3g (condition %.1g)', NAMES[w], err, cond)
    err = np.abs(vz - Cf @ bz).max()
    require(err <= 1e-13 * max(cond, 100) * cmax * 1000,
            'model %s: value at another point differs from the reference by %.3g', NAMES[w], err)
    if c['quad'] and p1 >= q:
        rec.label('quadratic-recovered')
        err = np.abs(vz - bz @ np.array(c['co']) * c['fs']).max()
        require(err <= 1e-13 * max(cond, 100) * cmax * 1000, 'a quadratic is not recovered: error %.3g', err)


PARTS = [Part('models', cases(), body, 4000, 60000, shards=8)]
ASSUMPTIONS = ['only sets with condition number at most 1e7 are judged']
