"""Repair of matrices that are not convex or badly conditioned."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Part, require, sut
from ..e2e import householder

RULE = 'a case counts when the matrix had to be changed'
ASSUMPTIONS = ['symmetric matrices; entries finite, for the conditioning repair also NaN']
FLOOR, NEW = 1e-10, 1e-9


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    return {'n': n, 'd': draw(st.lists(st.one_of(gen.vec(1, -5, 5).map(lambda v: v[0]), st.sampled_from([0.0, 1e-12, -1e-12, 1e-9, 1e-6, -3.0, 2.0])), min_size=n, max_size=n)),
            'v': draw(st.one_of(st.just([0.0] * n), gen.vec(n, -1, 1))), 's': draw(gen.scale(-2, 3)),
            'thr': draw(st.sampled_from([10.0, 1e3, 1e8, 1e17])), 'nan': draw(st.sampled_from([0, 0, 0, 1]))}


def make(c):
    A = householder(np.round(c['v'], 6), np.array(c['d']) * c['s'])
    return (A + A.T) / 2


def convex(c, rec):
    from sqpdfo.helper import dummyOptions
    from sqpdfo.sqpdfo_check_convex import sqpdfo_check_convex_
    A = make(c)
    opt = dummyOptions()
    opt.verbose = 0
    k = A.copy()
    with sut('convexity repair'):
        B = np.asarray(sqpdfo_check_convex_(A, opt), float)
    require(np.array_equal(A, k), 'argument modified')
    e, U = np.linalg.eigh(A)
    sc = max(1e-8, np.abs(e).max())
    tol = 1e-13 * sc * 50
    if e[0] > tol:
        require(np.array_equal(B, A), 'positive definite matrix changed')
        rec.label('kept')
        rec.trivial()
        return
    w = np.linalg.eigvalsh((B + B.T) / 2)
    require(np.abs(B - B.T).max() <= tol, 'result not symmetric')
    require(w[0] >= -tol, 'result has the negative eigenvalue %.3g', w[0])
    if e[0] < -tol:
        ref = U @ np.diag(np.where(e < FLOOR, NEW, e)) @ U.T
        err = np.abs(B - ref).max()
        require(err <= tol + 1.1e-9, 'result differs by %.3g from the matrix with its negative eigenvalues removed', err)
        require(np.abs(np.linalg.eigvalsh((B + B.T) / 2) - np.sort(np.where(e < FLOOR, NEW, e))).max() <= tol + 1.1e-9, 'wrong eigenvalues')
        if tol < 1e-10:
            require(w[0] > 0, 'result is not positive definite')
        rec.label('repaired')
    else:
        require(np.abs(B - A).max() <= tol + 1.1e-9, 'positive semidefinite matrix changed by %.3g', np.abs(B - A).max())
        rec.label('singular')


def conditioned(c, rec):
    from sqpdfo.helper import dummyOptions
    from sqpdfo.sqpdfo_check_cond import sqpdfo_check_cond_
    A = make(c)
    if c['nan'] and c['n'] > 1:
        A[0, 1] = A[1, 0] = np.nan
    opt = dummyOptions()
    opt.verbose = 0
    with sut('condition repair'):
        B, bad = sqpdfo_check_cond_(A.copy(), c['thr'], opt)
    B = np.asarray(B, float)
    require(np.all(np.isfinite(B)), 'result is not finite')
    if c['nan'] and c['n'] > 1:
        A[0, 1] = A[1, 0] = 0.0
        rec.label('nan')
    sv = np.linalg.svd(A, compute_uv=False)
    cond = sv[0] / sv[-1] if sv[-1] > 0 else np.inf
    if cond < c['thr'] * (1 - 1e-3) and cond < 1e13:
        require(not bad and np.array_equal(B, A), 'well-conditioned matrix changed (condition %.3g, threshold %.3g)', cond, c['thr'])
        rec.label('kept')
        rec.trivial()
    elif cond > c['thr'] * (1 + 1e-3) and (c['thr'] < 1e13 or sv[-1] == 0 == sv[0]):
        require(bad, 'condition %.3g above the threshold %.3g not reported', cond, c['thr'])
        tol = 1e-12 * max(1, sv[0])
        require(np.abs(B - B.T).max() <= tol, 'result not symmetric')
        require(np.linalg.norm(B - A, 2) <= 1.01e-7 + tol, 'matrix changed by %.3g', np.linalg.norm(B - A, 2))
        ns = np.linalg.svd(B, compute_uv=False)
        if np.sum(sv < 2e-7) == 1:      # with a larger null space the result is only symmetrised
            require(ns[-1] >= 0.99e-7 - tol, 'smallest singular value is still %.3g', ns[-1])
        rec.label('repaired')
    else:
        rec.trivial()


PARTS = [Part('convex', cases(), convex, 4000, 80000, shards=8),
         Part('conditioned', cases(), conditioned, 3000, 60000, shards=8)]
