"""Truncated conjugate gradients in a ball."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Part, require, sut
from ..e2e import householder

RULE = 'a case counts when the right-hand side is larger than the tolerance'
ASSUMPTIONS = ['up to 6 variables, eigenvalues between -5 and 5 (rounded to 1e-3) times 1e-3 to 1e3',
               'iteration limits from 1 to 20 per variable']


def body(c, rec):
    from sqpdfo.sqpdfo_truncated_cg import sqpdfo_truncated_cg_
    n = c['n']
    A = householder(np.round(c['v'], 3), np.round(c['d'], 3)) * c['as']
    A = (A + A.T) / 2
    b = np.round(np.array(c['b']), 6) * c['bs']
    D, tol, mx = c['delta'], c['tol'], c['max']
    a0, b0 = A.copy(), b.reshape(-1, 1).copy()
    b1 = b0.copy()
    with sut('truncated conjugate gradients'):
        x, info = sqpdfo_truncated_cg_(A, b1, D, mx, tol)
    require(np.array_equal(A, a0) and np.array_equal(b1, b0), 'an argument was modified')
    x = np.asarray(x, float)
    require(x.shape == (n, 1) and np.all(np.isfinite(x)), 'step is %s', x.tolist())
    x = x.ravel()
    fl = int(info.flag)
    nx, nb = np.linalg.norm(x), np.linalg.norm(b)
    nA = np.abs(np.linalg.eigvalsh(A))
    nA = nA.max()
    rec.label('flag%d' % fl)
    if nb <= tol:
        rec.trivial()
        require(fl == 0 and not x.any(), 'nothing to do, status %d and step %s', fl, x.tolist())
        return
    unit = nb * nx + nA * nx * nx
    q = 0.5 * x @ A @ x - b @ x
    require(nx <= D * (1 + 1e-9), 'step of length %r for radius %r (status %d)', nx, D, fl)
    r = np.linalg.norm(A @ x - b)
    lam = np.linalg.eigvalsh(A)
    if fl == 0:
        require(r <= tol + 1e-9 * (nb + nA * nx), 'status 0 with residual %g (tolerance %g)', r, tol)
        require(abs(float(np.asarray(info.prec).item()) - r) <= 1e-9 * (nb + nA * nx), 'reported residual %r, residual of the step %r', info.prec, r)
    elif fl in (1, 2):
        require(abs(nx - D) <= 1e-9 * D, 'status %d, but the step has length %r for radius %r', fl, nx, D)
        require(fl != 2 or lam[0] <= 1e-9 * nA, 'negative curvature reported for eigenvalues %s', lam.tolist())
    else:
        require(fl == -1, 'status %d', fl)
        require(info.iter >= mx, 'iteration limit reported after %r of %d iterations', info.iter, mx)
    require(int(info.iter) <= mx + 1, '%r iterations with a limit of %d', info.iter, mx)
    # at least the Cauchy decrease
    k = b @ A @ b
    t = D / nb if k <= 0 else min(D / nb, nb * nb / k)
    cau = 0.5 * t * t * k - t * nb * nb
    require(q <= cau * (1 - 1e-9) + 1e-12 * unit, 'decrease %g is below the Cauchy decrease %g (status %d)', -q, -cau, fl)
    if lam[0] > 1e-3 * nA:
        u = np.linalg.solve(A, b)
        if np.linalg.norm(u) < D * (1 - 1e-9) and mx >= 10 * n and tol >= 1e-10 * nb:
            rec.label('inside')
            require(fl == 0, 'solution of length %g inside the radius %g, status %d', np.linalg.norm(u), D, fl)
        if np.linalg.norm(u) > D * (1 + 1e-9) and tol <= 1e-12 * nb and mx >= 10 * n:
            require(fl == 1, 'solution of length %g outside the radius %g, status %d', np.linalg.norm(u), D, fl)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    c = {'n': n, 'd': draw(st.one_of(gen.vec(n, -5, 5), gen.vec(n, 0.125, 5))), 'v': draw(gen.vec(n, -2, 2)), 'b': draw(gen.vec(n, -5, 5))}
    c['as'] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3]))
    c['bs'] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3]))
    c['delta'] = draw(gen.scale(-4, 4))
    c['tol'] = draw(st.sampled_from([1e-6, 1e-6, 1e-10, 1e-3, 1e-13]))
    c['max'] = draw(st.sampled_from([20 * n, 20 * n, 20 * n, 1, 2, n]))
    return c


PARTS = [Part('steps', cases(), body, 8000, 200000, shards=8)]
