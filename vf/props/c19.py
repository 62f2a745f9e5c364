"""Bound-constrained linear least squares."""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Part, require, sut

RULE = 'a case counts when at least one bound is active at the solution'
ASSUMPTIONS = ['up to 5 unknowns and 5 equations, entries rounded to 1e-3']


def minimum(A, b, lb, ub):
    """Smallest residual over all assignments of variables to lower bound, upper bound or free."""
    n = A.shape[1]
    best, act = np.inf, False
    sides = [[s for s in (0, 1, 2) if s == 0 or np.isfinite((lb, ub)[s - 1][j]) and abs((lb, ub)[s - 1][j]) < 1e19] for j in range(n)]
    for pat in itertools.product(*sides):
        x = np.where(np.array(pat) == 1, lb, np.where(np.array(pat) == 2, ub, 0.0))
        free = [j for j in range(n) if pat[j] == 0]
        if free:
            x[free] = np.linalg.lstsq(A[:, free], b - A @ x, rcond=None)[0]
            x = np.clip(x, lb, ub)
        v = np.linalg.norm(A @ x - b)
        if v < best * (1 - 1e-12):
            best, act = v, len(free) < n
    return best, act


def body(c, rec):
    from sqpdfo.blls import blls_
    A = np.round(np.array(c['A']), 3)
    m, n = A.shape
    b = np.round(np.array(c['b']), 3).reshape(-1, 1)
    lb, ub = np.array(c['lb']).reshape(-1, 1), np.array(c['ub']).reshape(-1, 1)
    arg = [t.copy() for t in (A, b, lb, ub)]
    with sut('bounded least squares'):
        s, resn, opt, exitc = blls_(*arg)
    require(all(np.array_equal(p, q) for p, q in zip(arg, (A, b, lb, ub))), 'an argument was modified')
    s = np.asarray(s, float)
    require(s.shape == (n, 1) and np.all(np.isfinite(s)), 'solution is %s', s.tolist())
    rec.label('exit%d' % exitc)
    require(np.all(s >= lb - 1e-11) and np.all(s <= ub + 1e-11), 'solution %s outside [%s, %s]', s.ravel().tolist(), lb.ravel().tolist(), ub.ravel().tolist())
    r = np.linalg.norm(A @ s - b)
    best, active = minimum(A, b.ravel(), lb.ravel(), ub.ravel())
    if not active:
        rec.trivial()
    unit = np.linalg.norm(b) + np.abs(A).sum() * max(1, np.abs(s).max())
    require(abs(float(np.asarray(resn).item()) - r) <= 1e-9 * unit, 'reported residual %r, residual of the solution %r', resn, r)
    require(exitc in (0, 1), 'exit code %r', exitc)
    if exitc == 0 or c.get('regular'):
        require(r <= best + 1e-6 * unit, 'residual %r, minimum %r (exit code %r)', r, best, exitc)


@st.composite
def cases(draw, regular=False):
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    if regular:
        m = n
    c = {'A': draw(gen.mat(m, n, -3, 3)), 'b': draw(gen.vec(m, -5, 5))}
    if regular:
        c['regular'] = 1
        c['A'] = [[(t / 12 if i != j else 1.0 + abs(t)) for j, t in enumerate(row)] for i, row in enumerate(c['A'])]
    lo, up = [], []
    for _ in range(n):
        k = draw(st.sampled_from(['both', 'both', 'lo', 'up', 'free', 'zero', 'shift']))
        w = [draw(st.one_of(st.sampled_from([0.0, 0.25, 1.0]), st.floats(1e-3, 4))) for _ in range(2)]
        big = draw(st.sampled_from([1e20, np.inf]))
        if k == 'shift':
            lo.append(0.5 + w[0]); up.append(1.0 + w[0] + w[1])
        else:
            lo.append(-w[0] if k in ('both', 'lo') else 0.0 if k == 'zero' else -big)
            up.append(w[1] if k in ('both', 'up', 'zero') else big)
    c['lb'], c['ub'] = lo, up
    return c


PARTS = [Part('solve', cases(), body, 6000, 100000, shards=8),
         Part('regular', cases(True), body, 3000, 60000, shards=8)]
