"""The first evaluations of a run: starting point and one step per variable, inside the bounds."""
import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen
from ..core import Part, require

RULE = 'a case counts when some variable has a finite bound'
ASSUMPTIONS = ['lower bound < upper bound for every variable; no failing evaluations']


def body(p, rec):
    P = e2e.Problem(p)
    r = P.run()
    n = P.n
    require(len(r.fcalls) >= n + 1, 'only %d evaluations', len(r.fcalls))
    Y = np.array([c[1] for c in r.fcalls[:n + 1]]).reshape(n + 1, n)
    lb, ub = P.lb, P.ub
    if not (np.isfinite(lb).any() or np.isfinite(ub).any()):
        rec.trivial()
    gap = ub - lb
    D = min(1.0, 0.5 * gap.min())
    x0 = np.array(p['x0'])
    b = Y[0]
    for k in range(n + 1):
        for j in range(n):
            t = 1e-9 * (1 + abs(Y[k, j]))
            require(lb[j] - t <= Y[k, j] <= ub[j] + t, 'evaluation %d: variable %d is %r, bounds %r %r', k, j, Y[k, j], lb[j], ub[j])
    for j in range(n):
        if lb[j] + 1 + 1e-9 < x0[j] < ub[j] - 1 - 1e-9 or lb[j] + D + 1e-9 < x0[j] < ub[j] - D - 1e-9 and n == 1:
            require(b[j] == x0[j], 'variable %d starts at %r, given was %r', j, b[j], x0[j])
            rec.label('as-given')
        else:
            c = min(max(x0[j], lb[j]), ub[j])
            require(abs(b[j] - c) <= 1 + 1e-9 * (1 + abs(c)), 'variable %d moved to %r, given was %r, bounds %r %r', j, b[j], x0[j], lb[j], ub[j])
            rec.label('moved')
    step = Y[1:] - b
    seen = []
    for k in range(n):
        nz = [j for j in range(n) if abs(step[k, j]) > 1e-9 * (1 + abs(b[j]))]
        require(len(nz) == 1, 'evaluation %d differs from the start in the variables %s', k + 1, nz)
        require(abs(abs(step[k, nz[0]]) - D) <= 1e-9 * (1 + abs(b[nz[0]])), 'evaluation %d is %r away from the start, must be %r', k + 1, step[k, nz[0]], D)
        seen.append(nz[0])
    require(sorted(seen) == list(range(n)), 'the first steps go along the variables %s', seen)


opt = gen.options(miter=st.sampled_from([1, 2, 5]), msimul=st.sampled_from([1, 10, 40]))
PARTS = [Part('start', gen.problem(nmax=6, opt=opt), body, 2000, 40000, shards=8)]
