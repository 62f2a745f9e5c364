"""Strictly convex quadratic problems are solved."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import lsq_linear

from .. import e2e, gen
from ..core import Part, require

RULE = 'a case counts when the starting point (moved inside the bounds) is not already optimal'
ASSUMPTIONS = ['up to 4 variables, eigenvalues of the Hessian in [0.25, 8], solutions at distance up to about 10 from the start',
               'without bounds: every model type and degree with Hessians taken from the models; with bounds at least 3 apart and a '
               'solution at least 0.1 inside them: full quadratic models of sub-basis, minimum-norm or regression type; with linear equality constraints: full quadratic sub-basis models',
               'the objective gap allowed is 1e-4 (measured on 20000 runs: below 1e-5)']
W = 0.5
MARGIN = 0.1
BIG = {'miter': 500, 'msimul': 1000, 'hess_approx': 'model', 'bfgs_restart': 0, 'verbose': 0}


def solution(P):
    """Exact minimiser: box-constrained least squares, or the KKT system for equalities."""
    ob = P.p['obj']
    Q = e2e.householder(ob['v'], ob['d'])
    xs = np.array(ob['xs'])
    if P.cs:
        A = np.array([c['a'] for c in P.p['cons']])
        b = A @ np.array(P.p['xf'])
        m = len(b)
        K = np.block([[Q, A.T], [A, np.zeros((m, m))]])
        sol = np.linalg.solve(K, np.concatenate([Q @ xs, b]))
        return sol[:P.n], sol[P.n:]
    L = np.linalg.cholesky(Q).T
    return lsq_linear(L, L @ xs, (P.lb, P.ub), tol=1e-15).x, None


def solved(p, rec):
    P = e2e.Problem(p)
    xo, mu = solution(P)
    if np.any(xo < P.lb + MARGIN) or np.any(xo > P.ub - MARGIN):
        rec.label('active')
        rec.trivial()
        return
    fo = P.fval(xo)
    r = P.run()
    fl = int(r.info.flag)
    rec.label('flag%d' % fl, p['opt']['whichmodel'], p['opt']['final_degree'])
    x = e2e.final_x(r, P.n)
    if P.fval(r.fcalls[0][1]) - fo < 1e-6:
        rec.trivial()
    gap = P.fval(x) - fo
    if P.cs:
        gap = max(abs(gap + mu @ P.cval(x)), np.abs(P.cval(x)).max() * 0.05)
    require(gap <= 1e-4, 'run ended (status %d, %d evaluations) at %s with objective %g above the minimum %g', fl, len(r.fcalls), x.tolist(), gap, fo)
    if p['must']:
        require(fl == 0, 'status %d after %d evaluations on a strictly convex quadratic', fl, len(r.fcalls))
        require(len(r.fcalls) <= 200, '%d evaluations', len(r.fcalls))


def make(must, bounds, models, degrees, cons=False):
    @st.composite
    def s(draw):
        o = dict(BIG)
        o['whichmodel'] = draw(st.sampled_from(models))
        o['final_degree'] = draw(st.sampled_from(degrees))
        p = draw(gen.problem(kinds=('quad',), bounds=bounds, cons=cons, cons_kinds=('lin',), opt=st.just(o)))
        if cons:
            p['cons'] = p['cons'][:p['me']]
            p['mi'] = 0
            # well-conditioned constraint matrix
            for k, c in enumerate(p['cons']):
                c['a'] = [v * 0.25 for v in c['a']]
                c['a'][k] += 1.5
        if p['lb'] is not None:     # room for the initial set on both sides
            p['lb'] = [l if l is None or l < -1e19 else l - W for l in p['lb']]
            p['ub'] = [u if u is None or u > 1e19 else u + W for u in p['ub']]
        p['must'] = must
        return p
    return s()


ALL = ['subbasis', 'frobnorm', 'l2norm', 'regression']
PARTS = [Part('free', make(False, ['none', 'inf'], ALL, ['linear', 'diagonal', 'quadratic']), solved, 600, 12000, shards=8),
         Part('bounded', make(True, ['none', 'box', 'half', 'mixed', 'inf'], ['subbasis', 'l2norm', 'regression'], ['quadratic']), solved, 700, 15000, shards=8),
         Part('equality', make(True, ['none'], ['subbasis'], ['quadratic'], True), solved, 300, 6000, shards=8)]
