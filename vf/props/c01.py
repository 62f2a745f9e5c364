"""The returned point satisfies the bounds on the variables."""
import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen
from ..core import Part, require

RULE = ('a case counts when some variable has a finite bound and the solver evaluated at least one point beyond the '
        'initial set')
ASSUMPTIONS = ['lower bound < upper bound for every variable (see the known finding of C07 for fixed variables)',
               '|f|, |c| below 1e25', 'tolerance: 1e-10 with bounds only, 2e-8 with general constraints (the solver documents a bound tolerance of 1e-8)']


def outside(x, lb, ub):
    lo = np.where(np.isfinite(lb), lb, 0.0)
    up = np.where(np.isfinite(ub), ub, 0.0)
    a = np.where(np.isfinite(lb), (lo - x) / (1.0 + np.abs(lo)), -1.0)
    b = np.where(np.isfinite(ub), (x - up) / (1.0 + np.abs(up)), -1.0)
    return max(a.max(), b.max())


def body(p, rec):
    P = e2e.Problem(p)
    fault = None
    at = p.get('fail')
    if at is not None:
        def fault(kind, k, x, v):
            if kind == 'f' and k >= at:
                if p['how'] == 'raise':
                    raise ValueError('no value here')
                return float(p['how'])
            return v
    r = P.run(fault=fault)
    if not (np.isfinite(P.lb).any() or np.isfinite(P.ub).any()) or len(r.fcalls) <= P.n + 1:
        rec.trivial()
    rec.label('flag%d' % r.info.flag)
    if at is not None and at <= P.n:
        rec.trivial()          # no complete set of values: no point to return
        return
    x = e2e.final_x(r, P.n)
    require(np.all(np.isfinite(x)), 'returned point %s', x.tolist())
    w = outside(x, P.lb, P.ub)
    require(w <= (2e-8 if P.cs else 1e-10), 'returned point %s leaves the bounds %s .. %s', x.tolist(), P.lb.tolist(), P.ub.tolist())
    if w > -1e-6:
        rec.label('at-bound')


@st.composite
def faulty(draw):
    p = draw(gen.problem(bounds=['box', 'tight', 'half', 'mixed']))
    p['fail'] = draw(st.integers(0, 40))
    p['how'] = draw(st.sampled_from(['raise', 'nan', 'inf']))
    return p


long = gen.options(miter=st.sampled_from([10, 60, 300]), msimul=st.sampled_from([30, 100, 500]), verbose=(0,))
PARTS = [Part('runs', gen.problem(bounds=['box', 'tight', 'half', 'mixed', 'box', 'tight', 'none'], opt=long), body, 2400, 40000, shards=8),
         Part('wide', gen.problem(nmax=7, bounds=['box', 'tight', 'half'], opt=long, cons=False), body, 400, 8000, shards=8),
         Part('interrupted', faulty(), body, 400, 8000, shards=8)]
