"""The returned objective and constraint values are those of the returned point."""
import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen
from ..core import Part, require

RULE = 'a case counts when the solver evaluated at least one point beyond the initial set'
ASSUMPTIONS = ['|f|, |c| below 1e25 (larger values are cut off by the solver)',
               'runs that fail before a complete initial set of values exists return no point and are not counted']


def close(a, b):
    return abs(a - b) <= 1e-9 * (1.0 + abs(b))


def body(p, rec):
    P = e2e.Problem(p)
    at = p.get('fail')
    fault = None
    if at is not None:
        def fault(kind, k, x, v):
            if kind == p['who'] and k >= at:
                if p['how'] == 'raise':
                    raise ValueError('no value here')
                v = np.array(v, float)
                v.flat[-1] = float(p['how'])
                return v if v.ndim else float(v)
            return v
        if p['who'] == 'c' and not P.cs:
            rec.trivial()
            fault = None
            at = None
    r = P.run(fault=fault)
    rec.label('flag%d' % r.info.flag)
    if len(r.fcalls) <= P.n + 1:
        rec.trivial()
    if at is not None and at <= P.n:
        return
    x = e2e.final_x(r, P.n)
    require(np.all(np.isfinite(x)), 'returned point %s', x.tolist())
    pts = np.array([c[1] for c in r.fcalls])
    d = np.abs(pts - x).max(1) / (1.0 + np.abs(x).max())
    require(d.min() <= 1e-12, 'the objective was never evaluated at the returned point %s (closest at %g)', x.tolist(), d.min())
    k = int(d.argmin())
    rec.label('last' if k == len(pts) - 1 else 'earlier')
    require(at is None or d[:at].min() <= 1e-12 or p['who'] == 'c', 'the returned point is one whose evaluation failed')
    f = float(np.asarray(r.info.f).item())
    require(close(f, P.fval(x)), 'returned objective value %r, the objective at the returned point is %r', f, P.fval(x))
    if P.cs:
        ce = np.asarray(r.info.ce, float).ravel()
        cx = P.cval(x)
        require(ce.shape == cx.shape, 'returned %d constraint values for %d constraints', ce.size, cx.size)
        require(all(close(a, b) for a, b in zip(ce, cx)), 'returned constraint values %s, at the returned point they are %s',
                ce.tolist(), cx.tolist())


@st.composite
def faulty(draw):
    p = draw(gen.problem())
    p['fail'] = draw(st.integers(1, 60))
    p['who'] = draw(st.sampled_from(['f', 'f', 'c']))
    p['how'] = draw(st.sampled_from(['raise', 'nan', 'inf']))
    return p


long = gen.options(miter=st.sampled_from([3, 10, 60, 300]), msimul=st.sampled_from([10, 20, 50, 100, 500]), verbose=(0,))
PARTS = [Part('runs', gen.problem(opt=long), body, 2000, 40000, shards=8),
         Part('interrupted', faulty(), body, 600, 10000, shards=8)]
