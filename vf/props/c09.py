"""Without general constraints the run never loses ground."""
import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen
from ..core import Part, require

RULE = 'a case counts when at least one point beyond the initial set was evaluated'
ASSUMPTIONS = ['no general constraints']


def body(p, rec):
    P = e2e.Problem(p)
    r = P.run()
    rec.label('flag%d' % r.info.flag)
    vals = [c[2] for c in r.fcalls]
    if len(vals) <= P.n + 1:
        rec.trivial()
    x = e2e.final_x(r, P.n)
    f = P.fval(x)
    tol = 1e-9 * (1 + abs(vals[0]))
    rec.label('best' if f <= min(vals) + tol else 'notbest')
    rec.label('progress' if f < vals[0] - tol else 'none')
    require(f <= vals[0] + tol, 'started at objective %r, returned a point with objective %r', vals[0], f)


def longer(p, rec):
    """The same run with a larger iteration limit continues the shorter one and is not worse."""
    P = e2e.Problem(p)
    o = dict(p['opt'], msimul=10 ** 6, miter=p['k'][0])
    a = P.run(opt=o)
    b = P.run(opt=dict(o, miter=p['k'][0] + p['k'][1]))
    rec.label('flag%d' % a.info.flag)
    if int(a.info.flag) != 5:
        rec.trivial()
    k = len(a.fcalls)
    same = len(b.fcalls) >= k and all(s[1] == t[1] for s, t in zip(a.fcalls, b.fcalls))
    require(same, 'with a larger iteration limit the run does not start with the same evaluations')
    fa, fb = P.fval(e2e.final_x(a, P.n)), P.fval(e2e.final_x(b, P.n))
    require(fb <= fa + 1e-9 * (1 + abs(fa)), 'after %d iterations the objective was %r, after %d more it is %r', p['k'][0], fa, p['k'][1], fb)
    rec.label('more' if fb < fa else 'same')


@st.composite
def pairs(draw):
    p = draw(gen.problem(kinds=KINDS, cons=False, opt=short))
    p['k'] = [draw(st.integers(1, 40)), draw(st.integers(1, 20))]
    return p


short = gen.options(miter=st.sampled_from([1, 2, 4, 10, 30, 100, 300]), msimul=st.sampled_from([5, 10, 20, 50, 200]), verbose=(0,))
KINDS = ('quad', 'rosen', 'quart', 'sin', 'indef', 'lin', 'abs', 'step', 'noise')
PARTS = [Part('descent', gen.problem(kinds=KINDS, cons=False, opt=short), body, 2000, 40000, shards=8),
         Part('longer', pairs(), longer, 1000, 20000, shards=8)]
