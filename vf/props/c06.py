"""A failing evaluation ends the run with the failure status and nothing else."""
import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen
from ..core import Part, require

RULE = 'a case counts when the planned failure was reached'
ASSUMPTIONS = ['a failure is an exception (any class derived from Exception), a NaN or an infinity; from the failing evaluation on every '
               'evaluation of that function fails, or only the one']


class Odd(Exception):
    pass


EXC = {'ValueError': ValueError, 'ZeroDivisionError': ZeroDivisionError, 'KeyError': KeyError, 'own': Odd,
       'ArithmeticError': FloatingPointError, 'IndexError': IndexError}


def body(p, rec):
    P = e2e.Problem(p)
    at, who, how = p['at'], p['who'], p['how']
    if who == 'c' and not P.cs:
        who = 'f'
    if who == 'c' and 'inf' in how:
        how = 'nan'
    hit = []

    def fault(kind, k, x, v):
        if kind != who or k < at or (p['once'] and k > at):
            return v
        hit.append(k)
        if how in EXC:
            raise EXC[how]('planned')
        v = np.array(v, float)
        v.flat[p['comp'] % v.size] = float(how)
        return v if v.ndim else float(v)
    r = P.run('sqpdfo.optimize with an objective or constraint that fails', fault=fault)
    rec.label('flag%d' % r.info.flag)
    if not hit:
        rec.trivial()
        return
    n = P.n
    rec.label('initial' if at <= n else 'later', who, 'exc' if how in EXC else how)
    require(int(r.info.flag) == 3, 'evaluation %d of %s failed (%s), status %r', at, who, how, r.info.flag)
    extra = len(r.fcalls) - 1 - at
    require(extra == 0, '%d more evaluations were requested after the failing one', extra)
    require(len(r.ccalls) <= at + 1, 'constraints were evaluated again after the failing evaluation')
    require(r.lm is not None and r.x is not None, 'no result')


@st.composite
def cases(draw, opt=None):
    p = draw(gen.problem(opt=opt or gen.options(verbose=(0, 0, 1, 3))))
    p['at'] = draw(st.one_of(st.integers(0, 8), st.integers(0, 60)))
    p['who'] = draw(st.sampled_from(['f', 'c']))
    p['how'] = draw(st.sampled_from(['nan', 'inf', '-inf'] + sorted(EXC)))
    p['comp'] = draw(st.integers(0, 3))
    p['once'] = draw(st.booleans())
    return p


def infinite(p, rec):
    P = e2e.Problem(p)
    if not P.cs:
        rec.trivial()
        return
    a = np.array(p['cut'])
    seen = []

    def fault(kind, k, x, v):
        if kind == 'c' and float(a @ np.array(x) - a @ np.array(p['x0'])) > p['off']:
            seen.append(x)
            v = np.array(v, float)
            v[p['comp'] % v.size] = float(p['how'])
        return v
    r = P.run('sqpdfo.optimize with an infinite constraint value', fault=fault)
    rec.label('flag%d' % r.info.flag)
    if not seen:
        rec.trivial()
        return
    require(int(r.info.flag) in (0, 3, 5, 6, 8, 15), 'status %r', r.info.flag)
    x = e2e.final_x(r, P.n)
    bad = np.array(seen)
    hit = np.abs(bad - x).max(1).min() <= 1e-12 * (1 + np.abs(x).max())
    violated = p['comp'] % len(P.cs) < P.me or p['how'] == '-inf'     # inequalities are c(x) >= 0
    require(not (int(r.info.flag) == 0 and hit and violated), 'success reported at %s, where a constraint is infinite', x.tolist())
    if not hit:
        ce = np.asarray(r.info.ce, float).ravel()
        require(np.allclose(ce, P.cval(x), rtol=1e-9, atol=1e-9), 'returned constraint values %s, at the returned point they are %s',
                ce.tolist(), P.cval(x).tolist())
    rec.label('hit%d' % hit)


@st.composite
def regions(draw):
    p = draw(gen.problem(opt=gen.options(verbose=(0,))))
    p['cut'] = draw(gen.vec(p['n'], -2, 2))
    p['off'] = draw(st.sampled_from([-0.5, 0.0, 0.25, 0.5, 1.0, 2.0]))
    p['how'] = draw(st.sampled_from(['inf', '-inf']))
    p['comp'] = draw(st.integers(0, 3))
    return p


PARTS = [Part('infinite', regions(), infinite, 1200, 20000, shards=8),Part('faults', cases(), body, 1200, 20000, shards=8)]
