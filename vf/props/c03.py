"""What a reported success certifies: feasibility and first-order stationarity."""
import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen, kkt
from ..core import Part, require

RULE = 'a case counts when the run reports success after at least one trial step'
ASSUMPTIONS = [
    'smooth problems (objective and constraints with exact derivatives available to the oracle)',
    'feasibility is certified up to 100 times the tolerance, the stationarity residual up to (300 tol + 1e-3 times the local '
    'curvature) times (1 + the size of the multipliers): the last improvement step accepts 100 times the tolerances and an '
    'interpolation radius of 1e-3',
    'stationarity is checked for problems without inequality constraints and for interpolation sets that determine the '
    'gradient (sub-basis models, minimum Frobenius norm models on n+1 points); inequality constraints are turned into '
    'squared slacks, for which the multiplier sign is not certified (known finding), and minimum-norm models accept sets '
    'that leave a direction of the gradient undetermined (known findings)',
    'active constraint gradients are linearly independent (normalised smallest singular value above 1e-3)',
    'runs whose last n+1 evaluations lie within 1e-7 of the returned point are skipped: their final models consist of '
    'rounding errors (known finding)']
FACTOR = 100.0
COLLAPSED = 1e-7
SMOOTH = ('quad', 'rosen', 'quart', 'sin', 'indef', 'lin')


def feasible(p, rec):
    P = e2e.Problem(p)
    r = P.run()
    rec.label('flag%d' % r.info.flag)
    if r.info.flag != 0 or len(r.fcalls) <= P.n + 1:
        rec.trivial()
        return None
    x = e2e.final_x(r, P.n)
    tol = max(p['opt'].get('tol_feas') or 1e-5, 1e-5)
    v = kkt.infeasibility(P, x)
    require(v <= FACTOR * tol * 1.0001 + 1e-9, 'success was reported with constraint violation %g (tolerance %g)', v, tol)
    return P, r, x


def certified(p, rec):
    t = feasible(p, rec)
    if t is None:
        return
    P, r, x = t
    tol = p['opt'].get('tol_grad') or 1e-5
    feas = p['opt'].get('tol_feas') or 1e-5
    act = max(1e-4, 10 * feas)
    if kkt.degenerate(P, x, act):
        rec.label('degenerate')
        rec.trivial()
        return
    near = sorted(np.abs(np.array(c[1]) - x).max() for c in r.fcalls[-(P.n + 1):])
    if near[-1] <= COLLAPSED * (1.0 + np.abs(x).max()) and not p.get('probe'):
        rec.label('collapsed')
        rec.trivial()
        return
    res, mult = kkt.residual(P, x, act, free_sign=P.mi > 0 and not p.get('probe'))
    k = kkt.curvature(P, x)
    lim = (300 * tol + 1e-3 * k) * (1.0 + mult)
    rec.label('tight' if res > 0.1 * lim else 'loose' if res > 1e-3 * lim else 'exact')
    require(res <= lim, 'success was reported at %s where the gradient is %g away from the cone of active constraint '
            'gradients (limit %g)', x.tolist(), res, lim)


@st.composite
def opts(draw, models=('subbasis', 'subbasis', 'frobnorm')):
    o = draw(gen.options(miter=st.sampled_from([60, 300]), msimul=st.sampled_from([120, 600]), verbose=(0,)))
    o['whichmodel'] = draw(st.sampled_from(list(models)))
    return o


@st.composite
def equality(draw):
    """Problems with equality constraints or bounds only."""
    p = draw(gen.problem(kinds=SMOOTH, cons_kinds=('lin', 'lin', 'ball', 'prod'), opt=opts()))
    if p['opt']['whichmodel'] == 'frobnorm':
        p['opt']['final_degree'] = 'linear'
    if p['mi']:
        p['cons'] = p['cons'][:p['me']]
        p['mi'] = 0
    return p


@st.composite
def inequality(draw):
    p = draw(gen.problem(kinds=SMOOTH, cons_kinds=('lin', 'lin', 'ball', 'prod'), opt=opts(('subbasis',))))
    return p


FINDINGS = {
    'inequality-multiplier-sign': ('stationary', {"n": 1, "obj": {"kind": "sin", "c0": -3.5, "xs": [2.0]}, "btype": "none", "lb": None, "ub": None, "x0": [-1.375], "me": 0, "mi": 2, "cons": [{"kind": "ball", "type": "i", "c": [-0.5957843456786553], "slack": 0.25}, {"kind": "lin", "type": "i", "a": [0.7236900936785653], "slack": 1.6141889738266624}], "xf": [2.2588666660806895], "opt": {"hess_approx": "bfgs", "whichmodel": "subbasis", "final_degree": "linear", "bfgs_restart": 0, "miter": 500, "msimul": 1000, "verbose": 0, "tol_grad": 0.0001, "tol_feas": 0.0001, "tol_bnds": 0.0001}, "probe": 1}),
    'l2norm-undetermined-gradient': ('stationary', {"n": 2, "obj": {"kind": "quad", "c0": -3.5, "xs": [-1.0180643399037201, -0.375], "d": [4.64283887513176, 0.35546736882406826], "v": [-1.125, -0.16149945980622382]}, "btype": "half", "lb": [None, None], "ub": [12.01562810591273, 0.0], "x0": [2.25, -1.0], "me": 0, "mi": 0, "cons": [], "xf": [6.220660716673159, -2.4018169895277497], "opt": {"hess_approx": "model", "whichmodel": "l2norm", "final_degree": "linear", "bfgs_restart": 0, "miter": 500, "msimul": 1000, "verbose": 0}, "probe": 1}),
    'frobnorm-undetermined-gradient': ('stationary', {"n": 2, "obj": {"kind": "sin", "c0": 0.0, "xs": [2.875, 0.0]}, "btype": "half", "lb": [1.0, -1.0], "ub": [None, None], "x0": [0.0, 3.0], "me": 0, "mi": 0, "cons": [], "xf": [1.0, -1.0], "opt": {"hess_approx": "model", "whichmodel": "frobnorm", "final_degree": "diagonal", "bfgs_restart": 0, "miter": 60, "msimul": 120, "verbose": 0}, "probe": 1}),
    'collapsed-radius': ('stationary', {"n": 2, "obj": {"kind": "indef", "c0": 0.0, "xs": [0.75, 0.0], "d": [5.5625, 0.375], "v": [0.6875, 1.375]}, "btype": "box", "lb": [-4.125, -1.109375], "ub": [-0.625, 2.109375], "x0": [0.0, 1.0], "me": 0, "mi": 0, "cons": [], "xf": [-4.125, -1.109375], "opt": {"hess_approx": "bfgs", "whichmodel": "subbasis", "final_degree": "linear", "bfgs_restart": 0, "miter": 60, "msimul": 120, "verbose": 0}, "probe": 1}),
}
PARTS = [Part('stationary', equality(), certified, 1600, 40000, shards=8),
         Part('slacks', inequality(), certified, 800, 30000, shards=8),
         Part('feasible', gen.problem(kinds=SMOOTH, opt=opts(('subbasis', 'frobnorm', 'l2norm', 'regression'))), feasible, 1000, 30000, shards=8)]
