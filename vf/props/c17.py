"""Trust-region subproblem with bounds: feasible steps that decrease the model."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Part, require, sut
from ..e2e import householder

RULE = 'a case counts when the bounds or the radius cut off the unconstrained minimiser, or there is none'
ASSUMPTIONS = ['bounds contain the zero step (lower <= 0 <= upper); gradient norm at least 1e-4',
               'bounds are kept to 1e-9, the radius to its relative accuracy plus 1e-5 (bounds closer than 1e-5 are snapped to)',
               'model decrease is compared with the projected Cauchy step for positive definite Hessians whose zero step lies strictly inside the bounds (at least 0.7 of it up to 2e-5 times the '
               'radius), and with the global minimum when that lies inside the bounds']


class Opt:
    verbose = 0


def setup(c):
    g, H = np.round(np.array(c['g']), 9), householder(np.round(c['v'], 6), np.round(c['d'], 6))
    return g, (H + H.T) / 2, np.array(c['lb']), np.array(c['ub'])


def step(c):
    from sqpdfo.bcdfo_solve_TR_MS_bc import bcdfo_solve_TR_MS_bc_
    g, H, lb, ub = setup(c)
    a = [g.reshape(-1, 1), H, lb.reshape(-1, 1), ub.reshape(-1, 1)]
    o = Opt()
    o.verbose = c.get('verbose', 0)
    with sut('bound-constrained trust-region solver'), contextlib.redirect_stdout(io.StringIO()):
        s, lam, norms, value, gplus, nfact, neigd, msg = bcdfo_solve_TR_MS_bc_(
            a[0].copy(), a[1].copy(), a[2].copy(), a[3].copy(), c['delta'], c['eps'], c['strat'], o)
    s = np.asarray(s, float).ravel()
    require(s.size == c['n'] and np.all(np.isfinite(s)), 'step is %s', s.tolist())
    return s, float(np.asarray(norms).item()), float(np.asarray(value).item()), str(msg)


def cauchy(g, H, lb, ub, D):
    best = 0.0
    for t in np.logspace(-8, 8, 65):
        y = np.clip(-t * g, lb, ub)
        y *= min(1.0, D / max(np.linalg.norm(y), 1e-300))
        a, b = g @ y, y @ H @ y
        tt = 1.0 if b <= 0 else min(1.0, max(0.0, -a / b))
        best = min(best, tt * a + tt * tt * b / 2)
    return best


def common(c, rec):
    g, H, lb, ub = setup(c)
    D, eps = c['delta'], c['eps']
    s, norms, value, msg = step(c)
    lam = np.linalg.eigvalsh(H)
    if lam[0] > 1e-6:
        u = -np.linalg.solve(H, g)
        if np.all(u >= lb) and np.all(u <= ub) and np.linalg.norm(u) <= D:
            rec.trivial()
    require((lb - s).max() <= 1e-9 and (s - ub).max() <= 1e-9, 'step %s leaves the bounds [%s, %s] (%s)', s.tolist(), lb.tolist(), ub.tolist(), msg)
    require(np.linalg.norm(s) <= D * (1 + eps) + 1e-5, 'step of length %g for radius %g (%s)', np.linalg.norm(s), D, msg)
    m = ref.quad(0.0, g, H, s)
    mag = np.abs(g) @ np.abs(s) + 1e-300
    require(m <= 1e-12 * mag, 'the step increases the model by %g (%s)', m, msg)
    if 'limit' not in msg and 'zero gradient' not in msg:
        require(abs(norms - np.linalg.norm(s)) <= 1e-9 * (1 + D), 'reported step length %r, step has %r', norms, np.linalg.norm(s))
        require(abs(value - m) <= 1e-9 * (mag + abs(s) @ np.abs(H) @ abs(s)) + 1e-14, 'reported model value %r, step has %r', value, m)
    rec.label(msg.replace(' ', '-'))
    return g, H, lb, ub, D, s, m, msg


def body(c, rec):
    common(c, rec)


def decrease(c, rec):
    g, H, lb, ub, D, s, m, msg = common(c, rec)
    best = cauchy(g, H, lb, ub, D)
    require(m <= 0.7 * best + 2e-5 * D, 'the step %s decreases the model by %g, the projected Cauchy step by %g (%s)', s.tolist(), -m, -best, msg)


def wide(c, rec):
    """Bounds that the whole trust region satisfies change nothing."""
    g, H, lb, ub, D, s, m, msg = common(c, rec)
    best = ref.tr_optimum(g, H, D * (1 - c['eps']))
    unit = np.linalg.norm(g) * D + np.abs(H).max() * D * D
    require(m <= best + 1e-7 * unit + 1e-14, 'model value %r, but the minimum over the ball is %r', m, best)


def shaped(convex=False, free=False):
    @st.composite
    def cases(draw):
        n = draw(st.integers(1, 5))
        c = {'n': n, 'g': draw(gen.vec(n, -5, 5)), 'd': draw(gen.vec(n, 0.125 if convex else -4, 6)), 'v': draw(gen.vec(n, -2, 2))}
        if sum(abs(t) for t in c['g']) < 1e-4:
            c['g'][0] = 1.0
        kind = [draw(st.sampled_from(['both', 'both', 'lo', 'up', 'free', 'atlo', 'atup'])) for _ in range(n)]
        big = draw(st.sampled_from([1e20, np.inf, 1e3]))
        w = [draw(st.one_of(st.floats(1e-3, 4), st.sampled_from([0.25, 0.5, 1.0, 2.0]))) for _ in range(2 * n)]
        c['delta'] = draw(gen.scale(-3, 2))
        if convex:
            kind = ['both' if k[:2] == 'at' else k for k in kind]
        if free:
            w = [c['delta'] * (2 + t) for t in w]
            kind = ['both' if k[:2] == 'at' else k for k in kind]
            big *= 1.0
        c['lb'] = [-w[i] if k in ('both', 'lo', 'atup') else 0.0 if k == 'atlo' else -big for i, k in enumerate(kind)]
        c['ub'] = [w[n + i] if k in ('both', 'up', 'atlo') else 0.0 if k == 'atup' else big for i, k in enumerate(kind)]
        c['eps'] = draw(st.sampled_from([1e-7, 1e-5, 1e-3]))
        c['strat'] = draw(st.sampled_from([1, 1, 1, 0]))
        c['verbose'] = draw(st.sampled_from([0, 0, 0, 2, 3]))
        return c
    return cases()


def stuck(c, rec):
    g, H, lb, ub, D, s, m, msg = common(c, rec)
    require(s.any(), 'zero step (%s) although the model can be decreased by %g', msg, -cauchy(g, H, lb, ub, D))


FINDINGS = {'iteration-limit': (Part('stuck', None, stuck, 1), {"n": 2, "g": [1.0, 0.0], "d": [0.0, -1.25], "v": [0.0, 0.0], "lb": [-1.0, -1.0],
                                                               "ub": [1.0, 0.5], "delta": 1.0, "eps": 1e-07, "strat": 1})}
PARTS = [Part('any', shaped(), body, 4000, 80000, shards=8),
         Part('convex', shaped(convex=True), decrease, 3000, 60000, shards=8),
         Part('wide', shaped(free=True), wide, 2000, 40000, shards=8)]
