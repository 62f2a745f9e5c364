"""Acceptance of steps, penalty parameter and radius over the iterations of a run."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Part, require
from .c30 import key, run, table

RULE = 'a case counts when at least one step was accepted and one refused'
ASSUMPTIONS = ['|f| and |c| below 1e25']
NAMES = ('sqpdfo_computeHessian_', 'sqpdfo_solve_TR_bc_', 'bcdfo_repair_Y_', 'bcdfo_augment_Y_', 'sqpdfo_find_smallf_', 'bcdfo_include_in_Y_')
ETA1, ETA2, GROW = 1e-4, 0.9, 5.0


def num(v):
    return float(np.asarray(v, float).ravel()[0])


def merit(F, C, x, sigma, sl, m):
    if not m:
        return F[x]
    c = np.array(C[x], float)
    if sl is not None:
        c[m - len(sl):] -= np.asarray(sl, float).ravel() ** 2
    return F[x] + sigma * float(np.linalg.norm(c))


def body(p, rec):
    import sqpdfo.sqpdfo_main as main
    P, r, events = run(p, NAMES)
    if not all(hasattr(main, t) for t in NAMES):
        # the building blocks have other names now: nothing to judge
        rec.trivial()
        return
    F, C = table(P, r)
    m = P.me + P.mi
    calls = [c[1] for c in r.fcalls]
    tr = [k for k, e in enumerate(events) if e.name == 'sqpdfo_solve_TR_bc' and e.has('x', 'delta', 'M', 'info') and isinstance(e.out, tuple) and len(e.out) == 9]
    sigma, acc, ref = 1.0, 0, 0
    for a, k in enumerate(tr):
        e = events[k]
        x, delta = key(e.x), num(e.delta)
        require(delta > 0 and np.isfinite(delta), 'radius %r', delta)
        if a == 0 and e.extra is not None and len(np.ravel(e.extra)) and not any(t.name in ('bcdfo_repair_Y', 'sqpdfo_find_smallf') for t in events[:k]):
            t = np.asarray(e.extra, float).ravel()
            want = np.sqrt(np.maximum(0.0, np.array(C[x], float)[m - len(t):]))
            require(np.allclose(t, want, rtol=1e-9, atol=1e-12), 'slack variables start at %s, the roots of the constraint values are %s', t.tolist(), want.tolist())
            rec.label('first slacks')
        xnew = np.asarray(e.out[0], float)
        s = xnew - np.asarray(e.x, float)
        plus = key(np.asarray(e.x, float) + s)
        if num(e.info.flag) or num(e.out[7].flag):
            break
        after = events[k + 1:tr[a + 1]] if a + 1 < len(tr) else events[k + 1:]
        if plus not in F:
            require(a + 1 == len(tr) and int(r.info.flag) == 9, 'the trial point %s of iteration %d was not evaluated', plus, a + 1)
            break
        upd = [t for t in after if t.name == 'sqpdfo_computeHessian' and t.has('sigma', 'x')]
        if not upd:
            break
        # penalty parameter
        rpred, g, M = num(e.out[2]), np.asarray(e.info.g, float).reshape(-1, 1), np.asarray(e.M, float)
        q = num(g.T @ s + 0.5 * s.T @ M @ s)
        new = num(upd[0].sigma)
        require(new >= sigma, 'iteration %d lowers the penalty parameter from %r to %r', a + 1, sigma, new)
        pred = -q + new * rpred
        unit = abs(q) + abs(new * rpred)
        noise = 1e-12 * num(np.abs(g).T @ np.abs(s) + np.abs(s).T @ np.abs(M) @ np.abs(s))
        if rpred > 1e-12 * unit:
            require(pred >= 0.3 * new * rpred - 1e-9 * unit - 10 * noise, 'iteration %d: predicted reduction %g of the merit function with %g of the infeasibility and penalty parameter %g', a + 1, pred, rpred, new)
        need = q / (0.7 * rpred) if rpred else 0.0
        err = 1e-9 * abs(need) + (10 * noise / (0.7 * abs(rpred)) if rpred else 0.0)
        if need <= sigma - err:
            require(new == sigma, 'iteration %d raises the penalty parameter from %r to %r although %g is enough', a + 1, sigma, new, need)
        else:
            require(new <= max(need, 1.5 * sigma) * (1 + 1e-9) + err, 'iteration %d raises the penalty parameter from %r to %r, %g is enough', a + 1, sigma, new, need)
        sigma = new
        # acceptance
        m0, m1 = merit(F, C, x, sigma, e.extra, m), merit(F, C, plus, sigma, e.out[8] if e.extra is not None else None, m)
        tiny = 1e-9 * (abs(m0) + abs(m1))
        improved = any(t.name in ('bcdfo_repair_Y', 'sqpdfo_find_smallf') for t in after[:after.index(upd[0])])
        valid = rpred >= 0 and pred > 0
        if improved:
            # no trust in the model: the step is not taken and the set is improved
            if key(upd[0].x) != x:
                mx = merit(F, C, key(upd[0].x), sigma, e.extra, m)
                require(mx <= m0 + tiny, 'improvement after iteration %d moves from merit value %r to %r', a + 1, m0, mx)
            rec.label('improve')
            continue
        sl, old = upd[0].extra, e.extra
        moved = key(upd[0].x) != x or (sl is not None and not np.array_equal(sl, old))
        if moved:
            acc += 1
            require(key(upd[0].x) == plus, 'iteration %d moves to %s instead of the trial point %s', a + 1, key(upd[0].x), plus)
            require(m1 < m0 + tiny and m0 - m1 >= ETA1 * pred * (1 - 1e-6) - tiny, 'iteration %d accepts a step with a reduction of %g, predicted %g', a + 1, m0 - m1, pred)
            if sl is not None:
                new_sl = np.asarray(e.out[8], float).ravel()
                for i, t in enumerate(new_sl):
                    c = C[plus][m - len(new_sl) + i]
                    require(sl[i] == t or (t == 0 and c > 0 and abs(sl[i] - c ** 0.5) <= 1e-9 * (1 + c ** 0.5)), 'iteration %d: slack %d becomes %r, the step has %r', a + 1, i, sl[i], t)
        elif plus != x:
            ref += 1
            if valid and m0 - m1 >= 2 * ETA1 * pred + tiny:
                rec.label('good-refused')
                tries = [t.out for t in after if t.name == 'bcdfo_include_in_Y']
                require(any(isinstance(t, tuple) and len(t) > 3 and num(t[3]) < 0 for t in tries), 'iteration %d refuses a step with a reduction of %g, predicted %g', a + 1, m0 - m1, pred)
        # radius
        L = np.linalg.norm(s)
        if sl is not None:
            L = np.hypot(L, np.linalg.norm(np.asarray(e.out[8], float).ravel() - old))
        if a + 1 < len(tr) and not any(t.name in ('bcdfo_repair_Y',) for t in after) and key(events[tr[a + 1]].x) == key(upd[0].x):
            d1 = num(events[tr[a + 1]].delta)
            if moved:
                require(d1 >= delta * (1 - 1e-12), 'the radius shrinks from %g to %g after an accepted step', delta, d1)
                require(d1 <= max(GROW * delta, 2 * GROW * L) * (1 + 1e-9), 'the radius grows from %g to %g after a step of length %g', delta, d1, L)
                if not m and np.linalg.norm(s) >= delta * (1 + 1e-9) and delta < 1e4 and m0 - m1 >= ETA2 * pred * (1 + 1e-6) + tiny:
                    rec.label('grow')
                    require(d1 > delta, 'the radius stays at %g after a very successful step of length %g', delta, np.linalg.norm(s))
            else:
                require(d1 <= delta * (1 + 1e-12), 'the radius grows from %g to %g after a refused step', delta, d1)
                rec.label('shrink' if d1 < delta else 'keep')
    if not (acc and ref):
        rec.trivial()
    rec.label('flag%d' % r.info.flag, 'm' if m else 'free')


short = gen.options(miter=st.sampled_from([20, 60, 200]), msimul=st.sampled_from([50, 200]), verbose=(0,))
PARTS = [Part('steps', gen.problem(opt=short), body, 1500, 30000, shards=8)]
