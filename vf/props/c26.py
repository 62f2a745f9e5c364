"""The trial step of one iteration: restoration plus tangential step inside the trust region and the bounds."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Part, require, sut
from ..e2e import householder

RULE = 'a case counts when the step is longer than 1e-6'
ASSUMPTIONS = ['the constraint Jacobian has a smallest singular value of at least 0.1; the Hessian is symmetric positive definite where exact steps are claimed']


class Info:
    pass


@st.composite
def cases(draw, kind='eq'):
    n = draw(st.integers(1, 5))
    me = 0 if kind == 'bounds' else draw(st.integers(1, min(n, 3)))
    ns = draw(st.integers(0, me)) if kind in ('eq', 'slacks') else 0
    c = {'n': n, 'me': me, 'A': draw(gen.mat(me, n, -3, 3)) if me else [], 'c': draw(gen.vec(me, -2, 2)), 'cs': draw(gen.scale(-6, 1)),
         'sl': draw(gen.vec(ns, 0.25, 2)), 'g': draw(gen.vec(n, -5, 5)), 'gs': draw(gen.scale(-4, 2)), 'd': draw(gen.vec(n, 0.25, 8)),
         'ind': draw(st.booleans()), 'v': draw(gen.vec(n, -1, 1)), 'x': draw(gen.vec(n, -3, 3)), 'delta': draw(gen.scale(-4, 3)),
         'lm': draw(gen.vec(n + me, -2, 2)), 'kind': kind, 'rej': draw(st.booleans())}
    if kind == 'eq':
        c['far'] = draw(st.sampled_from([None, 2.01, 5.0, 1e3]))
    if kind != 'eq':
        c['lo'] = [draw(st.sampled_from([0.0, 0.001, 0.25, 1.0, 4.0, None])) for _ in range(n)]
        c['hi'] = [draw(st.sampled_from([0.0, 0.001, 0.25, 1.0, 4.0, None])) for _ in range(n)]
    return c


def body(c, rec, far=None):
    import sqpdfo.sqpdfo_global_variables as glob
    import sqpdfo.sqpdfo_solve_TR_bc as module
    from sqpdfo.helper import dummyOptions, dummyValues
    from sqpdfo.sqpdfo_solve_TR_bc import sqpdfo_solve_TR_bc_
    n, me, ns = c['n'], c['me'], len(c['sl'])
    x = np.round(np.array(c['x']), 6).reshape(-1, 1)
    A = np.round(np.array(c['A']).reshape(me, n), 6)
    sl = np.array(c['sl']).reshape(-1, 1)
    J = A
    if ns:
        J = np.hstack([A, np.vstack([np.zeros((me - ns, ns)), -2 * np.diag(c['sl'])])])
    if me and np.linalg.svd(J, compute_uv=False)[-1] < 0.1:
        rec.trivial()
        return
    cc = np.round(np.array(c['c']), 6) * c['cs']
    off = np.zeros(me)
    if ns:
        off[me - ns:] = np.array(c['sl']) ** 2
    g = (np.round(np.array(c['g']), 6) * c['gs']).reshape(-1, 1)
    d = np.maximum(0.25, np.round(c['d'], 6))
    if c['ind']:
        d = d - 2.0
    M = householder(np.round(c['v'], 6), d)
    M = (M + M.T) / 2
    lb, ub = np.full((n + ns, 1), -np.inf), np.full((n + ns, 1), np.inf)
    if c['kind'] != 'eq':
        for i in range(n):
            if c['lo'][i] is not None:
                lb[i] = x[i] - c['lo'][i]
            if c['hi'][i] is not None:
                ub[i] = x[i] + c['hi'][i]
            if c['lo'][i] == 0 and c['hi'][i] == 0:
                ub[i] = x[i] + 1
    if c['kind'] == 'slacks':
        lb[n:] = 0
    if far:
        lb[:n], ub[:n] = x - far * c['delta'], x + far * c['delta']
    info = Info()
    info.g, info.ae, info.ai = g, A.copy(), np.array([])
    info.ce, info.ci, info.f, info.flag = (cc + off).reshape(-1, 1), np.array([]), 0.0, 0
    info.feasn, info.glagn = float(np.abs(cc).max()) if me else 0.0, 1.0
    opt = dummyOptions()
    opt.verbose, opt.inf, opt.dxmin = 0, np.inf, 1e-8
    glob.set_nbr_slacks(ns)
    glob.set_slacks(sl.copy() if ns else None)
    glob.set_check_condition(0)
    keep = [t.copy() for t in (x, lb, ub, M, g, info.ae, info.ce)]
    # the restoration part is not unique where the constraints leave freedom: watch what the solver of
    # the restoration problem returned
    parts, inner = [], getattr(module, 'bcdfo_solve_TR_MS_bc_', None)

    def watched(*a, **k):
        out = inner(*a, **k)
        parts.append(np.array(out[0], float).reshape(-1, 1))
        return out
    try:
        if inner is not None:
            module.bcdfo_solve_TR_MS_bc_ = watched
        with sut('trial step'):
            r = sqpdfo_solve_TR_bc_(None, x, lb, ub, c['delta'], 0, me, M, 1e-6, 1e-6, info, opt, dummyValues(), c['rej'],
                                    np.array(c['lm']).reshape(-1, 1), np.zeros((me, 1)) if me else np.array([]), np.array([]), g, np.arange(n))
    finally:
        if inner is not None:
            module.bcdfo_solve_TR_MS_bc_ = inner
        glob.set_nbr_slacks(0)
        glob.set_slacks(None)
    xnew, dTR, rpred, ar, at, lmc, lm, inf2, sln = r
    for a, b in zip(keep, (x, lb, ub, M, g, info.ae, info.ce)):
        require(np.array_equal(a, b), 'an argument was modified')
    xnew = np.asarray(xnew, float)
    require(xnew.shape == (n, 1) and np.all(np.isfinite(xnew)), 'new point %s', xnew.tolist())
    s = xnew - x
    if np.linalg.norm(s) <= 1e-6:
        rec.trivial()
    S = s
    if ns:
        require(np.shape(sln) == (ns, 1), 'slack variables %r', sln)
        S = np.vstack([s, np.asarray(sln, float).reshape(-1, 1) - sl])
    delta = c['delta']
    rec.label(c['kind'], 'ar%d' % bool(ar), 'at%d' % bool(at), 'flag%d' % int(inf2.flag))
    return locals()


class Silent:
    def trivial(self):
        pass

    def label(self, *a):
        pass


def model(g, M, s):
    return float(g.T @ s + 0.5 * s.T @ M @ s)


def eq(c, rec):
    v = body(c, rec)
    if v is None:
        return
    n, me, ns, S, J, cc, delta, M, g, rpred, parts = [v[k] for k in ('n', 'me', 'ns', 'S', 'J', 'cc', 'delta', 'M', 'g', 'rpred', 'parts')]
    N = n + ns
    c0 = cc.reshape(-1, 1)
    before, after = np.linalg.norm(c0), np.linalg.norm(c0 + J @ S)
    tol = 1e-8 * (1 + before)
    require(np.linalg.norm(S) <= 2 * delta * (1 + 2e-3), 'step of length %g in a region of radius %g', np.linalg.norm(S), delta)
    require(abs(rpred - (before - after)) <= tol, 'predicted reduction of the infeasibility %g, the step gives %g', rpred, before - after)
    require(after <= before + tol, 'the step increases the linearized infeasibility from %g to %g', before, after)
    # restoration: the linearized infeasibility is minimal over the region
    Jp = np.linalg.pinv(J)
    low = np.linalg.norm(Jp @ c0)
    if low <= 0.99 * delta:
        rec.label('reachable')
        require(after <= 1e-6 * (1 + before) or np.linalg.norm(J.T @ (c0 + J @ S)) <= 1e-6, 'the linearized constraints can be satisfied inside the region but %g remain', after)
    else:
        rec.label('unreachable')
        best = np.sqrt(max(before ** 2 + 2 * ref.tr_optimum((J.T @ c0).ravel(), J.T @ J, delta), 0))
        require(after <= best + 5e-3 * (before - best) + tol or np.linalg.norm(J.T @ c0) <= 1e-6, 'the linearized infeasibility is %g, %g is possible within %g', after, best, delta)
    if c['far'] and c['far'] * delta > 1e-4:
        rec.label('far')
        w = body(c, Silent(), c['far'])
        require(np.abs(w['xnew'] - v['xnew']).max() <= 1e-7 * delta, 'bounds beyond the reach of the step change it from %s to %s', v['xnew'].tolist(), w['xnew'].tolist())
    # tangential step
    if not parts:
        r = np.zeros((N, 1))
    elif len(parts) == 1 and parts[0].shape == (N, 1):
        r = parts[0]
    else:
        return
    t = S - r
    require(np.linalg.norm(J @ t) <= 1e-8 * (1 + np.linalg.norm(t)), 'the tangential step changes the linearized constraints by %g', np.linalg.norm(J @ t))
    require(np.linalg.norm(r) <= delta * (1 + 2e-3), 'restoration step of length %g in a region of radius %g', np.linalg.norm(r), delta)
    require(np.linalg.norm(t) <= delta * (1 + 2e-3), 'tangential step of length %g in a region of radius %g', np.linalg.norm(t), delta)
    if N == me:
        return
    gg, MM = np.vstack([g, np.zeros((ns, 1))]), np.zeros((N, N))
    MM[:n, :n] = M
    mr, ms = model(gg, MM, r), model(gg, MM, S)
    Z = np.linalg.svd(J)[2][me:].T
    gt, Mt = Z.T @ (gg + MM @ r), Z.T @ MM @ Z
    ng, nm = np.linalg.norm(gt), np.linalg.norm(Mt, 2)
    tol = 1e-9 * (np.linalg.norm(gg) + np.linalg.norm(M) * delta) * delta + 1e-13
    if ng > 1e-5:
        cauchy = 0.5 * ng * min(delta, ng / max(nm, 1e-300))
        require(mr - ms >= cauchy * (1 - 1e-3) - tol, 'the tangential step decreases the model by %g, the steepest descent direction allows %g', mr - ms, cauchy)
    else:
        require(mr - ms >= -tol, 'the tangential step increases the model by %g', ms - mr)
    if np.linalg.norm(t) < 0.99 * delta and not ns and not c['ind']:
        w = np.linalg.norm(Z.T @ (gg + MM @ S))
        rec.label('interior')
        require(w <= 1.01e-6, 'projected gradient of the model %g after an interior step', w)


def inside(v):
    c, x, lb, ub, xnew = [v[k] for k in ('c', 'x', 'lb', 'ub', 'xnew')]
    n = c['n']
    viol = max((lb[:n] - xnew).max(), (xnew - ub[:n]).max())
    scale = 1 + max(np.abs(x).max(), c['delta'])
    require(viol <= 1e-7 * scale, 'the new point is outside the bounds by %g', viol)
    return n, x, lb[:n], ub[:n], xnew


def holding(v):
    """Variables at a bound towards which the gradient of the Lagrangian pushes them."""
    c, n, x, lb, ub = v['c'], v['n'], v['x'], v['lb'], v['ub']
    lm = np.array(c['lm']).reshape(-1, 1)
    low, high = x - lb[:n] < 1e-5, ub[:n] - x < 1e-5
    gl = v['g'] + np.where(low | high, lm[:n], 0) + (v['J'].reshape(-1, n).T @ lm[n:] if v['me'] else 0)
    return [i for i in range(n) if low[i, 0] and x[i, 0] - gl[i, 0] <= lb[i, 0] or high[i, 0] and x[i, 0] - gl[i, 0] >= ub[i, 0]]


def fits(v, rec, held, r):
    """The step is at least as good as the part inside the bounds of the exact tangential step."""
    n, J, M, g, x, lb, ub, delta = [v[k] for k in ('n', 'J', 'M', 'g', 'x', 'lb', 'ub', 'delta')]
    B = np.vstack([J, np.eye(n)[held]])
    sv = np.linalg.svd(B)
    if v['c']['ind'] or len(B) >= n or sv[1][-1] < 0.1:
        return
    Z = sv[2][len(B):].T
    gr = g + M @ r
    t = -Z @ np.linalg.solve(Z.T @ M @ Z, Z.T @ gr)
    ng = np.linalg.norm(Z.T @ gr)
    if np.linalg.norm(t) > 0.99 * delta or ng < 2e-5:
        return
    t[np.abs(t) < 1e-10 * np.linalg.norm(t)] = 0
    with np.errstate(all='ignore'):
        room = np.where(t > 0, (ub - x - r) / t, np.where(t < 0, (lb - x - r) / t, np.inf))
    a = float(min(1, room.min()))
    if a > 0:
        rec.label('fits' if a == 1 else 'cut')
        want, got = model(g, M, r) - model(g, M, r + a * t), model(g, M, r) - model(g, M, v['xnew'] - x)
        require(got >= want * (1 - 1e-3) - 1e-5 * ng * (1e-5 + np.linalg.norm(t)) - 1e-9, 'the tangential step decreases the model by %g, the part inside the bounds of the exact one by %g', got, want)


def both(c, rec):
    v = body(c, rec)
    if v is None:
        return
    n, x, lb, ub, xnew = inside(v)
    s = xnew - x
    require(np.linalg.norm(s) <= 2 * c['delta'] * (1 + 2e-3), 'step of length %g in a region of radius %g', np.linalg.norm(s), c['delta'])
    cc, rpred = v['cc'], v['rpred']
    before = np.linalg.norm(cc)
    require(rpred >= -1e-8 * (1 + before), 'predicted reduction of the infeasibility %g', rpred)
    if len(v['parts']) == 1:
        r = v['parts'][0]
        require(r.shape == (n, 1) and np.all(r >= lb - x - 1e-9) and np.all(r <= ub - x + 1e-9), 'restoration step %s outside the bounds', r.tolist())
        require(np.linalg.norm(r) <= c['delta'] * (1 + 2e-3), 'restoration step of length %g in a region of radius %g', np.linalg.norm(r), c['delta'])
        J, me, held = v['J'], v['me'], holding(v)
        rec.label('held%d' % min(len(held), 2))
        fits(v, rec, held, r)
        B = np.vstack([J, np.eye(n)[held]])
        d = np.concatenate([cc, np.zeros(len(held))]).reshape(-1, 1)
        sv = np.linalg.svd(B, compute_uv=False)
        if len(B) < n or sv[-1] < 0.1:
            return      # several restoration steps are as good, and the solver may stop at any of them
        best = np.linalg.lstsq(B, -d, rcond=None)[0]
        if np.linalg.norm(best) <= 0.99 * c['delta'] and np.all(x + best > lb - 1e-12) and np.all(x + best < ub + 1e-12):
            want, got = np.linalg.norm(B @ best + d), np.linalg.norm(B @ r + d)
            push = [i for i in range(n) if (J.T @ cc)[i] > 0 and x[i, 0] - lb[i, 0] <= 1e-9 or (J.T @ cc)[i] < 0 and ub[i, 0] - x[i, 0] <= 1e-9]
            if not push or (set(push) <= set(held) and want <= 1e-10):
                rec.label('undisturbed')
                require(got <= want + 2e-4 * (1 + before), 'restoration leaves an infeasibility of %g, %g can be reached without touching a bound (held: %s)', got, want, held)


def slk(c, rec):
    v = body(c, rec)
    if v is None:
        return
    inside(v)
    S, delta = v['S'], c['delta']
    require(np.linalg.norm(S) <= 2 * delta * (1 + 2e-3), 'step of length %g (slacks included) in a region of radius %g', np.linalg.norm(S), delta)
    if v['ns']:
        sln = np.asarray(v['sln'], float)
        require(np.all(sln >= -1e-9), 'slack variables %s below their bound', sln.tolist())


def bnd(c, rec):
    v = body(c, rec)
    if v is None:
        return
    n, x, lb, ub, xnew = inside(v)
    s = xnew - x
    delta, g, M = c['delta'], v['g'], v['M']
    require(np.linalg.norm(s) <= delta * (1 + 2e-3), 'step of length %g in a region of radius %g', np.linalg.norm(s), delta)
    m = model(g, M, s)
    require(m <= 1e-9 * (np.linalg.norm(g) * delta + np.linalg.norm(M) * delta ** 2), 'the step increases the model by %g', m)
    require(v['rpred'] == 0, 'predicted reduction of the infeasibility %r without constraints', v['rpred'])
    require(bool(v['at']) == bool(np.linalg.norm(s) >= delta) or abs(np.linalg.norm(s) - delta) <= 1e-9 * delta, 'radius-active flag %r with a step of %g in %g', v['at'], np.linalg.norm(s), delta)


PARTS = [Part('slacks', cases('slacks'), slk, 4000, 80000, shards=8),
         Part('equality', cases('eq'), eq, 4000, 80000, shards=8),
         Part('both', cases('both'), both, 4000, 80000, shards=8),
         Part('bounds', cases('bounds'), bnd, 2000, 40000, shards=8)]
