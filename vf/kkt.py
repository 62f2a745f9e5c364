"""First-order optimality of a point, from exact derivatives of the problem data."""
import numpy as np
from scipy.optimize import lsq_linear


def residual(P, x, act, free_sign=False):
    """Distance of the objective gradient to the cone of active constraint gradients, and the
    size of the multipliers of the closest combination."""
    g = P.grad(x)
    A, lo, hi = [], [], []
    for k, (c, cg) in enumerate(zip(P.cs, P.cgs)):
        if k < P.me or free_sign or c(x) <= act:
            A.append(cg(x))
            lo.append(-np.inf if k < P.me or free_sign else 0.0)
            hi.append(np.inf)
    for i in range(P.n):
        e = np.zeros(P.n)
        e[i] = 1.0
        if x[i] <= P.lb[i] + act:
            A.append(e)
            lo.append(0.0)
            hi.append(np.inf)
        if x[i] >= P.ub[i] - act:
            A.append(-e)
            lo.append(0.0)
            hi.append(np.inf)
    if not A:
        return float(np.abs(g).max()), 0.0
    A = np.array(A).T
    s = lsq_linear(A, g, (np.array(lo), np.array(hi)), tol=1e-14)
    return float(np.abs(A @ s.x - g).max()), float(np.abs(s.x).max())


def infeasibility(P, x):
    if not P.cs:
        return 0.0
    c = P.cval(x)
    return float(max([abs(t) for t in c[:P.me]] + [max(0.0, -t) for t in c[P.me:]]))


def curvature(P, x, h=2e-3):
    """Largest change of a gradient per unit of distance near x."""
    k = 0.0
    for gr in [P.grad] + P.cgs:
        g = gr(x)
        for i in range(P.n):
            for s in (h, -h):
                y = x.copy()
                y[i] += s
                k = max(k, float(np.abs(gr(y) - g).max()) / h)
    return k


def degenerate(P, x, act):
    """Are the gradients of the equality constraints and of the active inequalities and bounds
    (nearly) dependent, or is one of them (nearly) zero?"""
    A = [cg(x) for k, (c, cg) in enumerate(zip(P.cs, P.cgs)) if k < P.me or c(x) <= act]
    A += [e for i, e in enumerate(np.eye(P.n)) if x[i] <= P.lb[i] + act or x[i] >= P.ub[i] - act]
    if not A:
        return False
    A = np.array(A)
    nr = np.linalg.norm(A, axis=1)
    if nr.min() < 1e-3 or len(A) > P.n:
        return True
    return float(np.linalg.svd(A / nr[:, None], compute_uv=False).min()) < 1e-3
