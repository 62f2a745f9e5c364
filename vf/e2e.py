"""Building problems from plain data and running the optimizer on them with every user-visible
interaction recorded."""
import contextlib
import io
import math
import types

import numpy as np

from .core import Violation, require, sut


def householder(v, d):
    n = len(d)
    v = np.array(v, float)
    nv = float(v @ v)
    H = np.eye(n) if nv < 1e-6 else np.eye(n) - 2.0 * np.outer(v, v) / nv
    return H @ np.diag(d) @ H


def objective(ob):
    xs = np.array(ob['xs'])
    c0 = ob['c0']
    k = ob['kind']
    if k in ('quad', 'indef', 'quart'):
        Q = householder(ob['v'], ob['d'])
        if k == 'quart':
            fun = lambda x: c0 + 0.5 * float((x - xs) @ Q @ (x - xs)) + float(np.sum((x - xs) ** 4))
            grad = lambda x: Q @ (x - xs) + 4 * (x - xs) ** 3
        else:
            fun = lambda x: c0 + 0.5 * float((x - xs) @ Q @ (x - xs))
            grad = lambda x: Q @ (x - xs)
    elif k == 'rosen':
        fun = lambda x: c0 + float(np.sum((1 - x[:-1]) ** 2 + 10 * (x[1:] - x[:-1] ** 2) ** 2))

        def grad(x):
            g = np.zeros_like(x)
            r = x[1:] - x[:-1] ** 2
            g[:-1] += -2 * (1 - x[:-1]) - 40 * r * x[:-1]
            g[1:] += 20 * r
            return g
    elif k == 'sin':
        fun = lambda x: c0 + float(np.sum(np.sin(x - xs)) + 0.1 * np.sum(x * x))
        grad = lambda x: np.cos(x - xs) + 0.2 * x
    elif k == 'lin':
        g = np.array(ob['g'])
        fun = lambda x: c0 + float(g @ x)
        grad = lambda x: g.copy()
    elif k == 'abs':
        fun = lambda x: c0 + float(np.sum(np.abs(x - xs)))
        grad = None
    elif k == 'step':
        fun = lambda x: c0 + float(np.sum(np.floor(2 * (x - xs))))
        grad = None
    elif k == 'noise':
        fun = lambda x: c0 + float(np.sum((x - xs) ** 2) * (1.0 + 0.01 * np.sin(1e6 * np.sum(x))))
        grad = None
    elif k == 'const':
        fun = lambda x: c0
        grad = lambda x: np.zeros_like(x)
    else:
        raise ValueError(k)
    return fun, grad


def constraints(p):
    fs, gs = [], []
    xf = None if p['xf'] is None else np.array(p['xf'])
    for c in p['cons']:
        if c['kind'] == 'lin':
            a = np.array(c['a'])
            b = float(a @ xf) - c['slack']
            fs.append(lambda x, a=a, b=b: float(a @ x) - b)
            gs.append(lambda x, a=a: a.copy())
        elif c['kind'] == 'ball':
            cc = np.array(c['c'])
            b = float((xf - cc) @ (xf - cc)) + c['slack']
            fs.append(lambda x, cc=cc, b=b: b - float((x - cc) @ (x - cc)))
            gs.append(lambda x, cc=cc: -2 * (x - cc))
        elif c['kind'] == 'prod':
            b = float(xf[0] * xf[1]) - c['slack']
            fs.append(lambda x, b=b: float(x[0] * x[1]) - b)

            def gp(x):
                g = np.zeros_like(x)
                g[0], g[1] = x[1], x[0]
                return g
            gs.append(gp)
        elif c['kind'] == 'hinge':   # zero on a half space around the feasible point
            a, sgn = np.array(c['a']), c['sgn']
            b = float(a @ xf) + c['slack']
            fs.append(lambda x, a=a, b=b, sgn=sgn: sgn * max(0.0, float(a @ x) - b))
            gs.append(lambda x, a=a, b=b, sgn=sgn: sgn * a * (float(a @ x) > b))
        elif c['kind'] == 'flat':
            fs.append(lambda x, v=c['slack']: v)
            gs.append(lambda x: np.zeros_like(x))
        else:
            raise ValueError(c['kind'])
    return fs, gs


class Run:
    """Everything observable about one call."""
    x = lm = info = None
    exc = None
    out = ''


class Options:
    pass


def make_options(d):
    o = Options()
    for k, v in d.items():
        setattr(o, k, v)
    return o


def arr(v, sub, n, col=True):
    if v is None:
        return None
    a = np.array([sub if t is None else t for t in v], float)
    return a.reshape(-1, 1) if col else a.reshape(1, -1)


def optimize(options, f, x0, lb, ub, me=None, mi=None, c=None, **kw):
    """Call the public entry point with the terminal output captured."""
    import sqpdfo
    r = Run()
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        res = sqpdfo.optimize(options, f, x0, lb, ub, me, mi, c, **kw)
    r.out = buf.getvalue()
    r.x, r.lm, r.info = res
    return r


class Problem:
    def __init__(self, p):
        self.p = p
        self.n = p['n']
        self.me, self.mi = p['me'], p['mi']
        self.f, self.grad = objective(p['obj'])
        self.cs, self.cgs = constraints(p)
        self.lb = np.full(self.n, -np.inf) if p['lb'] is None else arr(p['lb'], -np.inf, self.n).ravel()
        self.ub = np.full(self.n, np.inf) if p['ub'] is None else arr(p['ub'], np.inf, self.n).ravel()
        self.lb[self.lb <= -1e20] = -np.inf
        self.ub[self.ub >= 1e20] = np.inf

    def cval(self, x):
        x = np.asarray(x, float)
        return np.array([c(x) for c in self.cs])

    def fval(self, x):
        return self.f(np.asarray(x, float))

    def run(self, what='sqpdfo.optimize', opt=None, fault=None, x0=None, lb=None, ub=None):
        """fault: function (kind, index, x, value) -> value (may raise)."""
        p = self.p
        calls = []

        def f(x):
            v = self.fval(x)
            k = sum(1 for c in calls if c[0] == 'f')
            calls.append(('f', tuple(float(t) for t in x), v))
            if fault is not None:
                v = fault('f', k, x, v)
            return v

        def c(x):
            v = self.cval(x)
            k = sum(1 for c in calls if c[0] == 'c')
            calls.append(('c', tuple(float(t) for t in x), v))
            if fault is not None:
                v = fault('c', k, x, v)
            return v

        m = self.me + self.mi
        x0 = np.array([p['x0']], float) if x0 is None else x0
        lb = arr(p['lb'], -np.inf, self.n) if lb is None else lb
        ub = arr(p['ub'], np.inf, self.n) if ub is None else ub
        with sut(what):
            if m:
                r = optimize(make_options(opt or p['opt']), f, x0, lb, ub, self.me, self.mi, c)
            else:
                r = optimize(make_options(opt or p['opt']), f, x0, lb, ub)
        r.calls = calls
        r.fcalls = [c for c in calls if c[0] == 'f']
        r.ccalls = [c for c in calls if c[0] == 'c']
        return r


def final_x(r, n):
    """Final point as a flat vector."""
    x = np.asarray(r.x, float)
    require(x.size == n, 'returned x has %d components instead of %d', x.size, n)
    return x.reshape(-1)
