"""Strategies for plain-data cases."""
from hypothesis import strategies as st


def num(lo, hi, den=8):
    """Numbers in [lo, hi]: dyadic grid points (ties, exact arithmetic) or arbitrary floats."""
    grid = st.integers(int(lo * den), int(hi * den)).map(lambda k: k / den)
    return st.one_of(grid, st.floats(lo, hi, allow_nan=False, allow_subnormal=False))


def vec(n, lo, hi, den=8):
    return st.lists(num(lo, hi, den), min_size=n, max_size=n)


def mat(r, c, lo, hi, den=8):
    return st.lists(vec(c, lo, hi, den), min_size=r, max_size=r)


def scale(lo, hi):
    """Powers of ten and values between them."""
    return st.one_of(st.integers(lo, hi).map(lambda k: 10.0 ** k),
                     st.floats(lo, hi).map(lambda e: 10.0 ** e))


OPTION_VALUES = {
    'hess_approx': ['model', 'bfgs'],
    'whichmodel': ['subbasis', 'frobnorm', 'l2norm', 'regression'],
    'final_degree': ['linear', 'diagonal', 'quadratic'],
}


@st.composite
def options(draw, miter=None, msimul=None, verbose=(0, 0, 0, 1, 2)):
    o = {k: draw(st.sampled_from(v)) for k, v in OPTION_VALUES.items()}
    o['bfgs_restart'] = draw(st.sampled_from([0, 0, 3]))
    o['miter'] = draw(miter if miter is not None else st.sampled_from([4, 20, 80]))
    o['msimul'] = draw(msimul if msimul is not None else st.sampled_from([10, 40, 120]))
    o['verbose'] = draw(st.sampled_from(list(verbose)))
    t = draw(st.sampled_from([None, 1e-5, 1e-4, 1e-2]))
    if t is not None:
        o['tol_grad'] = o['tol_feas'] = o['tol_bnds'] = t
    return o


@st.composite
def objective(draw, n, kinds):
    kind = draw(st.sampled_from(kinds))
    ob = {'kind': kind, 'c0': draw(st.sampled_from([0.0, 1.0, -3.5, 100.0]))}
    ob['xs'] = draw(vec(n, -3, 3))
    if kind in ('quad', 'indef', 'quart'):
        if kind == 'indef':
            ob['d'] = draw(vec(n, -4, 6))
        else:
            ob['d'] = draw(vec(n, 0.25, 8))
        ob['v'] = draw(vec(n, -2, 2))
    elif kind == 'lin':
        ob['g'] = draw(vec(n, -3, 3))
    return ob


@st.composite
def problem(draw, nmax=4, kinds=('quad', 'rosen', 'quart', 'sin', 'indef', 'lin', 'abs'), bounds=None, cons=True, cons_kinds=('lin', 'lin', 'lin', 'ball', 'ball', 'prod', 'prod', 'hinge', 'flat'), opt=None, smooth_only=False):
    n = draw(st.integers(1, nmax))
    kinds = [k for k in kinds if not (k == 'rosen' and n == 1)]
    ob = draw(objective(n, kinds))
    need_box = ob['kind'] in ('indef', 'lin')
    btype = draw(st.sampled_from(bounds or ['none', 'inf', 'box', 'box', 'tight', 'half', 'mixed']))
    if need_box and btype not in ('box', 'tight'):
        btype = 'box'
    lb = ub = None
    c = draw(vec(n, -3, 3))
    if btype in ('box', 'tight', 'half', 'mixed'):
        wide = [0.125, 0.5, 1.0, 1.75, 2.0, 2.5] if btype == 'tight' else [2.0, 2.5, 4.0, 8.0, 20.0]
        w = [draw(st.one_of(st.sampled_from(wide), st.floats(wide[0], wide[-1]))) for _ in range(n)]
        lb = [ci - wi / 2 for ci, wi in zip(c, w)]
        ub = [ci + wi / 2 for ci, wi in zip(c, w)]
        if btype in ('half', 'mixed'):
            side = [draw(st.sampled_from(['lo', 'up', 'both', 'none'] if btype == 'mixed' else ['lo', 'up'])) for _ in range(n)]
            big = draw(st.sampled_from([None, 1e20]))
            lb = [l if s in ('lo', 'both') else (None if big is None else -big) for l, s in zip(lb, side)]
            ub = [u if s in ('up', 'both') else big for u, s in zip(ub, side)]
    elif btype == 'inf':
        lb = [None] * n
        ub = [None] * n
    x0 = draw(vec(n, -5, 5))
    me = mi = 0
    cl = []
    if cons:
        ctype = draw(st.sampled_from(['', '', 'e', 'i', 'ei']))
        if 'e' in ctype:
            me = draw(st.integers(1, max(1, n - 1)))
        if 'i' in ctype:
            mi = draw(st.integers(1, 2))
        t = draw(vec(n, 0, 1))
        xf = []
        for j in range(n):
            l = -3.0 if lb is None or lb[j] is None or lb[j] < -1e19 else lb[j]
            u = l + 6.0 if ub is None or ub[j] is None or ub[j] > 1e19 else ub[j]
            if lb is None or lb[j] is None:
                l = u - 6.0
            xf.append(l + t[j] * (u - l))
        for k in range(me + mi):
            kd = draw(st.sampled_from([k2 for k2 in cons_kinds if not (k2 == 'prod' and n == 1)]))
            cc = {'kind': kd, 'type': 'e' if k < me else 'i'}
            if kd in ('lin', 'hinge'):
                a = draw(vec(n, -2, 2))
                if sum(abs(v) for v in a) < 0.5:
                    a[k % n] += 1.0
                cc['a'] = a
            elif kd == 'ball':
                cc['c'] = draw(vec(n, -2, 2))
            if kd == 'hinge':
                cc['sgn'] = draw(st.sampled_from([-1.0, 1.0]))
            cc['slack'] = 0.0 if k < me and kd != 'hinge' else draw(num(0, 2))
            cl.append(cc)
    else:
        xf = None
    return {'n': n, 'obj': ob, 'btype': btype, 'lb': lb, 'ub': ub, 'x0': x0, 'me': me, 'mi': mi,
            'cons': cl, 'xf': xf, 'opt': draw(opt if opt is not None else options())}


def nquad(n):
    return (n + 1) * (n + 2) // 2


@st.composite
def pointset(draw, nmax=4, over=False, p1=None):
    """Interpolation set: Y[0] is the base point. Points are spread over a ball of a chosen
    radius around a chosen centre; lattice points give ties and degenerate sets."""
    n = draw(st.integers(1, nmax))
    q = nquad(n)
    hi = q + (n + 2 if over else 0)
    k = draw(st.sampled_from([n + 1, 2 * n + 1, q, None])) if p1 is None else p1(n)
    if k is None:
        k = draw(st.integers(n + 1, hi))
    r = draw(scale(-3, 2))
    c = draw(st.one_of(st.just([0.0] * n), vec(n, -5, 5)))
    style = draw(st.sampled_from(['simplex', 'simplex', 'free', 'free', 'lattice']))
    if style == 'lattice':
        Y = [[float(t) for t in v] for v in draw(st.lists(st.lists(st.integers(-2, 2), min_size=n, max_size=n), min_size=k, max_size=k, unique_by=tuple))] if 5 ** n > k + 2 else [[i / k] for i in range(k)]
    elif style == 'free':
        Y = [draw(vec(n, -1, 1, 16)) for _ in range(k)]
    else:
        Y = [[0.0] * n]
        for j in range(n):
            Y.append([-1.0 if i == j else 0.0 for i in range(n)])
        for j in range(n):
            Y.append([1.0 if i == j else 0.0 for i in range(n)])
        for i in range(n):
            for j in range(i):
                Y.append([1.0 if t in (i, j) else 0.0 for t in range(n)])
        while len(Y) < k:
            Y.append(draw(vec(n, -1, 1, 16)))
        Y = Y[:k]
        w = draw(st.sampled_from([0.0, 0.125, 0.5]))
        if w:
            Y = [[a + w * b for a, b in zip(y, draw(vec(n, -1, 1, 16)))] for y in Y]
    return {'n': n, 'Y': [[ci + r * t for ci, t in zip(c, y)] for y in Y]}
