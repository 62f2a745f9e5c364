"""The form in which the same problem is given does not change the result."""
import functools

import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen
from ..core import Part, require, sut

RULE = 'a case counts when the run evaluated at least one point beyond the initial set and the input form differs from the reference form'
ASSUMPTIONS = ['the reference form is a float row for the starting point, float columns for the bounds, lower-case option names and no output',
               'bounds at or beyond 1e20 in absolute value mean no bound', 'results are compared with relative tolerance 1e-9']
XFORMS = ['row', 'column', 'flat', 'list', 'tuple', 'nested', 'int', 'fortran', 'readonly']
BFORMS = ['same', 'list', 'readonly', 'big', 'int', 'row', 'flat', 'tuple', 'nested']
FUNS = ['function', 'function', 'method', 'object', 'partial']

whole = lambda v: int(v) if abs(v) < 1e9 and v == round(v) else float(v)
RET = {'list': list, 'whole': lambda v: [whole(t) for t in v], 'array': np.array, 'column': lambda v: np.array(v).reshape(-1, 1), 'tuple': tuple,
       'buffer': np.array}
MESS = ['', '', 'set', 'clear', 'sort']


def names(o, k):
    """Other spellings of the same option values."""
    o = dict(o)
    for key in ('hess_approx', 'whichmodel', 'final_degree'):
        v = o[key]
        o[key] = [v, v.upper(), v.capitalize(), ' ' + v, v[:2] + ' ' + v[2:] + ' '][k % 5]
        k //= 5
    return o


def spoil(v, how):
    if how == 'raise':
        raise ArithmeticError('planned failure')
    return {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}[how]


class Holder:
    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)

    def method(self, x):
        return self.f(x)


def dressed(f, how):
    """The same function as another kind of callable."""
    if how == 'method':
        return Holder(f).method
    if how == 'object':
        return Holder(f)
    if how == 'partial':
        return functools.partial(lambda g, x: g(x), f)
    return f


def scribble(x, how):
    """A user function may use the vector it gets as work space."""
    if how == 'set':
        for i in range(len(x)):
            x[i] = -3.0 * x[i] + 1
    elif how == 'clear' and isinstance(x, list):
        del x[:]
    elif how == 'sort' and isinstance(x, list):
        x.sort()
        x.reverse()


def observe(P, opt, x0, lb, ub, ret='list', fault=None, fun='function', mess=''):
    calls, ccalls = [], [0]
    store = {}

    def kept(v):
        # the same array is returned by every call
        v = np.array(v, float)
        a = store.setdefault(v.shape, np.zeros(v.shape))
        a[...] = v
        return a

    def f(x):
        v = P.fval(x)
        calls.append((tuple(float(t) for t in x), v))
        if fault and fault[0] == 'f' and len(calls) == fault[1]:
            v = spoil(v, fault[2])
        scribble(x, mess)
        if ret == 'buffer':
            return kept(v)
        return v if ret == 'list' else whole(v) if ret == 'whole' else np.float64(v) if ret != 'column' else np.array(v)

    def c(x):
        ccalls[0] += 1
        v = list(P.cval(x))
        if fault and fault[0] == 'c' and ccalls[0] == fault[1]:
            v[-1] = spoil(v[-1], fault[2])
        scribble(x, mess)
        return kept(v) if ret == 'buffer' else RET[ret](v)
    kw = {}
    f, c = dressed(f, fun), dressed(c, fun)
    with sut('sqpdfo.optimize'):
        if P.cs:
            r = e2e.optimize(e2e.make_options(opt), f, x0, lb, ub, P.me, P.mi, c, **kw)
        else:
            r = e2e.optimize(e2e.make_options(opt) if opt is not None else None, f, x0, lb, ub)
    r.points = calls
    return r


def same(a, b, P, what):
    require(int(a.info.flag) == int(b.info.flag), '%s: status %r, reference %r', what, b.info.flag, a.info.flag)
    require(len(a.points) == len(b.points), '%s: %d evaluations, reference %d', what, len(b.points), len(a.points))
    for k, (p, q) in enumerate(zip(a.points, b.points)):
        require(np.allclose(p[0], q[0], rtol=1e-9, atol=1e-12), '%s: evaluation %d at %s, reference %s', what, k, q[0], p[0])
    require(np.allclose(e2e.final_x(a, P.n), e2e.final_x(b, P.n), rtol=1e-9, atol=1e-12), '%s: other final point', what)
    la, lb = np.asarray(a.lm, float).ravel(), np.asarray(b.lm, float).ravel()
    require(la.shape == lb.shape and np.allclose(la, lb, rtol=1e-6, atol=1e-9, equal_nan=True), '%s: multipliers %s, reference %s', what, lb.tolist(), la.tolist())
    require(np.allclose(np.ravel(a.info.ce), np.ravel(b.info.ce), rtol=1e-9, atol=1e-12), '%s: other constraint values', what)


def body(p, rec):
    P = e2e.Problem(p)
    n = P.n
    how = p['how']
    x0 = np.array([p['x0']], float)
    lb, ub = e2e.arr(p['lb'], -np.inf, n), e2e.arr(p['ub'], np.inf, n)
    ref = observe(P, dict(p['opt'], verbose=0), x0, lb, ub, fault=p['fault'])
    if p['fault']:
        rec.label('fault:%s%d' % (p['fault'][2], int(ref.info.flag)))
    if len(ref.points) <= n + 1:
        rec.trivial()
    what = []
    xf, bf = p['xform'], p['bform']
    o = dict(p['opt'])
    X = x0.copy()
    if xf == 'column':
        X = X.T.copy()
    elif xf == 'flat':
        X = X.ravel()
    elif xf == 'list':
        X = [float(t) for t in x0[0]]
    elif xf == 'tuple':
        X = tuple(float(t) for t in x0[0])
    elif xf == 'nested':
        X = x0.tolist()
    elif xf == 'int':
        if np.all(x0 == np.round(x0)):
            X = x0.astype(int)
            rec.label('ints')
    elif xf == 'fortran':
        X = np.asfortranarray(X)
    elif xf == 'readonly':
        X.setflags(write=False)
    L, U = lb, ub
    if lb is not None:
        if bf == 'list':
            L, U = list(lb.ravel()), list(ub.ravel())
        elif bf == 'tuple':
            L, U = tuple(lb.ravel()), tuple(ub.ravel())
        elif bf == 'nested':
            L, U = lb.tolist(), ub.tolist()
        elif bf == 'row':
            L, U = lb.T.copy(), ub.T.copy()
        elif bf == 'flat':
            L, U = lb.ravel(), ub.ravel()
        elif bf == 'readonly':
            L, U = lb.copy(), ub.copy()
            L.setflags(write=False)
            U.setflags(write=False)
        elif bf == 'big':
            L, U = np.where(np.isinf(lb), -1e20, lb), np.where(np.isinf(ub), 1e20, ub)
        elif bf == 'int' and np.all(lb == np.round(lb)) and np.all(ub == np.round(ub)) and np.abs(lb).max() < 1e15 and np.abs(ub).max() < 1e15:
            L, U = lb.astype(int), ub.astype(int)
            rec.label('intbounds')
        if np.all(np.isinf(lb)) and p['drop']:
            L = None
        if np.all(np.isinf(ub)) and p['drop']:
            U = None
    rec.label('x:' + xf, 'b:' + bf, 'verbose%d' % o['verbose'], 'ret:' + p['ret'], p['fun'], 'mess:' + p['mess'])
    o = names(o, p['spell'])
    if p['defaults']:
        # leaving an option out is the same as giving its documented default
        for k, v in (('whichmodel', 'subbasis'), ('hess_approx', 'model'), ('final_degree', 'diagonal'), ('tol_grad', 1e-5), ('tol_feas', 1e-5), ('tol_bnds', 1e-5), ('bfgs_restart', 0)):
            if p['opt'].get(k) == v:
                o.pop(k)
        rec.label('defaults')
    if p['extra']:
        # stating the default of an option is the same as leaving it out
        o.update({'algo_descent': ['powell', 'Powell', ' POWELL'][p['spell'] % 3], 'dxmin': 1e-8, 'inf': np.inf, 'fout': 1})
        for k in ('tol_grad', 'tol_feas', 'tol_bnds'):
            if k in o and o[k] == 1e-5:
                o[k] = 0
        rec.label('stated')
    if p['limit']:
        o.pop(p['limit'])
        rec.label('no ' + p['limit'])
    got = observe(P, o, X, L, U, p['ret'], p['fault'], p['fun'], p['mess'])
    same(ref, got, P, 'same problem with x0 as %s, bounds as %s, verbose %s, %s returned as %s by a %s, vector overwritten: %s, options %s' % (xf, bf, o['verbose'], 'values', p['ret'], p['fun'], p['mess'] or 'no', o))


@st.composite
def cases(draw):
    opt = gen.options(miter=st.sampled_from([4, 20, 60]), msimul=st.sampled_from([10, 40, 120]), verbose=(0, 1, 2, 3, 4, 5, 6))
    p = draw(gen.problem(opt=opt))
    p['how'] = ''
    p['xform'] = draw(st.sampled_from(XFORMS))
    p['bform'] = draw(st.sampled_from(BFORMS))
    p['fun'] = draw(st.sampled_from(FUNS))
    p['mess'] = draw(st.sampled_from(MESS))
    p['spell'] = draw(st.integers(0, 124))
    p['ret'] = draw(st.sampled_from(sorted(RET)))
    p['drop'] = draw(st.booleans())
    p['defaults'] = draw(st.booleans())
    p['extra'] = draw(st.booleans())
    p['limit'] = draw(st.sampled_from([None] * 10 + ['miter', 'msimul']))
    if p['limit']:
        p['opt'][p['limit']] = 1000
    p['fault'] = None
    if draw(st.integers(0, 3)) == 0:
        p['fault'] = [draw(st.sampled_from('fc')), draw(st.one_of(st.integers(1, 6), st.integers(1, 40))), draw(st.sampled_from(['raise', 'nan', 'inf', '-inf']))]
    if p['xform'] == 'int':
        p['x0'] = [float(round(t)) for t in p['x0']]
    if p['bform'] == 'int' and p['lb'] is not None:
        p['lb'] = [t if t is None else float(np.floor(t)) for t in p['lb']]
        p['ub'] = [t if t is None else float(np.ceil(t)) for t in p['ub']]
    return p


DEFAULTS = {'hess_approx': 'model', 'bfgs_restart': 0, 'whichmodel': 'subbasis', 'final_degree': 'diagonal', 'tol_grad': 1e-5, 'tol_feas': 1e-5, 'tol_bnds': 1e-5, 'miter': 1000, 'msimul': 1000, 'verbose': 1}


def bare(p, rec):
    """Without options (none at all, or an empty record) a run uses the documented defaults, up to the limits."""
    P = e2e.Problem(p)
    x0 = np.array([p['x0']], float)
    lb, ub = e2e.arr(p['lb'], -np.inf, P.n), e2e.arr(p['ub'], np.inf, P.n)
    ref = observe(P, DEFAULTS, x0, lb, ub)
    got = observe(P, {} if P.cs or p['empty'] else None, x0, lb, ub)
    if len(ref.points) <= P.n + 1:
        rec.trivial()
    rec.label('flag%d' % ref.info.flag, 'empty' if P.cs or p['empty'] else 'none')
    same(ref, got, P, 'no options given')
    require(len(got.points) <= 1000 + 2 * (P.n + 1) * (P.n + 2), 'no options given: %d evaluations', len(got.points))


@st.composite
def bares(draw):
    p = draw(gen.problem(nmax=2, kinds=('noise', 'noise', 'step', 'abs', 'rosen', 'quart'), opt=st.just({})))
    p['empty'] = draw(st.booleans())
    return p


PARTS = [Part('forms', cases(), body, 1600, 30000, shards=8),
         Part('bare', bares(), bare, 48, 600, shards=8)]
