"""Unusable arguments and options are rejected with an error status before any evaluation."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen
from ..core import Part, require, sut

RULE = 'a case counts when at least one argument or option is unusable'
ASSUMPTIONS = ['an unusable argument is one the interface documents as such: missing starting point, objective or constraint function, an object that is not callable in their place, a lower bound '
               'above its upper bound, no free variable, a starting point that is not a vector, an option outside its documented range or '
               'list of names', 'all components of the bounds have the right number (lengths are not checked by the solver)',
               'the case where some but not all variables are fixed by equal bounds is listed as a known finding']

neg = st.one_of(st.floats(-1e3, -1e-12), st.sampled_from([-1.0, -1e-300, -np.inf, -5]))
nonpos = st.one_of(neg, st.just(0), st.just(0.0), st.integers(-10, 0))
words = st.one_of(st.text('abcdefglmnoqrsuw1 ', min_size=1, max_size=9),
                  st.sampled_from(['model1', 'bfg', 'sub basis2', 'quad', 'lin', 'frob', 'l2', '', 'none', 'wolf', 'powells', 'diag', 'cubic']))
NAMES = {'hess_approx': ['model', 'bfgs'], 'whichmodel': ['subbasis', 'frobnorm', 'l2norm', 'regression'],
         'final_degree': ['linear', 'diagonal', 'quadratic'], 'algo_descent': ['powell', 'wolfe']}
ARGS = ['no_f', 'bad_f', 'bad_c', 'no_x0', 'no_c', 'bounds', 'allfixed', 'matrix']
OPTS = ['dxmin', 'inf', 'miter', 'msimul', 'tol_grad', 'tol_feas', 'tol_bnds'] + sorted(NAMES)


WRONG = {'number': 1.0, 'string': 'f', 'list': [1.0], 'dict': {'f': 1}, 'zero': 0}


def body(p, rec):
    p = copy.deepcopy(p)
    d = p['defects']
    P = e2e.Problem(p)
    n = P.n
    opt = dict(p['opt'])
    calls = []

    def f(x):
        calls.append('f')
        return P.fval(x)

    def c(x):
        calls.append('c')
        return P.cval(x)
    fun, con = f, (c if P.cs else None)
    x0 = np.array([p['x0']], float)
    lb, ub = e2e.arr(p['lb'], -np.inf, n), e2e.arr(p['ub'], np.inf, n)
    expect = None
    bad_opt = False
    for name, v in d:
        if name == 'no_f':
            fun = None
        elif name == 'bad_f':
            fun = WRONG[v]
        elif name == 'bad_c':
            if con is None:
                continue
            con = WRONG[v]
        elif name == 'no_x0':
            x0 = None
        elif name == 'no_c':
            if con is None:
                continue
            con = None
        elif name in ('bounds', 'allfixed'):
            base = np.array(v['at'])[:n].reshape(-1, 1)
            lb, ub = base.copy(), base.copy()
            if name == 'bounds':
                ub += 4.0
                j = v['j'] % n
                ub[j] = lb[j] - v['gap']
                if v['inf'] == 'lb':
                    lb[j] = np.inf
                elif v['inf'] == 'ub':
                    ub[j] = -np.inf
        elif name == 'matrix':
            if n < 2:
                continue
            x0 = np.vstack([np.array(p['x0'], float)] * 2)
            lb = ub = None
        else:
            if name in NAMES and str(v).lower().replace(' ', '') in NAMES[name]:
                continue
            opt[name] = v
            bad_opt = True
        expect = (expect or []) + [name]
    if not expect:
        rec.trivial()
        return
    rec.label(*expect)
    rec.label('verbose%d' % opt['verbose'])
    P2 = e2e.make_options(opt)
    with sut('sqpdfo.optimize with unusable %s' % ', '.join(expect)):
        if P.cs:
            r = e2e.optimize(P2, fun, x0, lb, ub, P.me, P.mi, con)
        else:
            r = e2e.optimize(P2, fun, x0, lb, ub)
    require(not calls, 'a user function was called although %s is unusable', ', '.join(expect))
    fl = int(r.info.flag)
    only = set(expect)
    if only <= {'bounds', 'allfixed'}:
        require(fl == 2, 'status %r instead of 2 for unusable bounds', r.info.flag)
    elif not only & {'bounds', 'allfixed'}:
        require(fl == 1, 'status %r instead of 1 for unusable %s', r.info.flag, ', '.join(expect))
    require(fl in (1, 2), 'status %r for unusable %s', r.info.flag, ', '.join(expect))


@st.composite
def nearly(draw, name):
    """A valid name with one edit."""
    w = draw(st.sampled_from(NAMES[name]))
    i = draw(st.integers(0, len(w)))
    t = draw(st.one_of(st.text('abelmnoqrsx12_-.', min_size=1, max_size=1), st.sampled_from(['', 'model', 'linear'])))
    w = draw(st.sampled_from([w + t, t + w, w[:i] + t + w[i:], w[:i] + t + w[i + 1:], w[:i], w[i:], w * 2]))
    return draw(st.sampled_from([w, w.upper(), w.capitalize()]))


@st.composite
def cases(draw):
    p = draw(gen.problem(opt=gen.options(verbose=(0, 1, 2, 3, 4, 5, 6))))
    p['btype'] = 'replaced'
    ds = []
    k = draw(st.sampled_from([1, 1, 1, 2, 3]))
    for name in draw(st.lists(st.sampled_from(ARGS + OPTS + sorted(NAMES)), min_size=k, max_size=k, unique=True)):
        if name in NAMES:
            v = draw(st.one_of(words, nearly(name), nearly(name)))
        elif name.startswith('tol'):
            v = draw(neg)
        elif name in OPTS:
            v = draw(nonpos)
        elif name in ('bad_f', 'bad_c'):
            v = draw(st.sampled_from(sorted(WRONG)))
        elif name in ('bounds', 'allfixed'):
            v = {'at': draw(gen.vec(4, -5, 5)), 'j': draw(st.integers(0, 3)), 'gap': draw(gen.scale(-8, 3)), 'inf': draw(st.sampled_from(['', '', 'lb', 'ub']))}
        else:
            v = None
        ds.append([name, v])
    p['defects'] = ds
    return p


def fixed(p, rec):
    P = e2e.Problem(p)
    r = P.run()
    require(all(abs(c[1][0] - p['lb'][0]) <= 1e-12 for c in r.fcalls), 'the fixed variable was changed')
    require(int(r.info.flag) in (0, 3, 5, 6, 8, 15), 'status %r', r.info.flag)


FINDINGS = {'fixed-variable': (Part('fixed', None, fixed, 1), {
    'n': 2, 'obj': {'kind': 'quad', 'c0': 0.0, 'xs': [1.0, 2.0], 'd': [1.0, 1.0], 'v': [0.0, 0.0]}, 'btype': 'box', 'lb': [1.5, -5.0],
    'ub': [1.5, 5.0], 'x0': [0.0, 0.0], 'me': 0, 'mi': 0, 'cons': [], 'xf': None, 'opt': {'verbose': 0}})}
PARTS = [Part('unusable', cases(), body, 6000, 60000, shards=8)]
