"""The store of evaluated points: one call and one column per evaluation, in step with counters and status."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Part, require, sut

RULE = 'a case counts when at least three evaluations succeeded'
ASSUMPTIONS = ['every point gets the next position', 'all points are given with the same number of variables and constraints']


class Info:
    pass


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    me, mi = draw(st.integers(0, 3)), draw(st.sampled_from([0, 0, 1, 2]))
    steps = []
    for _ in range(draw(st.integers(3, 12))):
        s = {'y': draw(gen.vec(n, -5, 5)), 'f': draw(gen.num(-20, 20)), 'ce': draw(gen.vec(me, -6, 6)), 'ci': draw(gen.vec(mi, -6, 6)),
             'val': draw(st.integers(0, 1)), 'bad': None}
        r = draw(st.integers(0, 11))
        if r == 0:
            s['f'] = draw(st.sampled_from([1e24, 1e25, 3e25, 1e40, -1e24, -1e30]))
        elif r == 1 and me:
            s['ce'][draw(st.integers(0, me - 1))] = draw(st.sampled_from([1e24, 1e25, 2e25, 1e99, np.inf, -1e24, -1e25, -3e30, -np.inf]))
        elif r == 2:
            s['bad'] = draw(st.sampled_from(['nan', 'inf', '-inf', 'cnan', 'out', 'msg', 'wide-ce', 'wide-ci']))
        steps.append(s)
    return {'n': n, 'me': me, 'mi': mi, 'steps': steps, 'scale': draw(st.sampled_from([0, 0, 1])), 'sf': draw(gen.vec(n, 0.5, 4)), 'verbose': draw(st.sampled_from([0, 0, 1])),
            'fxmax': draw(st.sampled_from([1e25, 1e25, 1e25, 10.0]))}


def body(c, rec):
    import io
    from contextlib import redirect_stdout
    from sqpdfo.helper import dummyOptions, dummyValues
    from sqpdfo.sqpdfo_augmX_evalf import sqpdfo_augmX_evalf_
    n, me, mi = c['n'], c['me'], c['mi']
    X, fX, ciX, ceX = np.array([]), np.array([]), np.array([]), np.array([])
    xs, ss, ds = np.array([]), np.array([]), np.array([])
    info = Info()
    info.nsimul, info.flag, info.f = np.array([0., 0., 0., 0.]), 0, None
    opt, val = dummyOptions(), dummyValues()
    opt.verbose, opt.fout = c['verbose'], 1
    sf = np.array(c['sf']).reshape(-1, 1)
    model = {'X': [], 'f': [], 'ce': [], 'ci': [], 'xs': [], 'ss': [], 'ds': []}
    calls, neval, good = [], 0, 0

    for k, s in enumerate(c['steps']):
        m = len(model['X'])
        at = m
        y = np.array(s['y']).reshape(-1, 1)
        f, ce, ci, msg = s['f'], np.array(s['ce']).reshape(-1, 1), np.array(s['ci']).reshape(-1, 1), 0
        if not me:
            ce = np.array([])
        if not mi:
            ci = np.array([])
        bad = s['bad']
        if bad in ('nan', 'inf', '-inf'):
            f = float(bad)
        elif bad == 'cnan' and me:
            ce[-1] = np.nan
        elif bad == 'out':
            msg = 1
        elif bad == 'msg':
            msg = -2
        elif bad == 'wide-ce' and me > 1:
            ce = ce.reshape(1, -1)
        elif bad == 'wide-ci' and mi > 1:
            ci = ci.reshape(1, -1)
        else:
            bad = None

        def func(key, p, f=f, ce=ce, ci=ci, msg=msg):
            calls.append((key, np.array(p, float)))
            return msg, f, ci.copy(), ce.copy()
        given = (X, fX, ciX, ceX, xs, ss, ds, y.copy(), info.nsimul)
        keep = [np.array(t) for t in given]
        before = len(calls)
        with sut('storing an evaluation'), redirect_stdout(io.StringIO()):
            out = sqpdfo_augmX_evalf_(func, given[7], at, X, fX, ciX, ceX, 0, np.zeros((n, 1)), np.array([]), np.arange(n), c['fxmax'], neval, xs, s['val'], ss, ds,
                                      c['scale'], sf, info, opt, val, nargout=10)
        for t, u, w in zip(given[:8], keep, ('X', 'fX', 'ciX', 'ceX', 'xstatus', 'sstatus', 'dstatus', 'the point')):
            require(np.array_equal(t, u, equal_nan=True), 'step %d: argument %s was modified', k, w)
        require(len(calls) == before + 1, 'step %d: %d calls of the function', k, len(calls) - before)
        key, p = calls[-1]
        require(key == 2 and p.shape == (n, 1) and np.array_equal(p, y / sf if c['scale'] else y), 'step %d: function called at %s instead of %s', k, p.tolist(), y.tolist())
        X2, f2, ci2, ce2, nev, xs2, ss2, ds2, inf2, ret = out
        require(inf2.nsimul[1] == k + 1, 'step %d: %r calls counted', k, inf2.nsimul[1])
        if bad:
            require(inf2.flag == val.fail_on_simul, 'step %d: status %r after a failed evaluation (%s)', k, inf2.flag, bad)
            require(nev == neval, 'step %d: failed evaluation counted as successful', k)
            require(np.array_equal(f2, fX) and np.array_equal(ce2, ceX) and np.array_equal(ci2, ciX), 'step %d: values of a failed evaluation stored', k)
            rec.label(bad)
            break
        require(inf2.flag == 0 and ret == 0, 'step %d: status %r after a good evaluation', k, inf2.flag)
        neval, good = neval + 1, good + 1
        require(nev == neval, 'step %d: %r successful evaluations counted instead of %d', k, nev, neval)
        new = {'X': y.ravel(), 'f': min(c['fxmax'], f), 'ce': np.clip(ce.ravel(), -1e25, 1e25), 'ci': ci.ravel(), 'xs': s['val'], 'ss': 1, 'ds': 0}
        for q in new:
            model[q].append(new[q])
        m = len(model['X'])
        require(X2.shape == (n, m) and np.array_equal(X2, np.array(model['X']).T), 'step %d: stored points %s', k, X2.tolist())
        require(np.array_equal(np.ravel(f2), model['f']), 'step %d: stored values %s instead of %s', k, np.ravel(f2).tolist(), model['f'])
        require(not me or (ce2.shape == (me, m) and np.array_equal(ce2, np.array(model['ce']).T)), 'step %d: stored constraint values %s', k, np.asarray(ce2).tolist())
        require(not mi or (ci2.shape == (mi, m) and np.array_equal(ci2, np.array(model['ci']).T)), 'step %d: stored inequality values %s', k, np.asarray(ci2).tolist())
        for t, q in ((xs2, 'xs'), (ss2, 'ss'), (ds2, 'ds')):
            require(np.array_equal(np.ravel(t), model[q]), 'step %d: status %s is %s instead of %s', k, q, np.ravel(t).tolist(), model[q])
        require(inf2.f == f, 'step %d: reported value %r', k, inf2.f)
        X, fX, ciX, ceX, xs, ss, ds, info = X2, f2, ci2, ce2, xs2, ss2, ds2, inf2
    if good < 3:
        rec.trivial()
    rec.label('me%d' % me, 'mi%d' % mi, 'scaled%d' % c['scale'])


PARTS = [Part('store', cases(), body, 3000, 50000, shards=8)]
