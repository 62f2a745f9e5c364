"""Runs are isolated from each other, repeatable, and leave the caller's arguments alone."""
import contextlib
import io
import json
import os
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from .. import e2e, fresh, gen
from ..core import Part, Violation, require

RULE = 'a case counts when the observed run evaluated at least one point beyond the initial set and was preceded by another run'
ASSUMPTIONS = ['same machine, same libraries: results are compared bit by bit between two executions of the same inputs',
               'simultaneous runs are switched at the calls of the user functions; their output and history file are not compared']


def outcome(p, during=None):
    """Everything observable about one run, as plain data; during(k) is called at the k-th call of a user function."""
    P = e2e.Problem(p)
    opt = e2e.make_options(p['opt'])
    before = dict(vars(opt))
    x0 = np.array([p['x0']], float)
    lb, ub = e2e.arr(p['lb'], -np.inf, P.n), e2e.arr(p['ub'], np.inf, P.n)
    li = ui = None
    keep = [None if a is None else a.copy() for a in (x0, lb, ub)]
    fault = None
    if p.get('fail') is not None:
        def fault(kind, k, x, v):
            if k >= p['fail'] and kind == p.get('who', 'f'):
                raise ValueError('no value here')
            return v
    calls = []

    def f(x):
        v = P.fval(x)
        calls.append(('f',) + tuple(float(t) for t in x))
        if during:
            during(len(calls) - 1)
        return fault('f', sum(c[0] == 'f' for c in calls) - 1, x, v) if fault else v

    def c(x):
        v = P.cval(x)
        calls.append(('c',) + tuple(float(t) for t in x))
        if during:
            during(len(calls) - 1)
        return fault('c', sum(c[0] == 'c' for c in calls) - 1, x, v) if fault else v
    if P.cs:
        r = e2e.optimize(opt, f, x0, lb, ub, P.me, P.mi, c)
    else:
        r = e2e.optimize(opt, f, x0, lb, ub)
    touched = []
    for name, a, b in zip(('starting point', 'lower bounds', 'upper bounds'), (x0, lb, ub), keep):
        if a is not None and not (a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)):
            touched.append(name)
    after = dict(vars(opt))
    if set(after) != set(before) or any(after[k] is not before[k] and after[k] != before[k] for k in before):
        touched.append('options')
    x = np.asarray(r.x, float)
    lm = np.asarray(r.lm, float)
    ce = np.asarray(r.info.ce, float)
    return {'x': [x.shape, x.tobytes()], 'lm': [lm.shape, lm.tobytes()], 'flag': int(r.info.flag),
            'f': np.asarray(r.info.f, float).tobytes(), 'ce': [ce.shape, ce.tobytes()], 'niter': int(getattr(r.info, 'niter', -1)),
            'calls': calls, 'out': r.out}, touched


NAMES = {'x': 'the returned point', 'lm': 'the multiplier vector', 'flag': 'the status', 'f': 'the returned objective value',
         'ce': 'the returned constraint vector', 'niter': 'the iteration count', 'calls': 'the sequence of evaluated points',
         'out': 'the printed output'}


def same(got, want, how, skip=()):
    for k in want:
        require(k in skip or got[k] == want[k], '%s, %s differs from the same run in a fresh process', how, NAMES[k])


def alone(p):
    kind, want = server(p)
    if kind == 'error':
        raise Violation('in a fresh process the run fails with ' + want)
    return want[0]


server = None


def nested(c, rec):
    """The user functions of a run start runs of their own."""
    p = c['outer']
    want = alone(p)
    inner = []

    def during(k):
        for at, q in c['inner']:
            if at == k:
                inner.append((q, outcome(q)[0]))
    try:
        got, touched = outcome(p, during)
    except Exception as e:
        raise Violation('a run whose functions start other runs raises %s: %s' % (type(e).__name__, e))
    same(got, want, 'with runs started by its functions')
    for q, g in inner:
        same(g, alone(q), 'started by the functions of another run')
    if not inner or len(want['calls']) <= p['n'] + 1:
        rec.trivial()
    for q, g in inner:
        rec.label(kindof(p) + '(' + kindof(q) + ')')


def kindof(q):
    return ('e' if q['me'] else '') + ('i' if q['mi'] else '') or 'u'


class Baton:
    """Only the thread that holds the baton runs; it changes hands at the calls of the user functions as planned."""

    def __init__(self, plan):
        self.cond = threading.Condition()
        self.plan, self.k, self.turn, self.alive, self.changes = plan, 0, 0, [True, True], 0

    def wait(self, me):
        if not self.cond.wait_for(lambda: self.turn == me, 120):
            raise RuntimeError('stuck')

    def begin(self, me):
        with self.cond:
            self.wait(me)

    def step(self):
        me = threading.current_thread().number      # a run may (wrongly) call the functions of the other
        with self.cond:
            if self.plan[self.k % len(self.plan)] and self.alive[1 - me]:
                self.turn = 1 - me
                self.changes += 1
                self.cond.notify_all()
            self.k += 1
            self.wait(me)

    def done(self, me):
        with self.cond:
            self.alive[me] = False
            self.turn = 1 - me
            self.cond.notify_all()


@contextlib.contextmanager
def quiet():
    keep = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = keep


def threads(c, rec):
    """Two runs at the same time in two threads, with a planned sequence of switches."""
    want = [alone(q) for q in c['runs']]
    b = Baton(c['plan'])
    res = [None, None]

    def work(i):
        b.begin(i)
        try:
            res[i] = ('ok', outcome(c['runs'][i], lambda k: b.step())[0])
        except BaseException as e:
            res[i] = ('error', '%s: %s' % (type(e).__name__, e))
        finally:
            b.done(i)
    with quiet():
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in (0, 1)]
        for i, t in enumerate(ts):
            t.number = i
            t.start()
        for t in ts:
            t.join()
    for i in (0, 1):
        kind, got = res[i]
        require(kind == 'ok', 'at the same time as another run, run %d raises %s', i, got)
        same(got, want[i], 'at the same time as another run', ('out',))
    rec.label('switches%d' % min(9, b.changes), '|'.join(sorted(map(kindof, c['runs']))))
    if b.changes < 2:
        rec.trivial()


def body(c, rec):
    global server
    if server is None or server.owner != os.getpid():
        raise RuntimeError('not started')
    p = c['last']
    kind, want = server(p)
    if kind == 'error':
        raise Violation('in a fresh process the run fails with ' + want)
    want, touched = want
    require(not touched, 'the caller\'s %s changed during the call', ', '.join(touched))
    for k, q in enumerate(c['before']):
        kind, ref = 'ok', None
        try:
            got, touched = outcome(q)
        except Exception as e:
            raise Violation('run %d raised %s: %s' % (k, type(e).__name__, e))
        require(not touched, 'the caller\'s %s changed during run %d', ', '.join(touched), k)
    try:
        got, touched = outcome(p)
    except Exception as e:
        raise Violation('after other runs the last run raises %s: %s' % (type(e).__name__, e))
    require(not touched, 'the caller\'s %s changed during the last run', ', '.join(touched))
    same(got, want, 'after other runs')
    n = p['n']
    if sum(t[0] == 'f' for t in want['calls']) <= n + 1 or not c['before']:
        rec.trivial()
    rec.label('flag%d' % want['flag'])
    kinds = [kindof(q) for q in c['before'] + [p]]
    rec.label('>'.join(kinds[-2:]))


# The server must be forked before the solver runs in this process.
def started(strategy):
    def start(c):
        global server
        if server is None or server.owner != os.getpid():
            import sqpdfo
            server = fresh.Fresh(outcome)
        return c
    return strategy.map(start)


@st.composite
def histories(draw):
    short = gen.options(miter=st.sampled_from([3, 10, 30]), msimul=st.sampled_from([8, 20, 60]), verbose=(0, 0, 0, 1, 3))
    k = draw(st.integers(1, 3))
    ps = []
    for _ in range(k):
        p = draw(gen.problem(nmax=3, opt=short))
        if draw(st.integers(0, 3)) == 0:
            p['fail'] = draw(st.integers(0, 25))
            p['who'] = draw(st.sampled_from('fc'))
        ps.append(p)
    p = draw(gen.problem(nmax=3, opt=short))
    if draw(st.integers(0, 4)) == 0:
        p = json.loads(json.dumps(ps[-1]))      # the same run again
    return {'before': ps, 'last': p}


small = gen.options(miter=st.sampled_from([3, 10, 20]), msimul=st.sampled_from([8, 20, 40]), verbose=(0, 0, 0, 1, 3))


@st.composite
def nests(draw):
    def one():
        p = draw(gen.problem(nmax=3, opt=small))
        if draw(st.integers(0, 5)) == 0:
            p['fail'] = draw(st.integers(0, 15))
            p['who'] = draw(st.sampled_from('fc'))
        return p
    return {'outer': one(), 'inner': [[draw(st.integers(0, 24)), one()] for _ in range(draw(st.integers(1, 2)))]}


@st.composite
def pairs(draw):
    runs = [draw(gen.problem(nmax=3, opt=small)) for _ in (0, 1)]
    for r in runs:
        r['opt']['verbose'] = 0
    return {'runs': runs, 'plan': draw(st.lists(st.integers(0, 1), max_size=30)) + [1]}


PARTS = [Part('histories', started(histories()), body, 1000, 20000, shards=8),
         Part('nested', started(nests()), nested, 600, 12000, shards=8),
         Part('threads', started(pairs()), threads, 600, 12000, shards=8)]
