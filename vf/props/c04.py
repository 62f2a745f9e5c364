"""Budgets are respected, counters are truthful, every run ends with a defined status."""
import math
import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen, ref
from ..core import Part, require
from . import c06

RULE = 'a case counts when the solver evaluated at least one point beyond the initial set'
ASSUMPTIONS = ['the budget is tested once per iteration, so the last iteration may exceed it by the size of one interpolation '
               'set plus one trial point', 'termination means 60 s of CPU time at most (typical runs: 0.05 s)']
FLAGS = {0, 3, 5, 6, 8, 15}
SETSIZE = {'subbasis': 1, 'frobnorm': 1, 'l2norm': 1, 'regression': 2}


def body(p, rec):
    P = e2e.Problem(p)
    o = p['opt']
    r = P.run()
    n = P.n
    nf, nc = len(r.fcalls), len(r.ccalls)
    fl = int(r.info.flag)
    rec.label('flag%d' % fl)
    if nf <= n + 1:
        rec.trivial()
    require(fl in FLAGS, 'status %r', r.info.flag)
    require(int(r.info.nsimul[1]) == nf, 'the run reports %r evaluations, the objective was called %d times', r.info.nsimul[1], nf)
    if P.cs:
        require(nc == nf, '%d objective calls but %d constraint calls', nf, nc)
        require(all(a[1] == b[1] for a, b in zip(r.fcalls, r.ccalls)), 'objective and constraints were evaluated at different points')
    cap = SETSIZE[o['whichmodel']] * ref.nq(n) + 2
    require(nf <= max(o['msimul'], n + 1) + cap, '%d evaluations with a budget of %d', nf, o['msimul'])
    require(r.info.niter <= o['miter'] + 1, '%d iterations with a limit of %d', r.info.niter, o['miter'])
    require(fl != 5 or r.info.niter >= o['miter'], 'iteration limit reported after %d of %d iterations', r.info.niter, o['miter'])
    require(fl != 6 or nf >= o['msimul'], 'evaluation limit reported after %d of %d evaluations', nf, o['msimul'])
    require(not (fl == 6 and r.info.niter >= o['miter'] + 1), 'evaluation limit reported after the iteration limit')
    if nf > n + 1:
        require(r.info.niter >= 1 or fl == 3, 'no iteration was counted')


@st.composite
def odd(draw):
    """Problems no solver can solve: unbounded, constant, non-smooth, infeasible, discontinuous."""
    opt = gen.options(miter=st.sampled_from([1, 2, 5, 30, 100]), msimul=st.sampled_from([1, 5, 12, 60, 200]), verbose=(0,))
    p = draw(gen.problem(kinds=('abs', 'lin', 'const', 'step', 'noise', 'quad'), opt=opt))
    how = draw(st.sampled_from(['asis', 'unbounded', 'infeasible']))
    if how == 'unbounded':
        p['lb'] = p['ub'] = None
        p['btype'] = 'none'
        if p['obj']['kind'] == 'quad':
            p['obj']['d'] = [-v for v in p['obj']['d']]
    if how == 'infeasible' and p['me']:
        p['cons'][0] = {'kind': 'lin', 'type': 'e', 'a': [0.0] * p['n'], 'slack': 1.0}
    p['how'] = how
    return p


def faulty(p, rec):
    """The counters of a run that an evaluation ends."""
    P = e2e.Problem(p)
    at, how = p['at'], p['how']
    who = p['who'] if P.cs else 'f'
    if who == 'c' and 'inf' in how:
        how = 'nan'
    hit = []

    def fault(kind, k, x, v):
        if kind != who or k < at or (p['once'] and k > at):
            return v
        hit.append(k)
        if how in c06.EXC:
            raise c06.EXC[how]('planned')
        v = np.array(v, float)
        v.flat[p['comp'] % v.size] = float(how)
        return v if v.ndim else float(v)
    r = P.run('sqpdfo.optimize with an objective or constraint that fails', fault=fault)
    nf = len(r.fcalls)
    rec.label('flag%d' % r.info.flag, who, 'initial' if at <= P.n else 'later')
    if not hit:
        rec.trivial()
    require(int(r.info.flag) in FLAGS, 'status %r', r.info.flag)
    require(int(r.info.nsimul[1]) == nf, 'the run reports %r evaluations, the objective was called %d times, the last one in vain',
            r.info.nsimul[1], nf)
    require(r.info.niter <= p['opt']['miter'] + 1, '%d iterations with a limit of %d', r.info.niter, p['opt']['miter'])


short = gen.options(miter=st.sampled_from([1, 2, 3, 5, 8, 13, 40, 200]), msimul=st.sampled_from([1, 3, 7, 12, 25, 60, 300]), verbose=(0,))
PARTS = [Part('budgets', gen.problem(opt=short), body, 2400, 40000, shards=8),
         Part('odd', odd(), body, 800, 20000, shards=8),
         Part('faults', c06.cases(), faulty, 1200, 20000, shards=8)]
