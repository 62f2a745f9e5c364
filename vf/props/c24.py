"""What is printed and written to the convergence history agrees with the run."""
import re

import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen
from ..core import Part, require

RULE = 'a case counts when at least two iterations were reported'
ASSUMPTIONS = ['levels of output 0 to 3; |f| below 1e25']
TEXT = {0: 'converged', 3: 'error during function evaluation', 5: 'maximum number of iterations', 6: 'maximum number of function evaluations',
        8: 'the merit function cannot be decreased', 15: 'trust region radius too small'}
NUM = r'[-+]?(?:\d+\.\d+e[-+]\d+|nan|inf)'
ROW = re.compile(r'^\s*(\d+)\s+(\d+)\s+(%s)\s+(%s)\s+(%s)(?:\s+(%s))?' % (NUM, NUM, NUM, NUM))


def rows(text, cons):
    out = []
    for line in text.splitlines():
        m = ROW.match(line)
        if m:
            g = m.groups()
            out.append((int(g[0]), int(g[1]), float(g[2]), float(g[3]), float(g[4])) + ((float(g[5]),) if cons else ()))
    return out


def near(a, b, rel):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-300


def body(p, rec):
    P = e2e.Problem(p)
    v = p['opt']['verbose']
    r = P.run()
    fl = int(r.info.flag)
    with open('convhist.m') as f:
        hist = f.read()
    lines = [t.strip() for t in hist.strip().splitlines()]
    require(lines[0].startswith('function') and lines[1] == 'A=[' and lines[-1] == '];', 'the history file is not complete: %r', (lines[:2], lines[-1]))
    cons = P.me + P.mi > 0
    H = rows(hist, cons)
    require(len(H) == len(lines) - 3, 'the history file has %d lines of data, %d of them are well-formed', len(lines) - 3, len(H))
    if v == 0:
        rec.trivial()
        require(not H and not rows(r.out, cons) and 'Exit code' not in r.out, 'iterations are reported although output is switched off')
        rec.label('silent')
        return
    T = rows(r.out, cons)
    if len(T) < 2:
        rec.trivial()
    require(H == T, 'history file and printed table differ')
    require(not T or T[0][0] == 1 and all(b[0] - a[0] in (0, 1) for a, b in zip(T, T[1:])), 'iteration numbers are %s', [t[0] for t in T])
    require(all(a[1] <= b[1] for a, b in zip(T, T[1:])), 'evaluation counts decrease: %s', [t[1] for t in T])
    require(not T or T[0][1] >= P.n + 1 and T[-1][1] <= len(r.fcalls), 'evaluation counts %s, there were %d evaluations', [t[1] for t in T], len(r.fcalls))
    vals = [c[2] for c in r.fcalls]
    for t in T:
        upto = vals[:t[1]]
        hit = [k for k, w in enumerate(upto) if near(t[2], w, 1e-8)]
        require(hit, 'iteration %d reports the objective %r, no point evaluated so far has that value', t[0], t[2])
        if not cons:
            require(any(near(t[3], w, 1e-8) for w in upto), 'iteration %d reports the merit %r, no point evaluated so far has that value', t[0], t[3])
        elif P.mi == 0 and not (fl != 0 and t is T[-1]):    # see FINDINGS
            fe = [np.abs(P.cval(r.fcalls[k][1])).max() for k in hit]
            require(any(abs(t[5] - q) <= 1e-3 * q + 1e-12 for q in fe), 'iteration %d reports the infeasibility %r, its point has %s', t[0], t[5], fe)
    if not cons:
        require(all(b[2] <= a[2] + 1e-8 * abs(a[2]) for a, b in zip(T, T[1:])), 'reported objective increases: %s', [t[2] for t in T])
    m = re.search(r'Exit code (-?\d+):\s*(.*)', r.out)
    if len(vals) < P.n + 1 or m is None:
        require(fl != 0 or m is not None, 'no final report')
        rec.label('no-report')
        return
    rec.label('flag%d' % fl)
    require(int(m.group(1)) == fl, 'exit code printed %s, returned %d', m.group(1), fl)
    if fl in TEXT:
        require(m.group(2).strip() == TEXT[fl], 'exit code %d is explained as %r', fl, m.group(2))
    fin = float(re.search(r'Final function value\s+(\S+)', r.out).group(1))
    x = e2e.final_x(r, P.n)
    require(near(fin, P.fval(x), 1e-5) or abs(fin - P.fval(x)) < 1e-9, 'final value printed %r, the returned point has %r', fin, P.fval(x))
    it = int(re.search(r'nbr of iterations\s+(\d+)', r.out).group(1))
    nf = int(re.search(r'nbr of function evaluations\s+(\d+)', r.out).group(1))
    require(it == int(r.info.niter) and nf == len(vals), 'counters printed %d %d, true are %d %d', it, nf, r.info.niter, len(vals))
    require(not T or it >= T[-1][0], 'more iterations in the table than counted')
    g = float(re.search(r'[Gg]radient of the (?:Lagrangian|objective function) \(inf norm\)\s+(\S+)', r.out).group(1))
    require(near(g, float(r.info.glagn), 1e-4), 'gradient norm printed %r, returned %r', g, r.info.glagn)
    if fl == 0:
        tol = p['opt'].get('tol_grad', 1e-5)
        require(float(r.info.glagn) <= 100 * tol * (1 + 1e-9), 'success reported with gradient norm %r, tolerance %r', r.info.glagn, tol)
        rec.label('success')


def stale(p, rec):
    P = e2e.Problem(p)
    r = P.run()
    q = float(re.search(r'feasibility\s+(\d\S+)', r.out[r.out.index('Final function value'):]).group(1))
    t = np.abs(P.cval(tuple(e2e.final_x(r, P.n)))).max()
    require(abs(q - t) <= 1e-3 * t + 1e-9, 'flag %d: the final report gives the feasibility %r, the returned point has %r', r.info.flag, q, t)


opt = gen.options(verbose=(0, 1, 1, 2, 3))
PARTS = [Part('report', gen.problem(opt=opt), body, 1600, 30000, shards=8)]
FINDINGS = {'stale-figures': (Part('stale', None, stale, 1), {
    'n': 1, 'obj': {'kind': 'quad', 'c0': 0.0, 'xs': [0.0], 'd': [0.75], 'v': [0.0]}, 'btype': 'none', 'lb': None, 'ub': None, 'x0': [0.0], 'me': 1, 'mi': 0,
    'cons': [{'kind': 'lin', 'type': 'e', 'a': [1.0], 'slack': 0.0}], 'xf': [-3.0],
    'opt': {'hess_approx': 'model', 'whichmodel': 'subbasis', 'final_degree': 'linear', 'bfgs_restart': 0, 'miter': 4, 'msimul': 10, 'verbose': 1}})}
