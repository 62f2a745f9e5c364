"""Histories of interpolation-set updates keep points, values and factorisation consistent."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Part, require, sut
from .c13 import setmatrix

RULE = ('a case counts when at least two operations were applied and, after at least one of them, the '
        'condition number of the set was at most 1e7 so that the factorisation was judged')
NAMES = ['subbasis', 'frobnorm', 'l2norm', 'regression']


@st.composite
def ops(draw, n):
    k = draw(st.sampled_from(['augment', 'replace', 'include', 'include', 'swap', 'best', 'best']))
    o = {'op': k}
    if k in ('augment', 'replace', 'include'):
        o['y'] = draw(gen.vec(n, -2, 2))
        o['j'] = draw(st.integers(0, 30))
    if k == 'include':
        o['sub'] = draw(st.lists(st.integers(0, 30), min_size=0, max_size=6))
        o['all'] = draw(st.booleans())
        o['thr'] = draw(st.sampled_from([1e-10, 0.1, 1.0, 1.2]))
        o['crit'] = draw(st.sampled_from(['weighted', 'standard', 'distance']))
        o['succ'] = draw(st.sampled_from([0, 1]))
    if k == 'swap':
        o['i'] = draw(st.integers(0, 30))
        o['j'] = draw(st.integers(0, 30))
    if k == 'best':
        o['lo'] = draw(gen.vec(n, -4, 0))
        o['w'] = draw(st.lists(st.sampled_from([0.5, 2.0, 5.0, 50.0]), min_size=n, max_size=n))
        o['sigma'] = draw(st.sampled_from([0.5, 1.0, 1.5, 2.75, 40.0]))
    return o


@st.composite
def cases(draw):
    c = draw(gen.pointset(nmax=3, p1=lambda n: n + 1))
    n = c['n']
    c['which'] = draw(st.integers(0, 3))
    c['shift'] = draw(st.sampled_from([1, 1, 0]))
    c['me'] = draw(st.sampled_from([0, 0, 1, 2]))
    c['mi'] = draw(st.sampled_from([0, 0, 1, 2]))
    c['slacks'] = draw(st.integers(0, c['me']))
    c['sl'] = draw(gen.vec(c['slacks'], 0, 1.5))
    c['vals'] = draw(st.lists(gen.vec(1 + c['me'], -8, 8), min_size=12, max_size=24))
    c['ops'] = draw(st.lists(ops(n), min_size=2, max_size=10))
    return c


class Constants:
    free, fixed, alwaysfixed, in_, out, unused, inY, dummy, nodummy = 0, 1, 2, 1, 0, 0, 1, 1, 0


class Info:
    pass


def body(c, rec):
    import sqpdfo.sqpdfo_global_variables as glob
    from sqpdfo.bcdfo_augment_Y import bcdfo_augment_Y_
    from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
    from sqpdfo.bcdfo_computeP import bcdfo_computeP_
    from sqpdfo.bcdfo_evalL import bcdfo_evalL_
    from sqpdfo.bcdfo_evalP import bcdfo_evalP_
    from sqpdfo.bcdfo_include_in_Y import bcdfo_include_in_Y_
    from sqpdfo.bcdfo_replace_in_Y import bcdfo_replace_in_Y_
    from sqpdfo.sqpdfo_find_smallf import sqpdfo_find_smallf_
    from sqpdfo.sqpdfo_swap_in_Y import sqpdfo_swap_in_Y_
    n, w, sh, me = c['n'], c['which'], c['shift'], c['me']
    q = gen.nquad(n)
    Y = np.array(c['Y']).T.copy()
    ctr = Y[:, 0].copy()
    rad = max(np.abs(Y - ctr[:, None]).max(), 1e-8)
    if any(np.abs(Y[:, i] - Y[:, j]).max() < 1e-6 * rad for i in range(Y.shape[1]) for j in range(i)):
        rec.trivial()          # coinciding points: the scale of the set is zero
        return
    K = (rad, 1.0, 1e15)
    pts = [Y[:, j].copy() for j in range(Y.shape[1])]      # every point ever used, by index
    vals = lambda k: np.array(c['vals'][k % len(c['vals'])]) + 0.01 * (k // len(c['vals']))
    ind = np.arange(Y.shape[1], dtype=float)
    fY = np.array([vals(k)[0] for k in range(Y.shape[1])])
    ceY = np.array([vals(k)[1:] for k in range(Y.shape[1])]).T if me else np.array([])
    mi = c['mi']
    civ = lambda k: np.array([100.0 * i + k + 0.5 for i in range(mi)])
    ciY = np.array([civ(k) for k in range(Y.shape[1])]).T if mi else np.array([])
    sl = np.array(c['sl']).reshape(-1, 1)
    nsl = c['slacks']
    glob.set_nbr_slacks(nsl)
    glob.set_slacks(sl.copy() if nsl else None)
    judged = 0

    def state_ok(op):
        nonlocal judged
        p1 = Y.shape[1]
        require(len(fY) == p1 and len(ind) == p1, '%s: number of values does not match the number of points', op)
        for j in range(p1):
            k = int(ind[j])
            require(np.array_equal(Y[:, j], pts[k]), '%s: column %d of the set is not point %d', op, j, k)
            require(fY[j] == vals(k)[0], '%s: value %d does not belong to point %d', op, j, k)
            if me:
                require(np.array_equal(ceY[:, j], vals(k)[1:]), '%s: constraint values %d do not belong to point %d', op, j, k)
            if mi:
                require(np.array_equal(ciY[:, j], civ(k)), '%s: inequality values %d do not belong to point %d', op, j, k)
        Z, base, s = ref.matrix(Y, q, sh)
        if p1 > 1:
            bs = base if sh else np.zeros(n)
            require(np.allclose(np.asarray(xb, float).ravel(), bs, rtol=1e-12, atol=1e-12), '%s: base point %s instead of %s', op, np.asarray(xb).tolist(), bs.tolist())
        if p1 > q and w != 3:
            return
        cond = np.linalg.cond(setmatrix(Z, w, n, p1, q)) if p1 <= q else np.linalg.cond(Z)
        if not cond <= 1e7:
            return
        judged += 1
        with sut('model after ' + op):
            P = bcdfo_computeP_(QZ, RZ, Y, fY.reshape(1, -1), w, np.zeros((1, q)), list(range(p1)), 0, 0, None, sc, sh, rad)
            v = [float(np.asarray(bcdfo_evalP_(P, Y[:, [j]], xb, sc, sh)).item()) for j in range(p1)]
        if p1 <= q:
            err = np.abs(np.array(v) - fY).max()
            require(err <= 1e-12 * max(cond, 100) * 20, '%s: the updated factorisation gives a model that misses its data by %.3g (condition %.1g)', op, err, cond)
        else:
            C = np.linalg.lstsq(Z, fY, rcond=None)[0]
            err = np.abs(Z @ C - np.array(v)).max()
            require(err <= 1e-12 * max(cond, 100) * 20, '%s: the updated regression model is off by %.3g', op, err)

    with sut('build'):
        QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, w, sh, *K)
    state_ok('build')
    for o in c['ops']:
        op = o['op']
        p1 = Y.shape[1]
        Yin, fin, indin, cein, ciin = Y.copy(), fY.copy(), ind.copy(), ceY.copy(), ciY.copy()
        given = [t.copy() for t in (Yin, fin, indin, cein, ciin)]
        if op in ('augment', 'replace', 'include'):
            y = (ctr + rad * np.array(o['y'])).reshape(-1, 1)
            if min(np.abs(p - y.ravel()).max() for p in pts) < 1e-6 * rad:
                continue
            m = len(pts)
            j = o['j'] % p1
        if op == 'augment':
            if p1 >= q + (n if w == 3 else 0):
                continue
            with sut(op):
                d, QZ, RZ, Y, xb, sc = bcdfo_augment_Y_(y, Yin, w, sh, *K)
            require(d == p1 + 1 and Y.shape == (n, p1 + 1), 'augment: %d points reported, %s stored', d, Y.shape)
            pts.append(y.ravel().copy())
            ind = np.append(ind, m)
            fY = np.append(fY, vals(m)[0])
            if me:
                ceY = np.hstack([ceY, vals(m)[1:].reshape(-1, 1)])
            if mi:
                ciY = np.hstack([ciY, civ(m).reshape(-1, 1)])
        elif op == 'replace':
            with sut(op):
                QZ, RZ, Y, xb, sc = bcdfo_replace_in_Y_(QZ, RZ, y, Yin, j, xb, w, sc, sh, *K)
            require(Y.shape == (n, p1), 'replace: shape %s', Y.shape)
            pts.append(y.ravel().copy())
            ind[j] = m
            fY[j] = vals(m)[0]
            if me:
                ceY[:, j] = vals(m)[1:]
            if mi:
                ciY[:, j] = civ(m)
        elif op == 'include':
            sub = np.arange(p1) if o['all'] else np.array(sorted({t % p1 for t in o['sub']}), int)
            Z, base, s = ref.matrix(Y, q, sh)
            if p1 > q or not np.linalg.cond(setmatrix(Z, w, n, p1, q)) <= 1e6:
                continue
            with sut(op):
                L = np.zeros(p1)
                if len(sub):
                    L = np.asarray(bcdfo_evalL_(QZ, RZ, Yin, sub, y, xb, w, sc, sh), float).ravel()
                QZ, RZ, Y, pos, xb, sc = bcdfo_include_in_Y_(y, QZ, RZ, Yin, sub, o['thr'], o['crit'], xb, w, o['succ'], sc, sh, *K)
            yv = y.ravel()
            frm = yv if o['succ'] == 1 else Yin[:, 0]
            dist = np.array([np.linalg.norm(Yin[:, t] - frm) for t in range(p1)])
            crit = {'weighted': dist ** 2 * abs(L), 'standard': abs(L), 'distance': dist}[o['crit']]
            cand = [t for t in sub if abs(L[t]) > o['thr'] * (1 + 1e-6) and crit[t] > 0]
            may = [t for t in sub if abs(L[t]) > o['thr'] * (1 - 1e-6)]
            require(Y.shape == (n, p1), 'include: shape %s', Y.shape)
            if pos == -1:
                require(not cand, 'include: no point replaced although the Lagrange polynomial of point %s exceeds the threshold', cand)
                require(np.array_equal(Y, Yin), 'include: set changed although no point was replaced')
            else:
                require(pos in may, 'include: replaced point %d whose Lagrange value %g does not exceed the threshold %g (or that was not offered)', pos, L[pos], o['thr'])
                best = max([crit[t] for t in cand] or [0.0])
                require(crit[pos] >= best * (1 - 1e-6), 'include: replaced point %d has criterion %g, best is %g', pos, crit[pos], best)
                pts.append(yv.copy())
                ind[pos] = m
                fY[pos] = vals(m)[0]
                if me:
                    ceY[:, pos] = vals(m)[1:]
                if mi:
                    ciY[:, pos] = civ(m)
                rec.label('included')
        elif op == 'swap':
            i, j = o['i'] % p1, o['j'] % p1
            want = list(range(p1))
            want[i], want[j] = want[j], want[i]
            with sut(op):
                QZ, RZ, Y, ind, fY, ciY, ceY, xb, sc = sqpdfo_swap_in_Y_(i, j, QZ, RZ, Yin, indin, fin, ciin, cein, xb, w, sc, sh, *K)
            require([int(t) for t in ind] == [int(indin[t]) for t in want], 'swap %d %d: order %s from %s', i, j, list(ind), list(indin))
        elif op == 'best':
            lo = (ctr + rad * np.array(o['lo'])).reshape(-1, 1)
            hi = lo + rad * np.array(o['w']).reshape(-1, 1)
            info = Info()
            info.f, info.ce, info.ci = fY[0], (ceY[:, [0]] if me else np.array([])), (ciY[:, [0]] if mi else np.array([]))
            sig = o['sigma']
            off = np.zeros(me)
            if nsl:
                off[me - nsl:] = sl.ravel() ** 2
            merit = np.array([fY[t] + (sig * np.linalg.norm(ceY[:, t] - off) if me else 0.0) for t in range(p1)])
            inside = [bool(np.all(Y[:, t] >= lo.ravel()) and np.all(Y[:, t] <= hi.ravel())) for t in range(p1)]
            with sut('choosing the best point'):
                x, fx, QZ, RZ, Y, fY, ciY, ceY, ind, ib, sc, info = sqpdfo_find_smallf_(
                    Constants, QZ, RZ, Yin, fin, ciin, cein, indin, int(indin[0]), p1, np.arange(n), Yin[:, [0]], lo, hi,
                    fin[0], np.zeros(len(pts)), w, sc, sh, rad, 1.0, 1e15, sig, info)
            xb = x if sh else xb
            require(sorted(ind) == sorted(indin), 'best: points changed')
            k0 = [int(t) for t in indin].index(int(ind[0]))
            cand = [merit[0]] + [merit[t] for t in range(p1) if inside[t]]
            require(merit[k0] <= min(cand) + 1e-9 * (1 + abs(min(cand))), 'best: chosen point has merit %r, an admissible point has %r', merit[k0], min(cand))
            require(k0 == 0 or inside[k0], 'best: chosen point violates the bounds')
            require(info.f == fY[0] and fx == fY[0] and int(ib) == int(ind[0]), 'best: reported value or index does not belong to the chosen point')
            require(not me or np.array_equal(np.asarray(info.ce).ravel(), ceY[:, 0]), 'best: reported constraint values do not belong to the chosen point')
            require(not mi or np.array_equal(np.asarray(info.ci).ravel(), ciY[:, 0]), 'best: reported inequality values do not belong to the chosen point')
            require(np.array_equal(np.asarray(x, float).ravel(), Y[:, 0]), 'best: returned point is not the first point')
            rec.label('best-moved' if k0 else 'best-kept')
        for t, u in zip(given, (Yin, fin, indin, cein, ciin)):
            require(np.array_equal(t, u), '%s: an argument was modified', op)
        state_ok(op)
        rec.label(op)
    glob.set_nbr_slacks(0)
    glob.set_slacks(None)
    if len(rec.labels) < 2 or not judged:
        rec.trivial()


PARTS = [Part('histories', cases(), body, 3000, 40000, shards=8)]
