"""Quasi-Newton update of the Hessian approximation."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Part, require, sut
from ..e2e import householder

RULE = 'a case counts when at least two updates of the sequence were accepted'
ASSUMPTIONS = ['eigenvalues of the first matrix in [0.1, 10], sequences of up to 6 updates; updates of a matrix of condition number above 1e8 are not judged']


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    return {'n': n, 'd': draw(gen.vec(n, 0.1, 10)), 'v': draw(gen.vec(n, -1, 1)), 'hs': draw(gen.scale(-2, 2)),
            'steps': draw(st.lists(st.fixed_dictionaries({
                's': gen.vec(n, -2, 2), 'y': gen.vec(n, -4, 4), 'ss': gen.scale(-4, 1), 'curv': gen.num(-2, 4), 'mix': st.sampled_from([0.0, 0.3, 1.0]),
                'first': st.sampled_from([0, 0, 0, 1]), 'bad': st.sampled_from(['', '', '', '', '', 'null', 'indef', 'flat'])}), min_size=1, max_size=6))}


class Info:
    pass


def body(c, rec):
    from sqpdfo.helper import dummyOptions, dummyValues
    from sqpdfo.sqpdfo_bfgs_update import sqpdfo_bfgs_update_
    n = c['n']
    H = householder(np.round(c['v'], 6), np.maximum(0.1, np.round(c['d'], 6))) * c['hs']
    H = (H + H.T) / 2
    opt, val = dummyOptions(), dummyValues()
    opt.verbose = 0
    ok = 0
    for t in c['steps']:
        s = (np.round(np.array(t['s']), 6) * t['ss']).reshape(-1, 1)
        y = t['mix'] * np.round(np.array(t['y']), 6).reshape(-1, 1) * t['ss'] + t['curv'] * (H @ s)
        M = H
        if t['bad'] == 'null':
            s = np.zeros((n, 1))
        if t['bad'] == 'indef':
            M = -H
        if t['bad'] == 'flat':         # no curvature along one axis, step along it
            i = int(np.argmax(np.abs(s)))
            s = s * (np.arange(n) == i).reshape(-1, 1)
            M = H.copy()
            M[i, :] = M[:, i] = 0
        ev = np.linalg.eigvalsh(M)
        if t['bad'] == '' and ev[-1] > 1e8 * ev[0]:
            break
        info = Info()
        info.flag = 7
        k = [a.copy() for a in (M, y, s)]
        with sut('quasi-Newton update'):
            N, pc, inf2, v2 = sqpdfo_bfgs_update_(M, y, s, t['first'], info, opt, val)
        require(all(np.array_equal(a, b) for a, b in zip(k, (M, y, s))), 'an argument was modified')
        N = np.asarray(N, float)
        if not np.any(s) or t['bad'] in ('indef', 'flat'):
            require(inf2.flag == val.fail_unexpected, 'useless step accepted with status %r', inf2.flag)
            require(np.array_equal(N, M), 'matrix changed although the update was refused')
            rec.label('refused')
            continue
        require(inf2.flag == val.success, 'valid update refused with status %r', inf2.flag)
        pc = float(np.asarray(pc).item())
        ys, sHs = float((y.T @ s).item()), float((s.T @ M @ s).item())
        if ys >= 0.2 * sHs * (1 + 1e-9):
            require(pc == 1, 'correction %r although the curvature is sufficient', pc)
            rec.label('plain')
        elif ys < 0.2 * sHs * (1 - 1e-9):
            want = 0.8 * sHs / (sHs - ys)
            require(abs(pc - want) <= 1e-8, 'correction is %r, must be %r', pc, want)
            rec.label('corrected')
        else:
            rec.label('edge')
        yt = pc * y + (1 - pc) * (M @ s)
        yts = float((yt.T @ s).item())
        B = M if not t['first'] else float((yt.T @ yt).item()) / yts * np.eye(n)
        scale = max(np.abs(B).max(), float((yt.T @ yt).item()) / yts)
        require(np.abs(N - N.T).max() <= 1e-10 * scale, 'updated matrix is not symmetric')
        err = np.abs(N @ s - yt).max()
        require(err <= 1e-9 * scale * np.linalg.norm(s), 'secant equation violated by %.3g', err)
        # unchanged where it must be: the update has rank two, spanned by B s and y
        W = np.hstack([B @ s, yt])
        u, sv, _ = np.linalg.svd(W, full_matrices=True)
        r = int(np.sum(sv > 1e-9 * sv[0]))
        if r < n:
            q = u[:, r:]
            err = np.abs(q.T @ (N - B) @ q).max()
            require(err <= 1e-8 * scale, 'matrix changed by %.3g in directions the step says nothing about', err)
            err = np.abs((N - B) @ q).max()
            require(err <= 1e-6 * scale, 'matrix changed by %.3g in directions the step says nothing about', err)
        evn = np.linalg.eigvalsh((N + N.T) / 2)
        require(evn[0] > -1e-9 * scale, 'updated matrix is not positive definite (smallest eigenvalue %.3g, largest %.3g)', evn[0], evn[-1])
        H = (N + N.T) / 2
        ok += 1
        if evn[0] <= 0:
            break
    if ok < 2:
        rec.trivial()


PARTS = [Part('sequences', cases(), body, 6000, 120000, shards=8)]
