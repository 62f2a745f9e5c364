"""Models and values from which a run computes its steps."""
import numpy as np
from hypothesis import strategies as st

from .. import e2e, gen, monitor, ref
from ..core import Part, require

RULE = 'a case counts when at least two sets of models built during the run were judged'
ASSUMPTIONS = ['|f| and |c| below 1e25', 'the models are judged where the interpolation matrix has a condition number below 1e7']


def table(P, r):
    F, C = {}, {}
    for k, x, v in r.calls:
        (F if k == 'f' else C)[x] = v
    return F, C


def key(v):
    return tuple(float(t) for t in np.asarray(v, float).ravel())


def slacks():
    import sqpdfo.sqpdfo_global_variables as glob
    s = glob.get_slacks()
    return None if s is None or not glob.get_nbr_slacks() else np.array(s, float).ravel()


def run(p, names):
    P = e2e.Problem(p)
    with monitor.watch(names, extra=slacks) as events:
        r = P.run()
    return P, r, events


def body(p, rec):
    P, r, events = run(p, ('sqpdfo_computeHessian_', 'sqpdfo_solve_TR_bc_'))
    n, m = P.n, P.me + P.mi
    F, C = table(P, r)
    judged, size = 0, 0
    full = {'linear': n + 1, 'diagonal': 2 * n + 1, 'quadratic': ref.nq(n)}[P.p['opt'].get('final_degree', 'quadratic')]
    for k, e in enumerate(events):
        if e.name == 'sqpdfo_solve_TR_bc':
            if not e.has('x', 'info'):
                continue
            x = key(e.x)
            require(x in F, 'the iterate %s of trial step %d was never evaluated', x, k)
            require(float(np.asarray(e.info.f).ravel()[0]) == F[x], 'trial step %d starts from the objective %r, at %s it is %r', k, e.info.f, x, F[x])
            if m:
                c, w = np.asarray(e.info.ce, float).ravel(), C[x]
                require(c.shape[0] == m, 'trial step %d starts from %d constraint values', k, c.shape[0])
                require(np.array_equal(c[:m], w), 'trial step %d starts from the constraint values %s, at %s they are %s', k, c.tolist(), x, w.tolist())
            prev = [t for t in events[:k] if t.name == 'sqpdfo_computeHessian']
            if prev and prev[-1].has('gx', 'x') and x == key(prev[-1].x):
                require(np.array_equal(np.asarray(e.info.g).ravel(), np.asarray(prev[-1].gx).ravel()), 'trial step %d uses the gradient %s, the model has %s', k, e.info.g, prev[-1].gx)
            continue
        if not e.has('Y', 'fY', 'ceY', 'fcmodel', 'x', 'scale', 'shift_Y', 'gx', 'gce', 'whichmodel'):
            continue
        Y, fY = np.asarray(e.Y, float), np.asarray(e.fY, float).ravel()
        q = Y.shape[1]
        require(Y.shape[0] == n and len(fY) == q, 'update %d: %d points of dimension %d, %d objective values', k, q, Y.shape[0], len(fY))
        require(q >= size and n + 1 <= q, 'update %d: the interpolation set shrinks from %d to %d points', k, size, q)
        require(q <= (full if int(e.whichmodel) != 3 else 2 * full), 'update %d: %d points, the final degree has %d coefficients', k, q, full)
        size = q
        values = [fY]
        pts = [key(Y[:, j]) for j in range(q)]
        for j, y in enumerate(pts):
            require(y in F, 'update %d: point %d of the interpolation set %s was never evaluated', k, j, y)
            require(fY[j] == F[y], 'update %d: point %d of the interpolation set has the objective value %r, at %s it is %r', k, j, fY[j], y, F[y])
        if m:
            cY = np.asarray(e.ceY, float)
            require(cY.ndim == 2 and cY.shape[1] == q, 'update %d: constraint values of shape %s for %d points', k, cY.shape, q)
            for j, y in enumerate(pts):
                require(np.array_equal(cY[:m, j], C[y]), 'update %d: point %d of the interpolation set has the constraint values %s, at %s they are %s', k, j, cY[:, j].tolist(), y, C[y].tolist())
            values += list(cY)
        if len(set(pts)) < q:
            rec.label('twice')
        require(pts[0] == key(e.x), 'update %d: the first point is %s, the iterate is %s', k, pts[0], key(e.x))
        A, base, s = ref.matrix(Y, ref.nq(n), bool(e.shift_Y))
        sv = np.linalg.svd(A[:, :q] if q <= n + 1 or int(e.whichmodel) == 0 else A, compute_uv=False)
        lin = np.linalg.svd(A[:, :n + 1], compute_uv=False)
        model = np.asarray(e.fcmodel, float)
        require(model.shape[0] == len(values), 'update %d: %d models for %d functions', k, model.shape[0], len(values))
        if sv[-1] < 1e-7 * sv[0] or lin[-1] < 1e-7 * lin[0] or q > ref.nq(n):
            rec.label('degenerate')
            continue
        judged += 1
        B = A[:, :model.shape[1]]
        G = [np.asarray(e.gx, float).ravel()] + [np.asarray(t, float).ravel() for t in np.asarray(e.gce, float)] if m else [np.asarray(e.gx, float).ravel()]
        for i, v in enumerate(values):
            got = B @ model[i]
            mag = np.abs(v).max() + np.abs(model[i]).max()
            require(np.abs(got - v).max() <= 1e-6 * mag, 'update %d: model %d differs from the data by %g (values of size %g)', k, i, np.abs(got - v).max(), mag)
            _, g, _ = ref.unpack(model[i], n)
            require(np.abs(g * s - G[i]).max() <= 1e-8 * s * (np.abs(model[i]).max() + 1e-300), 'update %d: gradient %d is %s, the model has %s', k, i, G[i].tolist(), (g * s).tolist())
    if judged < 2:
        rec.trivial()
    rec.label('flag%d' % r.info.flag, 'm' if m else 'free', 'judged' + ('0' if judged < 2 else '2' if judged < 10 else '10'), str(P.p['opt'].get('whichmodel')))



short = gen.options(miter=st.sampled_from([5, 20, 60, 200]), msimul=st.sampled_from([20, 50, 200]), verbose=(0,))
PARTS = [Part('models', gen.problem(opt=short), body, 1500, 30000, shards=8)]
