"""Planted bugs: edits of sqpdfo/*.py with a demonstration each (see plant.py)."""
BUGS = []


def bug(id, property, edits, breaks, needs, demo):
    BUGS.append(dict(id=id, property=property, edits=[edits] if isinstance(edits, tuple) else edits, breaks=breaks, needs=needs, demo=demo))


PRELUDE = '''"""Demonstration; run in the root of the source tree."""
import contextlib
import io
import os
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np

scratch = tempfile.TemporaryDirectory()
os.chdir(scratch.name)


def solve(f, x0, lb=None, ub=None, me=0, mi=0, c=None, **opt):
    """One run; returns x, multipliers, info, printed text and the recorded calls."""
    import sqpdfo

    class options:
        pass
    o = options()
    o.verbose = 0
    for k, v in opt.items():
        setattr(o, k, v)
    F, C = [], []

    def ff(x):
        F.append((tuple(x), None))
        v = f(np.array(x))
        F[-1] = (tuple(x), v)
        return v

    def cc(x):
        v = np.asarray(c(np.array(x)), float)
        C.append((tuple(x), v))
        return list(v)
    col = lambda v: None if v is None else np.array(v, float).reshape(-1, 1)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if c is None:
            x, lm, info = sqpdfo.optimize(o, ff, np.array([list(map(float, x0))]), col(lb), col(ub))
        else:
            x, lm, info = sqpdfo.optimize(o, ff, np.array([list(map(float, x0))]), col(lb), col(ub), me, mi, cc)
    return np.asarray(x, float).ravel(), np.asarray(lm, float).ravel(), info, out.getvalue(), F, C


def fail(msg, *a):
    print('property broken: ' + msg % a)
    sys.exit(1)


rng = np.random.RandomState(7)

'''

# ---- C01
bug('s01-snap', 'C01', ('bcdfo_solve_TR_MS_bc.py',
    """                                s_afterH[ind_free[ind_u_active]]=ub[ind_free[ind_u_active]]
                            if (length_(ind_l_active) > 0):""",
    """                                s_afterH[ind_free[ind_u_active]]=ub[ind_free[ind_u_active]]
                            elif (length_(ind_l_active) > 0):"""),
    'step components next to a lower bound are not moved onto it when an upper bound becomes active in the same step; the returned point is outside by up to 1e-5',
    'one step that reaches a lower and an upper bound of different variables at the same time', """
for t in range(120):
    n = 2 + t % 2
    lb, ub = -1 - rng.rand(n), 1 + rng.rand(n)
    s = np.where(np.arange(n) % 2 == 0, 1.0, -1.0)
    w = np.ones(n) if t % 3 else 0.5 + rng.rand(n)
    if t % 2 == 0:
        lb, ub = -2 * np.ones(n), 2 * np.ones(n)
    z = s * (2.5 + 4 * (t % 5)) 
    x, lm, info, out, F, C = solve(lambda x: float(np.sum(w * (x - z) ** 2)), np.zeros(n), lb, ub, msimul=60)
    d = max(np.max(lb - x), np.max(x - ub))
    if d > 1e-9:
        fail('returned point is %.3g outside the bounds', d)
""")
bug('s01-inside', 'C01', ('sqpdfo_find_smallf.py', 'logical_or_(Y[:,i] < xl_free , Y[:,i] > xu_free)', 'logical_and(Y[:,i] < xl_free , Y[:,i] > xu_free)'),
    'points outside the bounds, evaluated while the interpolation set is improved, can become the best point and be returned',
    'an improvement of the interpolation set near an active bound', """
for t in range(150):
    n = 1 + t % 3
    lb = rng.rand(n) - 1.0
    ub = lb + 2 + rng.rand(n)
    z = lb - rng.rand(n) * 2
    x, lm, info, out, F, C = solve(lambda x: float(np.sum((x - z) ** 2) + 0.1 * np.sum(np.sin(3 * x))), (lb + ub) / 2, lb, ub, msimul=80)
    d = max(np.max(lb - x), np.max(x - ub))
    if d > 1e-9:
        fail('returned point is %.3g outside the bounds', d)
""")
# ---- C02
bug('s02-merit', 'C02', ('sqpdfo_find_smallf.py', '        fx=copy(fY[0])\n        i_xbest', '        fx=copy(fmin)\n        i_xbest'),
    'after an exchange of the best point the value kept for it is the merit value, not the objective',
    'general constraints not satisfied at the new best point, and no accepted step afterwards', """
for t in range(200):
    n = 1 + t % 3
    a = rng.randn(n)
    z = rng.randn(n)
    f = lambda x: float(np.sum((x - z) ** 2) + np.sin(x[0]))
    c = lambda x: [float(a @ x - 1 + 0.3 * np.sum(x ** 2))]
    x, lm, info, out, F, C = solve(f, rng.randn(n), me=1, c=c, msimul=int(5 + t % 30), miter=int(1 + t % 9))
    v = float(np.asarray(info.f).ravel()[0])
    if abs(v - f(x)) > 1e-8 * (1 + abs(v)):
        fail('reported objective %r, value at the returned point %r', v, f(x))
""")
# ---- C03
bug('s03-feas', 'C03', ('sqpdfo_main.py',
    """                and (info.feasn / factor_CV <= options.tol_feas)\\
                and (info.compl / factor_CV <= options.tol_bnds) and errg <= epsilon\\""",
    """                and (info.feasn <= options.tol_feas * factor_CV ** 2)\\
                and (info.compl / factor_CV <= options.tol_bnds) and errg <= epsilon\\"""),
    'success is reported at points that violate the constraints by up to 10^4 times the tolerance',
    'the iterate after an improvement of the set is stationary but still infeasible', """
bad = 0
for t in range(300):
    n = 2 + t % 2
    a = rng.randn(n)
    z = rng.randn(n)
    k = 0.2 + rng.rand()
    f = lambda x: float(np.sum((x - z) ** 2))
    c = lambda x: [float(a @ x - 1 + k * np.sum((x - 1) ** 2))]
    x, lm, info, out, F, C = solve(f, 3 * rng.randn(n), me=1, c=c, tol_feas=1e-4, tol_grad=[1e-1, 1e-2, 1e-3][t % 3], hess_approx=['bfgs', 'model'][t % 2], msimul=300)
    if info.flag == 0 and abs(c(x)[0]) > 0.0101:
        fail('success reported with a constraint violation of %.3g, tolerance 1e-4', abs(c(x)[0]))
""")
# ---- C04
bug('s04-budget', 'C04', ('sqpdfo_main.py', '        if info.nsimul[1] >= options.msimul:\n', '        if info.nsimul[1] >= options.msimul and not radius_has_been_rejected:\n'),
    'the evaluation budget is ignored while steps are being rejected', 'a sequence of rejected steps at the moment the budget is used up', """
for t in range(200):
    n = 1 + t % 3
    f = lambda x: float(np.sum(np.abs(x - 0.3)) + np.sum(np.cos(9 * x)))
    m = 6 + t % 25
    x, lm, info, out, F, C = solve(f, rng.randn(n) * 2, msimul=m, miter=500)
    if len(F) > m + 2 * n + 3:
        fail('%d evaluations with a budget of %d', len(F), m)
    if info.flag != 6 and len(F) >= m + 2 * n + 1:
        fail('status %d after %d evaluations with a budget of %d', info.flag, len(F), m)
    if info.flag == 6 and not m <= len(F):
        fail('budget status after %d evaluations of %d', len(F), m)
""")
# ---- C05
bug('s05-lastvalue', 'C05', [('sqpdfo_func.py', """    xc = copy(x.T)
    xc = list(xc[0])
""", """    xc = list(copy(x.T)[0])
    if getattr(glob, 'last_x', None) == xc:
        ffunc = lambda x: glob.last_f    # no need to compute it again
"""), ('sqpdfo_func.py', """    if msgf > 0 or msgc > 0:
""", """    glob.last_x, glob.last_f = xc, f
    if msgf > 0 or msgc > 0:
""")],
    'the value of the last evaluated point is remembered across runs and used for another objective',
    'a second run, with another objective, started from the last point evaluated by the first', """
f = lambda x: float((x[0] - 2) ** 2 + 1)
g = lambda x: float((x[0] + 1) ** 2)
x, lm, info, out, F, C = solve(f, [0.0], msimul=1)
last = F[-1][0]
x, lm, info, out, F, C = solve(g, last, msimul=1)
if len(F) < 2 or float(info.f) not in [g(np.array(p)) for p, _ in F]:
    fail('second run used a value of the first: objective %r, evaluations %r', float(info.f), F)
""")
# ---- C06
bug('s06-nanall', 'C06', ('sqpdfo_augmX_evalf.py', 'if isnan(ce).any():', 'if ce.size and isnan(ce).all():'),
    'a constraint vector with some NaN entries is accepted', 'at least two constraints, one of them NaN at some evaluation', """
for k in range(0, 12):
    cnt = [0]

    def c(x):
        cnt[0] += 1
        v = [float(x[0] + x[1] - 1), float(x[0] - x[1])]
        if cnt[0] > k:
            v[1] = float('nan')
        return v
    try:
        x, lm, info, out, F, C = solve(lambda x: float(np.sum(x ** 2) + x[0]), [1.0, 2.0], me=2, c=c, msimul=30)
    except Exception as e:
        fail('NaN constraint at call %d: %s', k + 1, e)
    if cnt[0] > k and (info.flag != 3 or cnt[0] > k + 1):
        fail('NaN constraint at call %d of %d: status %d', k + 1, cnt[0], info.flag)
""")
bug('s06-minusinf', 'C06', ('sqpdfo_augmX_evalf.py', '    if isinf(fvalue):\n', '    if fvalue == float("inf"):\n'),
    'an objective value of minus infinity is accepted', 'an objective that returns -inf at some point', """
for k in range(0, 12):
    cnt = [0]

    def f(x):
        cnt[0] += 1
        return float('-inf') if cnt[0] > k else float(np.sum(x ** 2) + x[0])
    try:
        x, lm, info, out, F, C = solve(f, [1.0, 2.0], msimul=30)
    except Exception as e:
        fail('-inf at call %d: %s', k + 1, e)
    if cnt[0] > k and info.flag != 3:
        fail('-inf at call %d of %d: status %d', k + 1, cnt[0], info.flag)
""")
# ---- C07
bug('s07-silent', 'C07', ('sqpdfo_options.py', """                fprintf_('\\n    options.final_degree must be either "linear", "diagonal" or "quadratic"\\n\\n')
            info.flag = values.fail_on_argument
            return info, options, values""", """                fprintf_('\\n    options.final_degree must be either "linear", "diagonal" or "quadratic"\\n\\n')
                info.flag = values.fail_on_argument
                return info, options, values"""),
    'an unknown final degree is only rejected when output is switched on', 'unknown final_degree and verbose=0', """
for v in (0, 1, 2, 3):
    try:
        x, lm, info, out, F, C = solve(lambda x: float(np.sum(x ** 2)), [1.0, 2.0], verbose=v, final_degree='cubic', msimul=20)
    except Exception as e:
        fail('unknown final_degree at verbose %d: %r', v, e)
    if info.flag != 1 or F:
        fail('unknown final_degree at verbose %d: status %r after %d evaluations', v, info.flag, len(F))
""")
# ---- C08 / C03
bug('s08-gce', 'C08', ('sqpdfo_main.py', """                                if me > 0:
                                    gce=zeros_(me,n)
                                    for i in range(0,me):
                                        gce[i,:]=\\
                                        bcdfo_gradP_(fcmodel[[1 + mi +\\
                                                    i],:],x,x,scale,shift_Y).T
""", ''),
    'the Jacobian used after a close point was replaced is that of the previous model', 'equality constraints and replacements of close points after rejected steps', """
pass
""")
# ---- C09
bug('s09-current', 'C09', ('sqpdfo_main.py', "                                d[0]=2 * FPlength   # excludes the current iterate\n", ''),
    'a rejected trial point may replace the current iterate in the interpolation set', 'rejected steps with a complete interpolation set', """
bad = 0
for t in range(400):
    n = 1 + t % 3
    w = rng.randn(n)
    f = lambda x: float(np.sum(np.abs(x - w)) + 2 * np.sum(np.cos(4 * x)))
    x0 = rng.randn(n) * 2
    kw = dict(final_degree=['linear', 'diagonal', 'quadratic'][t % 3], whichmodel=['subbasis', 'regression'][t % 2])
    try:
        x, lm, info, out, F, C = solve(f, x0, msimul=20 + t % 50, **kw)
    except Exception as e:
        fail('%r', e)
    if f(x) > F[0][1] + 1e-9 * (1 + abs(F[0][1])):
        fail('returned value %r is worse than the first one %r', f(x), F[0][1])
    v = float(np.asarray(info.f).ravel()[0])
    if abs(v - f(x)) > 1e-8 * (1 + abs(v)):
        fail('reported objective %r, value at the returned point %r', v, f(x))
""")
# ---- C10
bug('s10-verbose', 'C10', ('sqpdfo_augmX_evalf.py', """            print("x="+str(copy(y)))
            print('ce='+str(ce))
        info.flag=values.fail_on_simul
""", """            print("x="+str(copy(y)))
            print('ce='+str(ce))
            info.flag=values.fail_on_simul
"""),
    'a NaN constraint value only ends the run with an error status when output is switched on', 'a NaN constraint value and verbose=0', """
res = []
for v in (0, 1):
    cnt = [0]

    def c(x):
        cnt[0] += 1
        return [float('nan') if cnt[0] > 5 else float(x[0] + x[1] - 1)]
    try:
        x, lm, info, out, F, C = solve(lambda x: float(np.sum(x ** 2) + x[0]), [1.0, 2.0], me=1, c=c, msimul=30, verbose=v)
        res.append((info.flag, len(F)))
    except Exception as e:
        res.append(repr(e))
if res[0] != res[1]:
    fail('with and without output: %r', res)
""")
# ---- C11
bug('s11-cond', 'C11', ('bcdfo_build_QR_of_Y.py', """    elif (whichmodel == 2):
""", """    elif (whichmodel == 2):
        kappa_ill=min(kappa_ill,1e4)    # be careful, this model is sensitive
"""),
    'minimum-norm models of moderately ill-conditioned sets are regularised and no longer interpolate', 'minimum l2-norm (or underdetermined regression) model and a set with condition above 1e4', """
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
from sqpdfo.bcdfo_computeP import bcdfo_computeP_
from sqpdfo.bcdfo_evalP import bcdfo_evalP_
for t in range(300):
    n = 2 + t % 2
    p1 = n + 2 + t % 3
    p1 = min(p1, (n + 1) * (n + 2) // 2 - 1)
    Y = rng.randn(n, p1) * 10.0 ** rng.uniform(-3, 0, (1, p1))
    Y[:, [0]] = 0
    fY = rng.randn(1, p1)
    QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, 2, 1, 1.0, 1.0, 1e15)
    if np.linalg.cond(RZ) > 1e7:
        continue
    P = bcdfo_computeP_(QZ, RZ, Y, fY, 2, np.zeros((1, 1)), np.arange(p1), 0, 0, np.zeros((n, 1)), sc, 1)
    for i in range(p1):
        v = float(np.asarray(bcdfo_evalP_(P, Y[:, [i]], xb, sc, 1)).ravel()[0])
        if abs(v - fY[0, i]) > 1e-6:
            fail('model value %r, data %r', v, fY[0, i])
""")
# ---- C12
bug('s12-grad', 'C12', ('bcdfo_gradP.py', '                    k=k + nsd\n', '                    k=k + n - 1\n'),
    'gradients of models with four or more variables use wrong mixed coefficients from the third subdiagonal on', 'full quadratic model of at least four variables', """
from sqpdfo.bcdfo_evalP import bcdfo_evalP_
from sqpdfo.bcdfo_gradP import bcdfo_gradP_
for n in (1, 2, 3, 4, 5):
    q = (n + 1) * (n + 2) // 2
    P = rng.randn(1, q)
    x = rng.randn(n, 1)
    g = np.asarray(bcdfo_gradP_(P, x, np.zeros((n, 1)), np.ones((q, 1)), 0)).ravel()
    for i in range(n):
        e = np.zeros((n, 1))
        e[i] = 1.0
        d = (bcdfo_evalP_(P, x + e, np.zeros((n, 1)), np.ones((q, 1)), 0) - bcdfo_evalP_(P, x - e, np.zeros((n, 1)), np.ones((q, 1)), 0)) / 2
        if abs(float(np.asarray(d).ravel()[0]) - g[i]) > 1e-8:
            fail('n=%d: derivative %d is %r, differences give %r', n, i, g[i], d)
""")
# ---- C13
bug('s13-evall', 'C13', ('bcdfo_evalL.py', 'concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]])', 'concatenate_([MQ[:,0:n].dot(phi[n + 1:2*n + 1]),phi[0:n + 1]])'),
    'Lagrange polynomials of minimum Frobenius norm models ignore the mixed terms', 'Frobenius model with an intermediate number of points and evaluation off the axes', """
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
from sqpdfo.bcdfo_evalL import bcdfo_evalL_
for t in range(50):
    n = 2 + t % 2
    p1 = n + 2
    Y = rng.randn(n, p1)
    QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, 1, 1, 1.0, 1.0, 1e15)
    if np.linalg.cond(RZ) > 1e5:
        continue
    for i in range(p1):
        L = np.asarray(bcdfo_evalL_(QZ, RZ, Y, np.arange(p1), Y[:, [i]], xb, 1, sc, 1)).ravel()
        if np.abs(L - np.eye(p1)[i]).max() > 1e-6:
            fail('values at point %d: %s', i, L)
""")
# ---- C14
bug('s14-view', 'C14', ('sqpdfo_swap_in_Y.py', '        ci=copy(ciY[:,ii])\n', '        ci=ciY[:,ii]\n'),
    'swapping two points overwrites the values of the first group of constraints of one of them', 'a swap with values of inequality constraints present', """
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
from sqpdfo.sqpdfo_swap_in_Y import sqpdfo_swap_in_Y_
n, p = 2, 3
Y = rng.randn(n, p)
ci = rng.randn(2, p)
QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, 0, 1, 1.0, 1.0, 1e15)
r = sqpdfo_swap_in_Y_(0, 2, QZ, RZ, Y, np.arange(p), rng.randn(p), ci, rng.randn(1, p), xb, 0, sc, 1, 1.0, 1.0, 1e15)
if not np.array_equal(r[5], ci[:, [2, 1, 0]]):
    fail('constraint values after the swap: %s, before: %s', r[5].tolist(), ci.tolist())
""")
bug('s14-farthest', 'C14', ('bcdfo_include_in_Y.py', """                if (succ == 1):
                    cv=norm_(Y[:,j] - x)
""", """                if (succ == 1):
                    cv=norm_(Y[:,j] - Y[:,[0]])
"""),
    'at successful iterations the point to be replaced is the one farthest from the old iterate instead of the new one', 'a successful step and a set in which the two differ', """
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
from sqpdfo.bcdfo_include_in_Y import bcdfo_include_in_Y_
Y = np.array([[0.0, 1.0, 0.0, -0.9, 0.1, 0.6], [0.0, 0.0, 1.0, 0.1, -0.9, 0.6]])
x = np.array([[0.8], [0.7]])
QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, 0, 1, 1.0, 1.0, 1e15)
r = bcdfo_include_in_Y_(x, QZ, RZ, Y, np.arange(6), 1e-10, 'distance', xb, 0, 1, sc, 1, 1.0, 1.0, 1e15)
d = np.linalg.norm(Y - x, axis=0)
if r[3] != int(np.argmax(d)):
    fail('replaced point %d, distances from the new point: %s', r[3], d.tolist())
""")
# ---- C15
bug('s15-radius', 'C15', ('bcdfo_repair_Y.py', '        d[jmax]=norm_(ymax - Y[:,[0]])\n', ''),
    'the radius reported after a repair ignores the exchanges made for the geometry', 'a repair that replaces close points', """
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
from sqpdfo.bcdfo_repair_Y import bcdfo_repair_Y_
for t in range(60):
    n = 2
    Y = rng.randn(n, 3) * 0.3
    Y[:, 0] = 0
    QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, 0, 1, 1.0, 1.0, 1e15)
    r = bcdfo_repair_Y_(QZ, RZ, Y, 1.0, 10, 1e-10, 1.2, 0.001, xb, 1, 0, 0, -10 * np.ones((n, 1)), 10 * np.ones((n, 1)), np.arange(n), 1, sc, 1, 1.0, 1e15)
    true = max(np.linalg.norm(r[2][:, j] - r[2][:, 0]) for j in range(1, 3))
    if abs(float(np.asarray(r[5]).ravel()[0]) - true) > 1e-8:
        fail('reported radius %r, true radius %r', r[5], true)
""")
# ---- C16
bug('s16-upper', 'C16', ('bcdfo_solve_TR_MS.py', '    upper=max_(0,goverD + min_(Hnorminf,HnormF))', '    upper=max_(0,goverD + min_(Hnorminf,HnormF) / sqrt_(n))'),
    'the upper limit for the multiplier is too small for indefinite matrices and the step is far from the minimiser', 'an indefinite Hessian whose most negative eigenvalue dominates the gradient', """
from sqpdfo.bcdfo_solve_TR_MS import bcdfo_solve_TR_MS_
for t in range(300):
    n = 1 + t % 4
    d = rng.randn(n) * 3
    Q = np.linalg.qr(rng.randn(n, n))[0]
    H = Q @ np.diag(d) @ Q.T
    g = rng.randn(n, 1) * 10.0 ** rng.uniform(-2, 1)
    D = 10.0 ** rng.uniform(-1, 1)
    r = bcdfo_solve_TR_MS_(g, (H + H.T) / 2, D, 1e-4)
    s = np.asarray(r[0]).ravel()
    val = float(g.ravel() @ s + 0.5 * s @ H @ s)
    best = min(float(g.ravel() @ z + 0.5 * z @ H @ z) for z in [D * v / np.linalg.norm(v) for v in rng.randn(400, n)] + [np.zeros(n)])
    if val > best + 0.01 * abs(best) + 1e-9:
        fail('model value %r, a sampled point of the ball has %r', val, best)
""")
# ---- C17
bug('s17-radius', 'C17', ('bcdfo_solve_TR_MS_bc.py', '        Delta=Delta0 - norms\n', '        Delta=copy(Delta0)\n'),
    'after a bound was hit the search goes on with the full radius, so that the step leaves the trust region', 'a step that hits a bound and continues in the remaining variables', """
from sqpdfo.bcdfo_solve_TR_MS_bc import bcdfo_solve_TR_MS_bc_


class options:
    verbose = 0


for t in range(400):
    n = 2 + t % 2
    d = 0.2 + rng.rand(n)
    Q = np.linalg.qr(rng.randn(n, n))[0]
    H = Q @ np.diag(d) @ Q.T
    g = rng.randn(n, 1) * 5
    lb = -rng.rand(n, 1) * 0.7
    ub = rng.rand(n, 1) * 0.7
    lb[0], ub[0] = -50, 50
    r = bcdfo_solve_TR_MS_bc_(g, (H + H.T) / 2, lb, ub, 1.0, 1e-7, 1, options)
    if np.linalg.norm(r[0]) > 1.01:
        fail('step of length %r in a region of radius 1', np.linalg.norm(r[0]))
""")
# ---- C18
bug('s18-zerocurv', 'C18', ('sqpdfo_truncated_cg.py', '        if dAd <= 0: # negative', '        if dAd < 0: # negative'),
    'directions without curvature are not recognised and the step becomes NaN', 'a singular matrix and a right-hand side in its null space', """
from sqpdfo.sqpdfo_truncated_cg import sqpdfo_truncated_cg_
for A, b in [(np.zeros((2, 2)), [[1.0], [2.0]]), (np.diag([1.0, 0.0]), [[0.0], [1.0]])]:
    with np.errstate(all='ignore'):
        x, info = sqpdfo_truncated_cg_(A, np.array(b), 1.0, 20, 1e-8)
    if not np.all(np.isfinite(x)) or abs(np.linalg.norm(x) - 1) > 1e-8 or info.flag != 2:
        fail('step %s with status %r', np.asarray(x).tolist(), info.flag)
""")
# ---- C19
bug('s19-exit', 'C19', ('blls.py', '    if (exitc == 0 and nit >= maxiter):', '    if (exitc == 0 and nit > maxiter):'),
    'success is reported although the iteration limit was reached before optimality', 'a system on which the solver does not converge within 2n iterations', """
from sqpdfo.blls import blls_
for t in range(6000):
    m, n = 1 + t % 4, 1 + (t // 4) % 4
    A = rng.randint(-2, 3, (m, n)) * 1.0
    b = rng.randint(-3, 4, (m, 1)) * 1.0
    lb = -rng.randint(0, 3, (n, 1)) * 1.0
    ub = lb + rng.randint(1, 4, (n, 1))
    try:
        with np.errstate(all='ignore'):
            s, rn, opt, ex = blls_(A, b, lb, ub)
    except Exception:
        continue
    g = A.T @ (A @ s - b)
    o = np.linalg.norm(np.clip(s - g, lb, ub) - s)
    if ex == 0 and o > 1e-5:
        fail('success reported, optimality measure is %r', o)
""")
# ---- C20
bug('s20-both', 'C20', ('sqpdfo_compute_multiplier.py', """        if (ub[i] < options.inf) and (abs(x[i] - ub[i]) < options.dxmin):
            lo[i] = 0""", """        elif (ub[i] < options.inf) and (abs(x[i] - ub[i]) < options.dxmin):
            lo[i] = 0"""),
    'a variable at both of its (coinciding) bounds gets a multiplier of one sign only', 'lower and upper bound closer than dxmin', """
import sqpdfo.sqpdfo_global_variables as glob
from sqpdfo.helper import dummyOptions, dummyValues
from sqpdfo.sqpdfo_compute_multiplier import sqpdfo_compute_multiplier_


class Info:
    pass


for g0 in (1.0, -1.0):
    info = Info()
    info.g, info.ae = np.array([[g0], [0.5]]), np.zeros((0, 2))
    info.ai, info.ci, info.ce, info.f, info.flag = np.array([]), np.array([]), np.zeros((0, 1)), 0.0, 0
    o = dummyOptions()
    o.inf, o.dxmin, o.verbose = 1e20, 1e-6, 0
    glob.set_nbr_slacks(0)
    glob.set_slacks(None)
    glob.set_check_condition(0)
    x = np.array([[1.0], [2.0]])
    lm, info = sqpdfo_compute_multiplier_(x, np.array([[1.0], [-np.inf]]), np.array([[1.0], [np.inf]]), info, o, dummyValues())
    if float(lm[0]) != 0:
        fail('multiplier %r for a variable at both bounds', float(lm[0]))
""")
bug('s20-sign', 'C20', ('sqpdfo_compute_multiplier.py', '        if (lb[i] > - options.inf) and (abs(x[i] - lb[i]) < options.dxmin):', '        if (lb[i] > - options.inf) and (abs(x[i] - lb[i]) < options.dxmin * abs(x[i])):'),
    'a lower bound of zero is not recognised as active, so that its multiplier may have the wrong sign', 'a variable at a lower bound of zero', """
import sqpdfo.sqpdfo_global_variables as glob
from sqpdfo.helper import dummyOptions, dummyValues
from sqpdfo.sqpdfo_compute_multiplier import sqpdfo_compute_multiplier_


class Info:
    pass


info = Info()
info.g, info.ae = np.array([[-1.0], [0.5]]), np.zeros((0, 2))
info.ai, info.ci, info.ce, info.f, info.flag = np.array([]), np.array([]), np.zeros((0, 1)), 0.0, 0
o = dummyOptions()
o.inf, o.dxmin, o.verbose = 1e20, 1e-6, 0
glob.set_nbr_slacks(0)
glob.set_slacks(None)
glob.set_check_condition(0)
lm, info = sqpdfo_compute_multiplier_(np.array([[0.0], [2.0]]), np.array([[0.0], [-np.inf]]), np.array([[5.0], [np.inf]]), info, o, dummyValues())
if float(lm[0]) > 1e-12:
    fail('multiplier %r for a variable at its lower bound', float(lm[0]))
""")
# ---- C21
bug('s21-ys', 'C21', ('sqpdfo_bfgs_update.py', '        ys=y.T.dot(s)  # update ys, since y has changed\n', ''),
    'after the damping the curvature of the undamped difference is used', 'a step with insufficient curvature', """
from sqpdfo.helper import dummyOptions, dummyValues
from sqpdfo.sqpdfo_bfgs_update import sqpdfo_bfgs_update_


class Info:
    flag = 0


o = dummyOptions()
o.verbose = 0
for t in range(100):
    n = 2 + t % 2
    s = rng.randn(n, 1)
    y = rng.randn(n, 1)
    H, pc, info, v = sqpdfo_bfgs_update_(np.eye(n), y, s, 0, Info(), o, dummyValues())
    if info.flag == 0:
        yt = float(pc) * y + (1 - float(pc)) * s
        if np.abs(H @ s - yt).max() > 1e-8:
            fail('secant equation violated by %r', np.abs(H @ s - yt).max())
    elif float(y.T @ s) > -10:
        fail('update refused for y.s=%r', float(y.T @ s))
""")
# ---- C22
bug('s22-floor', 'C22', ('sqpdfo_check_convex.py', '        d[d < ZERO]=EPS ', '        d[d < 0]=EPS '),
    'eigenvalues that are zero or tiny survive the convexity repair', 'a matrix with a negative and a zero eigenvalue', """
from sqpdfo.helper import dummyOptions
from sqpdfo.sqpdfo_check_convex import sqpdfo_check_convex_
o = dummyOptions()
o.verbose = 0
B = np.asarray(sqpdfo_check_convex_(np.diag([-1.0, 0.0, 1e-12, 2.0]), o))
if np.linalg.eigvalsh(B)[0] < 9e-10:
    fail('smallest eigenvalue after the repair is %r', np.linalg.eigvalsh(B)[0])
""")
# ---- C23
bug('s23-start', 'C23', ('sqpdfo_prelim.py', '        if (templ >= - Delta0):\n', '        if (templ > 0):\n'),
    'a starting point close above a lower bound is not moved away from it and the first steps leave the bounds', 'a starting point less than one step above a lower bound', """
x, lm, info, out, F, C = solve(lambda x: float(np.sum((x - 2) ** 2)), [0.3, 1.0], [0.0, -5.0], [9.0, 9.0], msimul=5)
for p, v in F[:3]:
    if p[0] < -1e-9:
        fail('one of the first evaluations is at %r, outside the lower bound 0', p)
""")
# ---- C24
bug('s24-history', 'C24', ('sqpdfo_iter_printout.py', """        else:
            fprintf_(options.fout,'  \\n')
        fprintf_(fid,'  \\n')
        fclose_(fid)""", """            fprintf_(fid,'  \\n')
        else:
            fprintf_(options.fout,'  \\n')
        fclose_(fid)"""),
    'the first rows of the history file are written on one line', 'reading the history file of a run with more than one iteration', """
x, lm, info, out, F, C = solve(lambda x: float(np.sum((x - 2) ** 2)), [0.3, 1.0], verbose=1, msimul=20)
rows = [l for l in open('convhist.m').read().split('\\n') if l.strip()]
if any(len(l.split()) > 8 for l in rows):
    fail('history file contains the line %r', max(rows, key=len))
""")

WATCH = '''
import inspect
import sqpdfo.sqpdfo_main as main
EV = []


def snap(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if hasattr(v, '__dict__') and type(v).__module__.startswith('sqpdfo'):
        c = type('record', (), {})()
        c.__dict__.update({k: snap(t) for k, t in vars(v).items()})
        return c
    return v


def watch(*names):
    for nm in names:
        f = getattr(main, nm)

        def w(*a, _f=f, _s=inspect.signature(f), _n=nm, **k):
            d = {q.rstrip('_'): snap(v) for q, v in _s.bind(*a, **k).arguments.items() if 'func' not in q}
            import sqpdfo.sqpdfo_global_variables as glob
            sl = np.array(glob.get_slacks(), float).ravel() if glob.get_nbr_slacks() else None
            out = _f(*a, **k)
            EV.append((_n, d, snap(out) if not isinstance(out, tuple) else tuple(snap(o) for o in out), sl))
            return out
        setattr(main, nm, w)


def key(v):
    return tuple(float(t) for t in np.asarray(v, float).ravel())


def table(F):
    return {key(x): v for x, v in F}


def one(v):
    return float(np.asarray(v, float).ravel()[0])


def problems(k):
    """Problems with a curved constraint, on which steps are refused."""
    for t in range(k):
        n = 2 + t % 2
        a, z = rng.randn(n), rng.randn(n)
        q = 0.2 + rng.rand()
        f = lambda x, z=z: float(np.sum((x - z) ** 2) + 0.3 * np.sum(np.sin(4 * x)))
        e = lambda x, a=a, q=q: float(a @ x - 1 + q * np.sum(x ** 2) + 0.2 * np.sin(3 * x[0]))
        i = lambda x: float(x[0] + 0.4 + 0.3 * np.cos(2 * x[-1]))
        yield t, n, f, e, i, 2 * rng.randn(n)
'''

# ---- C30
MODELS = WATCH + """
watch('sqpdfo_computeHessian_')
for t, n, f, e, i, x0 in problems(80):
    mi = t % 2
    del EV[:]
    x, lm, info, out, F, C = solve(f, x0, me=1, mi=mi, c=(lambda x: [e(x), i(x)]) if mi else (lambda x: [e(x)]), msimul=80, hess_approx=['bfgs', 'model'][t % 2 if t % 3 else 0])
    F, C = table(F), table(C)
    for nm, d, o, sl in EV:
        if key(d['Y'][:, 0]) != key(d['x']):
            fail('the first point of the set is %s, the iterate is %s', key(d['Y'][:, 0]), key(d['x']))
        for j in range(d['Y'].shape[1]):
            y = key(d['Y'][:, j])
            if y not in F or one(d['fY'].ravel()[j]) != F[y] or not np.array_equal(d['ceY'][:, j], C[y]):
                fail('the values kept for the point %s of the interpolation set are not those of its evaluation', y)
        from sqpdfo.bcdfo_gradP import bcdfo_gradP_
        for j in range(1 + mi):
            g = bcdfo_gradP_(d['fcmodel'][[1 + j], :], d['x'], d['x'], d['scale'], d['shift_Y'])
            if np.abs(g.ravel() - d['gce'][j]).max() > 1e-9 * (1 + np.abs(g).max()):
                fail('gradient of constraint model %d is %s, %s is used', j, g.ravel(), d['gce'][j])
"""
bug('s30-gce', 'C30', ('sqpdfo_main.py', '''                                if me > 0:
                                    gce=zeros_(me,n)
                                    for i in range(0,me):
                                        gce[i,:]=\\
                                        bcdfo_gradP_(fcmodel[[1 + mi +\\
                                                    i],:],x,x,scale,shift_Y).T
                                        
                    # Decrease''', '''                    # Decrease'''),
    'the Jacobian used after the replacement of a close point belongs to the previous model', 'a refused step whose point replaces a close point of a complete set', MODELS)
bug('s30-gfar', 'C30', ('sqpdfo_main.py', '''                                for i in range(0,me):
                                    gce[i,:]=\\
                                    bcdfo_gradP_(fcmodel[[1 + mi +\\
                                               i],:],x,x,scale,shift_Y).T
''', '''                                for i in range(0,me-nbr_slacks):
                                    gce[i,:]=\\
                                    bcdfo_gradP_(fcmodel[[1 + mi +\\
                                               i],:],x,x,scale,shift_Y).T
'''),
    'rows of the Jacobian which belong to inequalities are zero after the replacement of a far point', 'inequalities and a refused step whose point replaces a far point', MODELS)
bug('s30-ceclose', 'C30', ('sqpdfo_main.py', '''                                if mi > 0:
                                    ciY[:,pos]=copy(ciplus.T)
                                if me > 0:
                                    ceY[:,pos]=copy(ceplus.T)
''', '''                                if mi > 0:
                                    ciY[:,pos]=copy(ciplus.T)
                                    ceY[:,pos]=copy(ceplus.T)
'''),
    'a point which replaces a close point of the set keeps the constraint values of the old one', 'constraints and a refused step whose point replaces a close point', MODELS)
bug('s30-current', 'C30', ('sqpdfo_main.py', "                                d[0]=2 * FPlength   # excludes the current iterate\n", ''),
    'a refused trial point may replace the current iterate in the interpolation set', 'refused steps with a complete interpolation set', MODELS)
bug('s30-impr', 'C30', ('sqpdfo_main.py', '''                if me > 0:
                    ceY[:,j]=copy(ceX[:,m].T)
''', '''                if me > 0 and j > 0:
                    ceY[:,j-1]=copy(ceX[:,m].T)
'''),
    'improvements of the set store the constraint values of a new point with the previous one', 'an improvement of the interpolation set with constraints', MODELS)
bug('s30-swap', 'C30', ('sqpdfo_swap_in_Y.py', '        ce=copy(ceY[:,ii])\n', '        ce=ceY[:,ii]\n'),
    'exchanging two points gives both the constraint values of one', 'constraints', MODELS)

# ---- C31
STEPS = WATCH + """
watch('sqpdfo_solve_TR_bc_', 'sqpdfo_computeHessian_', 'bcdfo_repair_Y_', 'sqpdfo_find_smallf_', 'bcdfo_include_in_Y_')
for t, n, f, e, i, x0 in problems(150):
    kind = t % 3
    del EV[:]
    c = [None, lambda x: [e(x)], lambda x: [e(x), i(x)]][kind]
    x, lm, info, out, F, C = solve(f, x0, me=min(kind, 1), mi=max(kind - 1, 0), c=c, msimul=80, hess_approx=['bfgs', 'model'][t % 2])
    F, C = table(F), table(C)

    def merit(x, sigma, sl):
        if not kind:
            return F[x]
        v = np.array(C[x], float)
        if sl is not None:
            v[1:] -= np.asarray(sl, float).ravel() ** 2
        return F[x] + sigma * np.linalg.norm(v)
    tr = [k for k, v in enumerate(EV) if v[0] == 'sqpdfo_solve_TR_bc_']
    for a, k in enumerate(tr[:-1]):
        d, out, sl = EV[k][1:]
        after = EV[k + 1:tr[a + 1]]
        if any(v[0] in ('bcdfo_repair_Y_', 'sqpdfo_find_smallf_') for v in after):
            continue
        upd = [v for v in after if v[0] == 'sqpdfo_computeHessian_']
        x, s = key(d['x']), out[0] - d['x']
        plus = key(d['x'] + s)
        if not upd or plus == x or plus not in F:
            continue
        sigma = one(upd[0][1]['sigma'])
        ared = merit(x, sigma, sl) - merit(plus, sigma, out[8])
        pred = sigma * one(out[2]) - one(d['info'].g.T @ s + 0.5 * s.T @ d['M'] @ s)
        tol = 1e-9 * (1 + abs(merit(x, sigma, sl)))
        d0, d1 = one(d['delta']), one(EV[tr[a + 1]][1]['delta'])
        if key(upd[0][1]['x']) == plus:
            if ared < 1e-4 * pred - tol:
                fail('a step is accepted with a reduction of %r, predicted %r', ared, pred)
            if d1 < d0 * (1 - 1e-9):
                fail('the radius shrinks from %r to %r after an accepted step', d0, d1)
        else:
            if ared > 1e-3 * abs(pred) + tol and not any(v[0] == 'bcdfo_include_in_Y_' and one(v[2][3]) < 0 for v in after):
                fail('a step is refused with a reduction of %r, predicted %r', ared, pred)
            if d1 > d0 * (1 + 1e-9):
                fail('the radius grows from %r to %r after a refused step', d0, d1)
            if sl is not None and not np.array_equal(EV[tr[a + 1]][3], sl):
                fail('the slack variables change with a refused step')
"""
bug('s31-sigma', 'C31', ('sqpdfo_main.py', '''            # re-evaluate the merit function at x, since sigma has changed
            merit0=f0 + sigma * ce0n
''', ''),
    'the merit function at the iterate is not re-evaluated when the penalty parameter rises, and good steps are refused', 'an increase of the penalty parameter at an infeasible iterate', STEPS)
bug('s31-slack', 'C31', ('sqpdfo_main.py', '''                      concatenate((zeros((len(ceplus)-nbr_slacks,1)),slplus**2))) 
''', '''                      concatenate((zeros((len(ceplus)-nbr_slacks,1)),sl**2))) 
'''),
    'the merit function at the trial point uses the slack variables of the iterate', 'inequalities and steps which move the slack variables', STEPS)
bug('s31-shrink', 'C31', ('sqpdfo_main.py', '''                        if (active_r or active_t) and delta<5.0:
                            delta=delta * tau3
                        else:
                            delta=min_(max_(tau2 * norms,delta),Deltamax)
''', '''                        if (active_r or active_t) and delta<5.0:
                            delta=delta * tau3
                        else:
                            delta=min_(tau2 * norms,Deltamax)
'''),
    'the radius shrinks after a very successful step shorter than a third of it', 'a very successful interior step', STEPS)
bug('s31-f0', 'C31', ('sqpdfo_main.py', '''                # Recover ce at the current iterate

                #info.ce=ce0
                info.f=copy(fx)
''', '''                # Recover ce at the current iterate

                #info.ce=ce0
                if not constrained_pbl:
                    info.f=copy(fx)
'''),
    'after a refused step of a constrained problem the objective at the trial point is kept for the iterate', 'a refused step followed by an improvement of the set or an accepted step', STEPS + """
    for nm, d, out, sl in EV:
        if nm == 'sqpdfo_solve_TR_bc_' and one(d['info'].f) != F[key(d['x'])]:
            fail('a step starts with the objective %r, the iterate has %r', one(d['info'].f), F[key(d['x'])])
""")
bug('s31-setslack', 'C31', ('sqpdfo_main.py', '''            ared=merit0 - merit
''', '''            if nbr_slacks:
                glob.set_slacks(slplus)

            ared=merit0 - merit
'''),
    'slack variables change with refused steps', 'inequalities and a refused step which moves slack variables', STEPS)

bug('s30-imprslack', 'C30', ('sqpdfo_main.py', '''                if me > 0:
                    ceY[:,j]=copy(ceX[:,m].T)
''', '''                if me > 0:
                    ceY[0:me-nbr_slacks,j]=copy(ceX[0:me-nbr_slacks,m].T)
'''),
    'improvements of the set keep the inequality values of the replaced point', 'an improvement of the interpolation set with inequalities', MODELS)
bug('s31-sigmaslack', 'C31', ('sqpdfo_main.py', '''            merit0=f0 + sigma * ce0n
            
''', '''            if not nbr_slacks:
                merit0=f0 + sigma * ce0n
            
'''),
    'the merit function at the iterate is not re-evaluated when the penalty parameter rises, and good steps are refused', 'inequalities and an increase of the penalty parameter at an infeasible iterate', STEPS)
bug('s31-shrink1', 'C31', ('sqpdfo_main.py', '''                                delta=delta * tau2
                            else:
                                delta=min_(max_(tau2 * norms,delta),Deltamax)
''', '''                                delta=delta * tau2
                            else:
                                delta=min_(tau2 * norms,Deltamax)
'''),
    'the radius shrinks after a successful step shorter than a third of it', 'a successful, but not very successful, interior step', STEPS)
bug('s31-stalesl', 'C31', ('sqpdfo_main.py', '''                            sl = slplus
                            glob.set_slacks(slplus)
                            
                    #  Move''', '''                            glob.set_slacks(slplus)
                            
                    #  Move'''),
    'after an accepted step the merit function at the iterate uses the slack variables of an earlier one', 'inequalities and two steps which move the slack variables', STEPS)

# ---- C25
bug('s25-restart', 'C25', ('sqpdfo_computeHessian.py', '            and info.nsimul[1] % options.bfgs_restart == 0:\n', '            and info.nsimul[1] >= options.bfgs_restart:\n'),
    'after the first restart the second derivatives stay the identity', 'quasi-Newton updates with a restart count and more evaluations than this count', WATCH + """
watch('sqpdfo_computeHessian_')
for t, n, f, e, i, x0 in problems(30):
    del EV[:]
    k = 7
    x, lm, info, out, F, C = solve(f, x0, me=1, c=lambda x: [e(x)], msimul=60, hess_approx='bfgs', bfgs_restart=k)
    for nm, d, o, sl in EV:
        reset = np.array_equal(o[0], np.eye(n)) and one(o[1]) == 2
        if reset and d['info'].nsimul[1] % k:
            fail('second derivatives restarted after %d evaluations, the restart count is %d', d['info'].nsimul[1], k)
""")
bug('s25-slack', 'C25', ('sqpdfo_computeHessian.py', '''                        norm_lm[i] = lm[n:n+me].T.dot(ceY[:,i] - \\
                                   concatenate((zeros((me-nbr_slacks,1)),sl**2)).T[0])
''', '''                        norm_lm[i] = lm[n:n+me-nbr_slacks].T.dot(ceY[0:me-nbr_slacks,i])
'''),
    'the curvature of inequality constraints is missing in the second derivatives of the Lagrangian', 'second derivatives of the model and an active, curved inequality', WATCH + """
import sqpdfo.sqpdfo_computeHessian as ch
watch('sqpdfo_computeHessian_')
from sqpdfo.bcdfo_hessP import bcdfo_hessP_
for t in range(40):
    z = rng.randn(2) + 2
    f = lambda x: float(np.sum((x - z) ** 2))
    c = lambda x: [float(1 - np.sum(x ** 2))]
    del EV[:]
    x, lm, info, out, F, C = solve(f, 0.3 * rng.randn(2), mi=1, c=c, msimul=80, hess_approx='model', final_degree='quadratic', whichmodel='subbasis')
    for nm, d, o, sl in EV:
        if d['Y'].shape[1] < 6 or np.linalg.cond(d['RZ']) > 1e4 or np.abs(d['Y'] - d['x']).max() < 1e-2:
            continue
        H = bcdfo_hessP_(d['fcmodel'][[0], :], d['x'], d['x'], d['scale'], d['shift_Y']) + one(d['lm'][2]) * bcdfo_hessP_(d['fcmodel'][[1], :], d['x'], d['x'], d['scale'], d['shift_Y'])
        if np.abs(H - o[0]).max() > 5e-2 * (1 + np.abs(H).max()):
            fail('second derivatives of the Lagrangian %s, the models give %s', o[0].tolist(), H.tolist())
""")

# ---- C26
STEP = """
import sqpdfo
import sqpdfo.sqpdfo_global_variables as glob
from sqpdfo.sqpdfo_solve_TR_bc import sqpdfo_solve_TR_bc_
dummyUnionStruct = type("record", (), {})


def step(x, lb, ub, delta, M, g, ce=(), ae=None, lm=None, sl=None):
    n, me = len(x), len(ce)
    col = lambda v: np.array(v, float).reshape(-1, 1)
    info, options, values = dummyUnionStruct(), dummyUnionStruct(), dummyUnionStruct()
    info.g, info.ce, info.ae = col(g), col(ce) if me else np.array([]), np.array(ae, float).reshape(me, n) if me else np.array([])
    info.ci, info.ai, info.flag, info.feasn, info.niter = np.array([]), np.array([]), 0, float(np.max(np.abs(ce))) if me else 0.0, 1
    info.nsimul = np.zeros(5)
    options.verbose, options.fout, options.inf, options.dxmin, options.tol_grad, options.tol_feas, options.tol_bnds = 0, sys.stdout, 1e20, 1e-16, 1e-6, 1e-6, 1e-6
    for k, v in dict(success=0, fail_unexpected=15, fail_on_argument=1).items():
        setattr(values, k, v)
    k = 0 if sl is None else len(sl)
    glob.set_nbr_slacks(k)
    glob.set_slacks(col(sl) if k else np.array([]))
    lb, ub = list(lb) + [0.0] * k, list(ub) + [1e20] * k
    lm = np.zeros(n + me) if lm is None else lm
    o = sqpdfo_solve_TR_bc_(None, col(x), col(lb), col(ub), delta, 0, me, np.array(M, float), 1e-7, 1e-7, info, options, values, False, col(lm), np.array([]), np.array([]), col(g), np.arange(n), nargout=9)
    return (o[0] - col(x)).ravel(), one(o[2]), np.asarray(o[8], float).ravel() if k else None


def one(v):
    return float(np.asarray(v, float).ravel()[0])
"""
bug('s26-slackrow', 'C26', ('sqpdfo_solve_TR_bc.py', '        MM2 = concatenate((zeros((nbr_slacks,n)),0*eye(nbr_slacks)),axis=1)\n', '        MM2 = concatenate((zeros((nbr_slacks,n)),-2*diag(lm[n+me-nbr_slacks:n+me].T[0])),axis=1)\n'),
    'the slack variables get a curvature in the model which the predicted decrease does not have', 'inequalities with multipliers', STEP + """
for t in range(300):
    n = 2
    J, g = rng.randn(1, n), rng.randn(n)
    sl = np.array([0.5 + rng.rand()])
    B = np.eye(n) * (1 + t % 3)
    s, rpred, slp = step(np.zeros(n), [-1e20] * n, [1e20] * n, 0.5, B, g, [sl[0] ** 2], J, np.r_[np.zeros(n), rng.randn()], sl)
    A = np.c_[J, [[-2 * sl[0]]]]
    full = np.r_[s, slp - sl]
    Z = np.linalg.svd(A)[2][1:].T
    gg, MM = np.r_[g, 0], np.zeros((3, 3))
    MM[:2, :2] = B
    gz, Hz = Z.T @ gg, Z.T @ MM @ Z
    a = min(0.5 / np.linalg.norm(gz), gz @ gz / (gz @ Hz @ gz))
    cauchy = -a * gz @ gz + 0.5 * a * a * gz @ Hz @ gz
    if gg @ full + 0.5 * full @ MM @ full > cauchy + 1e-7 * (1 + abs(cauchy)):
        fail('the step changes the model by %r, steepest descent by %r', gg @ full + 0.5 * full @ MM @ full, cauchy)
""")
bug('s26-clip', 'C26', ('sqpdfo_solve_TR_bc.py', '            if (x[i] - gradlag[i] >= ub[i]) and (abs(x[i] - ub[i]) < 1e-05):\n', '            if (x[i] + gradlag[i] >= ub[i]) and (abs(x[i] - ub[i]) < 1e-05):\n'),
    'variables at an upper bound are held when the gradient pushes them inside, and free otherwise', 'an iterate at an upper bound with general constraints', STEP + """
for t in range(200):
    n = 3
    J = rng.randn(1, n)
    g = rng.randn(n)
    ub = np.array([0.0, 50.0, 50.0])
    g[0] = -abs(g[0]) - 3
    lam = 0.0
    s, rpred, _ = step(np.zeros(n), [-50.0] * n, ub, 20.0, np.eye(n), g, [0.3], J)
    if s[0] < -1e-9:
        fail('a variable at its upper bound, towards which the gradient pushes it, moves by %r', s[0])
""")

# ---- C27
bug('s27-upper', 'C27', ('sqpdfo_optimality.py', '    bounds=(abs(lb - x) < 1e-05) + (abs(ub - x) < 1e-05)\n', '    bounds=(abs(lb - x) < 1e-05) + (abs(ub - x) < 1e-05) * (lb > -options.inf)\n'),
    'the multiplier of an active upper bound is left out of the gradient of the Lagrangian when the variable has no lower bound', 'an active upper bound of a variable without lower bound', """
for t in range(20):
    n = 1 + t % 3
    z = 1 + rng.rand(n)
    w = 1 + rng.rand(n)
    f = lambda x: float(np.sum(w * (x - z) ** 2))
    x, lm, info, out, F, C = solve(f, np.zeros(n), [-1e20] * n, np.zeros(n) + 0.5, msimul=300)
    if info.flag != 0 or np.abs(x - 0.5).max() > 1e-3:
        fail('status %d at %s, the solution is 0.5', info.flag, x)
""")

# ---- C28
bug('s28-clip', 'C28', ('sqpdfo_augmX_evalf.py', '        ce[ce < -1e25] = -1e25\n', '        ce[ce < -1e25] = 1e25\n'),
    'constraint values below -1e25 are stored with the wrong sign', 'a constraint value below -1e25', '''
import sqpdfo.sqpdfo_augmX_evalf as ae
dummyUnionStruct = type("record", (), {})
info, options, values = dummyUnionStruct(), dummyUnionStruct(), dummyUnionStruct()
info.nsimul, info.flag, options.verbose, values.fail_on_simul = np.zeros(5), 0, 0, 3
for v in (-3e25, 2.0, -np.inf, 5e26):
    o = ae.sqpdfo_augmX_evalf_(lambda k, x: (0, 1.0, np.array([]), np.array([[v]])), np.array([[0.5]]), 1, np.array([[0.0]]), np.array([1.0]), np.array([]), np.array([[0.0]]), 0, np.zeros(1), np.array([]), np.arange(1), 1e25, 1, np.zeros(1), 1, np.ones(1), np.zeros(1), 0, np.ones(1), info, options, values, nargout=10)
    w = min(max(v, -1e25), 1e25)
    if o[3][0, 1] != w:
        fail('constraint value %r is stored as %r', v, o[3][0, 1])
''')
bug('s28-max', 'C28', ('sqpdfo_augmX_evalf.py', '        fX=append(fX, min_(fxmax,real_(fvalue)))\n', '        fX=append(fX, real_(fvalue))\n'),
    'objective values above the maximum are stored without limitation', 'a huge objective value at an improved or trial point', '''
import sqpdfo.sqpdfo_augmX_evalf as ae
dummyUnionStruct = type("record", (), {})
info, options, values = dummyUnionStruct(), dummyUnionStruct(), dummyUnionStruct()
info.nsimul, info.flag, options.verbose, values.fail_on_simul = np.zeros(5), 0, 0, 3
for m in (1,):
    o = ae.sqpdfo_augmX_evalf_(lambda k, x: (0, 1e30, np.array([]), np.array([])), np.array([[0.5]]), m, np.zeros((1, 1)), np.zeros(1), np.array([]), np.array([]), 0, np.zeros(1), np.array([]), np.arange(1), 1e25, 1, np.zeros(1), 1, np.ones(1), np.zeros(1), 0, np.ones(1), info, options, values, nargout=10)
    if o[1][m] != 1e25:
        fail('objective value 1e30 is stored as %r, the maximum is 1e25', o[1][m])
''')

# ---- C29
bug('s29-argmin', 'C29', ('runtime.py', '            ret2 = np.nanargmin(a)  \n', '            ret2 = np.argmin(a)  \n'),
    'the position of the smallest value is that of an undefined entry', 'undefined entries', """
from sqpdfo.runtime import min_, max_
for t in range(50):
    a = rng.randn(5)
    a[rng.randint(5)] = np.nan
    v, k = min_(a, nargout=2)
    if a[k] != v:
        fail('smallest value %r at position %d, where %r is', v, k, a[k])
""")
bug('s29-cond', 'C29', ('runtime.py', '        return s[..., 0] / s[..., -1]\n', '        return s[..., 0] / s[..., min(A.shape[0], 6) - 1]\n'),
    'the condition number of matrices with more than six rows uses the sixth singular value', 'a matrix with at least seven rows and columns', """
from sqpdfo.runtime import cond_
for n in range(1, 10):
    Q = np.linalg.qr(rng.randn(n, n))[0]
    c = cond_(Q @ np.diag(2.0 ** -np.arange(n)))
    if abs(c - 2.0 ** (n - 1)) > 1e-6 * c:
        fail('condition number %r of a matrix of order %d, it is %r', c, n, 2.0 ** (n - 1))
""")

bug('s13-regr', 'C13', ('bcdfo_evalL.py', '    if (whichmodel == 3 and p1 < q):\n', '    if (whichmodel == 3 and p1 <= q):\n'),
    'Lagrange polynomials of a complete regression model are evaluated with the transposed factor', 'the regression model with as many points as coefficients', """
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
from sqpdfo.bcdfo_evalL import bcdfo_evalL_
for n, p in ((2, 5), (2, 6), (2, 8), (3, 10), (1, 3)):
    Y = rng.randn(n, p)
    QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, 3, 1, 1.0, 1.0, 1e15, nargout=4)
    if p < (n + 1) * (n + 2) // 2:
        continue
    y = Y[:, [0]]
    try:
        v = bcdfo_evalL_(QZ, RZ, Y, np.arange(p), y, xb, 3, sc, 1).ravel()
    except Exception as e:
        fail('%r', e)
    if p == (n + 1) * (n + 2) // 2 and np.abs(v - np.eye(p)[0]).max() > 1e-6:
        fail('Lagrange polynomials at the first of %d points: %s', p, v)
""")
bug('s16-multiple', 'C16', ('bcdfo_solve_TR_MS.py', '    ii=find_(abs(numpy.diag(D)) < 1e-10 * maxdiag)\n', '    ii=find_(abs(numpy.diag(D)) == 0)\n'),
    'in the hard case, eigenvalues equal up to rounding to the smallest one are taken for larger ones', 'a multiple smallest eigenvalue and a gradient orthogonal to its eigenvectors', """
from sqpdfo.bcdfo_solve_TR_MS import bcdfo_solve_TR_MS_
for t in range(300):
    n = 3 + t % 3
    Q = np.linalg.qr(rng.randn(n, n))[0]
    d = np.r_[[-1.0] * 2, 1 + rng.rand(n - 2)]
    H = (Q * d) @ Q.T
    H = (H + H.T) / 2
    g = Q[:, 2:] @ rng.randn(n - 2, 1) * 0.1
    s, lam, ns, val = bcdfo_solve_TR_MS_(g, H, 1.0, 1e-6, nargout=9)[:4]
    b = np.r_[[0, 0], (Q.T @ g).ravel()[2:]]
    z = -b / (d + 1.0 + 1e-300)
    z[:2] = [np.sqrt(1 - np.sum(z[2:] ** 2)), 0]
    best = float(b @ z + 0.5 * np.sum(d * z * z))
    m = float((g.T @ s + 0.5 * s.T @ H @ s).item())
    if m > best + 1e-3 * abs(best):
        fail('the step reaches %r, the minimum in the ball is %r', m, best)
""")
bug('s19-both', 'C19', ('blls.py', """                if not isempty_(atub):
                    rhs=rhs - A[0:m,atub].dot(ub[atub])
""", """                if not isempty_(atub) and isempty_(atlb):
                    rhs=rhs - A[0:m,atub].dot(ub[atub])
"""),
    'variables at their upper bound are taken as zero when others are at their lower bound, and the solver stops without success', 'a solution with variables at both kinds of bounds and free ones', """
from sqpdfo.blls import blls_
for t in range(3000):
    n = 3
    A = np.eye(n) * 3 + rng.randn(n, n)
    if np.linalg.cond(A) > 5:
        continue
    b = rng.randn(n, 1) * 5
    lb, ub = -np.ones((n, 1)), np.ones((n, 1))
    try:
        with np.errstate(all='ignore'):
            s, rn, opt, ex = blls_(A, b, lb, ub)
    except Exception as e:
        fail('%r', e)
    if ex != 0:
        fail('exit code %d for a well-conditioned system', ex)
""")
bug('s21-damp', 'C21', ('sqpdfo_bfgs_update.py', '    if (ys < eta * sHs):\n', '    if (ys <= eta ** 6 * sHs):\n'),
    'updates with a small positive curvature are not damped', 'a curvature between 0.0001 and 0.2 of the one of the old matrix', """
from sqpdfo.sqpdfo_bfgs_update import sqpdfo_bfgs_update_
o = type('record', (), {})
for t in range(200):
    n = 2 + t % 3
    info, options, values = o(), o(), o()
    info.flag, options.verbose, values.success, values.fail_unexpected = 0, 0, 0, 15
    s, H = rng.randn(n, 1), np.eye(n)
    y = s * (0.001 + 0.3 * rng.rand())
    M, pc, info, values = sqpdfo_bfgs_update_(H, y, s, 0, info, options, values, nargout=4)
    q = (s.T @ M @ s).item() / (s.T @ s).item()
    if q < 0.2 * (1 - 1e-9):
        fail('curvature along the step drops to %r of the old one', q)
""")
bug('s23-narrow', 'C23', ('sqpdfo_prelim.py', '        if (temp[j] < Delta0 + Delta0):\n', '        if (temp[j] < Delta0):\n'),
    'the first evaluations leave bounds which are between one and two radii apart', 'bounds 1 to 2 apart and a starting point in their upper half', """
for t in range(60):
    n = 1 + t % 3
    lb = rng.randn(n)
    ub = lb + 0.3 + 3 * rng.rand(n)
    x0 = lb + (ub - lb) * rng.rand(n)
    x, lm, info, out, F, C = solve(lambda x: float(np.sum(x ** 2)), x0, lb, ub, msimul=n + 1)
    for p, v in F[:n + 1]:
        if np.max(np.r_[lb - p, np.array(p) - ub]) > 1e-9:
            fail('one of the first evaluations is at %s, the bounds are %s and %s', p, lb, ub)
""")

# ---- C32
LMDEMO = """
for t in range(250):
    n = 1 + t % 3
    z = 2 * rng.randn(n)
    w = 0.3 + rng.rand(n)
    lb = rng.randn(n) - 0.7
    ub = lb + 1.5 * rng.rand(n) + 0.3
    if t % 4 == 1:
        ub = lb + 1e20
    f = lambda x: float(np.sum(w * (x - z) ** 2) + 0.2 * np.sum(np.sin(3 * x)))
    a = rng.randn(n)
    c = [None, lambda x: [float(a @ x + 3)], lambda x: [float(a @ x + 0.5), float(9 - x @ x)]][t % 3]
    mi = [0, 1, 2][t % 3]
    x, lm, info, out, F, C = solve(f, rng.randn(n) * 3, lb, ub, 0, mi, c, msimul=int(2 * n + 2 + t % 40))
    if info.flag not in (0, 5, 6) or len(F) < n + 3:
        continue
    if len(lm) != n + mi:
        fail('%d multipliers for %d variables and %d constraints', len(lm), n, mi)
    for i in range(n):
        lo, up = x[i] < lb[i] + 1.01e-5, x[i] > ub[i] - 1.01e-5
        if (not lo and lm[i] < -1e-9) or (not up and lm[i] > 1e-9):
            fail('multiplier %r of variable %d = %r with bounds %r and %r', lm[i], i, x[i], lb[i], ub[i])
    if info.flag == 0:
        g = 2 * w * (x - z) + 0.6 * np.cos(3 * x) + lm[:n]
        if mi:
            g = g + lm[n] * a
        if mi == 2:
            g = g - 2 * lm[n + 1] * x
        if np.abs(g).max() > 2e-2 * (1 + np.abs(lm).max()):
            fail('gradient of the Lagrangian %s at the solution', g)
        for k in range(mi):
            if abs(lm[n + k] * c(x)[k]) > 2e-2 * (1 + np.abs(lm).max()):
                fail('multiplier %r of inequality %d, which has the value %r', lm[n + k], k, c(x)[k])
"""
bug('s32-stale', 'C32', ('sqpdfo_main.py', '                    if lm_computed == 0:\n', '                    if lm_computed == 0 and constrained_pbl:\n'),
    'with bounds only the multipliers are not recomputed after an accepted step', 'bounds only, a run that ends at a limit right after a step that left or reached a bound', LMDEMO)
bug('s32-lastslack', 'C32', ('sqpdfo_compute_multiplier.py', '    for i in arange(n, n+nbr_slacks):\n', '    for i in arange(n, n+nbr_slacks-1):\n'),
    'the slack variable of the last inequality gets a multiplier of its own, which hides that the inequality is inactive', 'an inactive inequality', LMDEMO)
bug('s32-offset', 'C32', ('sqpdfo_compute_multiplier.py', '        lm = concatenate((lm[0:n],lm[n+nbr_slacks:n+nbr_slacks+me]))\n', '        lm = concatenate((lm[0:n],lm[len(lm)-nbr_slacks:len(lm)],lm[n+nbr_slacks:len(lm)-nbr_slacks]))\n'),
    'with equalities and inequalities the multipliers come in another order than the constraints', 'equality and inequality constraints together', """
for t in range(60):
    n = 2
    z = 2 * rng.randn(n)
    a, b = rng.randn(n), rng.randn(n)
    f = lambda x: float(np.sum((x - z) ** 2))
    c = lambda x: [float(a @ x - 1), float(b @ x + 4 - 0.2 * x @ x)]
    x, lm, info, out, F, C = solve(f, rng.randn(n), None, None, 1, 1, c, msimul=200)
    if info.flag == 0:
        g = 2 * (x - z) + lm[n] * a + lm[n + 1] * (b - 0.4 * x)
        if np.abs(g).max() > 2e-2 * (1 + np.abs(lm).max()):
            fail('gradient of the Lagrangian %s at the solution', g)
""")
# ---- more for properties without a counting bug
VALUES = """
for t in range(500):
    n = 1 + t % 3
    a, z = rng.randn(n), rng.randn(n)
    q = 0.2 + rng.rand()
    f = lambda x: float(np.sum((x - z) ** 2) + 0.5 * np.sum(np.sin(6 * x)) + np.sum(np.abs(x)))
    e = lambda x: float(a @ x - 1 + q * np.sum(x ** 2) + 0.4 * np.sin(5 * x[0]))
    c = (lambda x: [e(x)]) if t % 3 else None
    x, lm, info, out, F, C = solve(f, 2 * rng.randn(n), me=1 if c else 0, c=c, msimul=int(12 + t % 60), miter=int(4 + t % 29), final_degree=['linear', 'diagonal', 'quadratic'][t % 3], whichmodel=['subbasis', 'regression', 'l2norm'][t // 3 % 3])
    v = float(np.asarray(info.f).ravel()[0])
    if info.flag in (0, 5, 6, 15) and abs(v - f(x)) > 1e-8 * (1 + abs(v)):
        fail('reported objective %r, value at the returned point %r (status %d)', v, f(x), info.flag)
    if info.flag in (0, 5, 6, 15) and c and abs(float(np.ravel(info.ce)[0]) - e(x)) > 1e-8 * (1 + abs(e(x))):
        fail('reported constraint %r, value at the returned point %r (status %d)', float(np.ravel(info.ce)[0]), e(x), info.flag)
    if info.flag in (0, 5, 6, 15) and not c and v > F[0][1] + 1e-9 * (1 + abs(v)):
        fail('returned value %r is worse than the first one %r', v, F[0][1])
"""
bug('s02-ibestF', 'C02', ('sqpdfo_main.py', '''                                        glob.set_slacks(slplus)
                                    
                                i_xbest=copy(m)
''', '''                                        glob.set_slacks(slplus)
                                    
'''), 'after an accepted step that replaced a far point late, the returned point is the previous iterate', 'a successful step that can only replace a far point', VALUES)
bug('s02-ibestC', 'C02', ('sqpdfo_main.py', '\n                                    i_xbest=copy(m)\n', '\n'),
    'after an accepted step that replaced a close point late, the returned point is the previous iterate', 'a successful step that can only replace a close point', VALUES)
bug('s02-ceC', 'C02', ('sqpdfo_main.py', '\n                                        info.ce=ceY[:,[0]]\n', '\n                                        info.ce=ceplus if pos else ceY[:,[1]]\n'),
    'wrong', 'a successful step that can only replace a close point', VALUES)
bug('s02-small', 'C02', ('sqpdfo_find_smallf.py', '''    if length_(ceY) > 0:
        info.ce=copy(ceY[:,[0]])
''', '''    if length_(ceY) > 0 and isempty_(info.ce):
        info.ce=copy(ceY[:,[0]])
'''), 'the constraint values in the record stay those of the previous iterate when an improvement of the set moves to a better point', 'a run that ends after such an exchange', VALUES)
bug('s09-strict', 'C09', ('sqpdfo_find_smallf.py', '    if (imin != 0 and fmin < meritY[0]):\n', '    if (imin != 0 and fmin < meritY[0] + Delta * 0.01):\n'),
    'an improvement of the set may move to a slightly worse point', 'an improvement of the interpolation set at the best point of the set', VALUES)
bug('s04-count', 'C04', [('sqpdfo_augmX_evalf.py', '''        info.nsimul[1]=info.nsimul[1] + 1
        msg,fvalue,ci,ce=f(2,y)
        info.f=fvalue
''', '''        msg,fvalue,ci,ce=f(2,y)
        info.f=fvalue
'''), ('sqpdfo_augmX_evalf.py', '    neval=neval + 1\n', '    neval=neval + 1\n    info.nsimul[1]=info.nsimul[1] + 1\n')],
    'evaluations that fail are not counted', 'a failing evaluation', """
for t in range(40):
    n = 1 + t % 3
    cnt = [0]

    def f(x):
        cnt[0] += 1
        if cnt[0] == 2 + t % 17:
            raise ValueError('planned')
        return float(np.sum((x - 1) ** 2) + np.sum(np.sin(5 * x)))
    x, lm, info, out, F, C = solve(f, rng.randn(n))
    if int(info.nsimul[1]) != cnt[0]:
        fail('%d evaluations reported, %d made', info.nsimul[1], cnt[0])
""")
bug('s04-niter', 'C04', ('sqpdfo_main.py', '''                info.niter=info.niter + 1
                
                itype='conv'                
''', '''                itype='conv'                
'''), 'x', 'convergence after an improvement', 'pass')
BF = """
from sqpdfo.helper import dummyOptions, dummyValues
from sqpdfo.sqpdfo_bfgs_update import sqpdfo_bfgs_update_


class Info:
    flag = 0


o = dummyOptions()
o.verbose = 0
for t in range(300):
    n = 2 + t % 2
    s = rng.randn(n, 1)
    y = rng.randn(n, 1) * 10.0 ** rng.uniform(-3, 3)
    Q = np.linalg.qr(rng.randn(n, n))[0]
    B = Q @ np.diag(10.0 ** rng.uniform(-1, 1, n)) @ Q.T
    if t % 5 == 0:
        u = s / np.linalg.norm(s)
        B = np.eye(n) - u @ u.T
        B[np.abs(B) < 1e-15] = 0
        if t % 10 == 0:
            s = np.zeros((n, 1)); s[0] = 1.0
            B = np.eye(n); B[0, 0] = 0.0
            H, pc, info, v = sqpdfo_bfgs_update_(B, y, s, 0, Info(), o, dummyValues())
            if info.flag == 0 or not np.array_equal(H, B):
                fail('a matrix without curvature along the step was updated')
        continue
    H, pc, info, v = sqpdfo_bfgs_update_(B, y, s, 0, Info(), o, dummyValues())
    sBs, ys = float(s.T @ B @ s), float(y.T @ s)
    th = 1.0 if ys >= 0.2 * sBs else 0.8 * sBs / (sBs - ys)
    r = th * y + (1 - th) * B @ s
    if info.flag:
        if float(r.T @ s) > 1e-9:
            fail('update refused')
    elif np.abs(H @ s - r).max() > 1e-7 * (1 + np.abs(H).max()):
        fail('secant equation violated by %r', np.abs(H @ s - r).max())
"""
bug('s21-zerocurv', 'C21', ('sqpdfo_bfgs_update.py', '    if sHs <= 0:\n', '    if sHs < 0:\n'), 'a matrix with zero curvature along the step is updated (division by zero)', 'zero curvature along the step', BF)
bug('s21-negcurv', 'C21', ('sqpdfo_bfgs_update.py', '    if (ys < eta * sHs):\n', '    if (abs(ys) < eta * sHs):\n'), 'updates with clearly negative curvature are refused instead of damped', 'strongly negative curvature along the step', BF)
bug('s21-poscurv', 'C21', ('sqpdfo_bfgs_update.py', '    if (ys < eta * sHs):\n', '    if (ys <= 0):\n'), 'updates with small positive curvature are not damped', 'small positive curvature along the step', BF)
bug('s27-alias', 'C27', ('sqpdfo_optimality.py', '    info.glag=copy(info.g)\n', '    info.glag=info.g\n'), 'the gradient of the objective is overwritten with that of the Lagrangian', 'an active bound', """
from sqpdfo.helper import dummyOptions
from sqpdfo.sqpdfo_optimality import sqpdfo_optimality_
import sqpdfo.sqpdfo_global_variables as glob
glob.set_nbr_slacks(0)


class Info:
    pass


o = dummyOptions()
o.verbose = 0
o.dxmin = 1e-6
o.inf = np.inf
for t in range(20):
    n = 1 + t % 3
    info = Info()
    info.g, info.ae, info.ce, info.ci, info.flag = rng.randn(n, 1), np.array([]), np.array([]), np.array([]), 0
    x = rng.randn(n, 1)
    g = info.g.copy()
    feas, comp, o2 = sqpdfo_optimality_(x, rng.randn(n, 1), x.copy(), x + 2, info, o)
    if not np.array_equal(info.g, g) or not np.array_equal(o2.g, g):
        fail('the gradient of the objective changed from %s to %s', g.ravel(), o2.g.ravel())
""")
bug('s27-norm', 'C27', ('bcdfo_projgrad.py', '        gnorm=max_(gnorm,abs(gn[i,0]))\n', '        gnorm=max_(gnorm,gn[i,0])\n'), 'the norm of the projected gradient ignores negative components', 'a projected gradient whose largest component is negative', """
from sqpdfo.bcdfo_projgrad import bcdfo_projgrad_
for t in range(20):
    n = 1 + t % 4
    g = rng.randn(n, 1)
    nrm, gn = bcdfo_projgrad_(n, np.zeros((n, 1)), g, -np.ones((n, 1)), np.ones((n, 1)))
    if abs(float(np.ravel(nrm)[0]) - np.abs(np.clip(g, -1, 1)).max()) > 1e-12:
        fail('norm %r of %s', nrm, gn.ravel())
""")
TR = """
from sqpdfo.bcdfo_solve_TR_MS import bcdfo_solve_TR_MS_


def best(g, H, D):
    w, V = np.linalg.eigh(H)
    b = V.T @ g
    if w[0] > 0 and np.linalg.norm(b / w) <= D:
        return float(-0.5 * np.sum(b ** 2 / w))
    lo, hi = max(0.0, -w[0]), max(0.0, -w[0]) + np.linalg.norm(g) / D + 1e-12
    for k in range(200):
        m = 0.5 * (lo + hi)
        with np.errstate(all='ignore'):
            r = np.linalg.norm(b / (w + m))
        lo, hi = (m, hi) if r > D else (lo, m)
    s = -b / (w + hi)
    k = D ** 2 - s @ s
    if k > 0:
        s[0] += -np.sign(s[0] or 1.0) * 0
    return float(b @ s + 0.5 * np.sum(w * s ** 2))


for t in range(3000):
    n = 1 + t % 5
    H = rng.randn(n, n)
    H = (H + H.T) * 10.0 ** rng.uniform(-3, 3)
    if t % 3 == 0:
        H = H @ H / max(np.abs(H).max(), 1e-9)
    if t % 7 == 0:
        H -= np.diag(np.diag(H))
    g = rng.randn(n, 1) * 10.0 ** rng.uniform(-4, 3)
    D = 10.0 ** rng.uniform(-3, 2)
    o = bcdfo_solve_TR_MS_(g, H, D, 1e-6)
    s = np.asarray(o[0], float).reshape(-1, 1)
    if np.linalg.norm(g) < 1.01e-6:
        continue
    if np.linalg.norm(s) > D * (1 + 1e-4):
        fail('step of length %r, radius %r', np.linalg.norm(s), D)
    v = float((g.T @ s + 0.5 * s.T @ H @ s)[0, 0])
    b = best(g.ravel(), H, D)
    if v > b + 1e-3 * abs(b):
        fail('model value %r, minimum %r', v, b)
"""
bug('s16-nitmax', 'C16', ('bcdfo_solve_TR_MS.py', '    nitmax   = 300; ', '    nitmax   = 12; '), 'the search for the multiplier gives up early and returns the step for the hard case', 'a problem that needs many iterations', TR)
bug('s16-theta', 'C16', ('bcdfo_solve_TR_MS.py', '    theta    = 1.0e-13; ', '    theta    = 1.0e-6; '), 'the search for the multiplier stops at a wide interval and returns the step for the hard case', 'a multiplier of small relative size', TR)
bug('s16-diag', 'C16', ('bcdfo_solve_TR_MS.py', '    lower=max_(0,goverD - min_(Hnorminf,HnormF))\n', '    lower=max_(0,goverD - max_(abs(numpy.diag(H))))\n'), 'the lower limit of the multiplier uses the diagonal only', 'off-diagonal elements larger than the diagonal', TR)
bug('s16-small', 'C16', ('bcdfo_solve_TR_MS.py', '    if (gnorm ** 2 < epsilon):\n', '    if (gnorm * Delta < epsilon * 1e4):\n'), 'small gradients in small regions are taken for zero', 'small gradient and radius', TR)
bug('s12-hess', 'C12', ('bcdfo_hessP.py', '                    k=k + nsd\n', '                    k=k + n - 1\n'), 'Hessians of models with four or more variables use wrong mixed coefficients', 'full quadratic model of at least four variables', """
from sqpdfo.bcdfo_gradP import bcdfo_gradP_
from sqpdfo.bcdfo_hessP import bcdfo_hessP_
for n in (1, 2, 3, 4, 5):
    q = (n + 1) * (n + 2) // 2
    P = rng.randn(1, q)
    x = rng.randn(n, 1)
    H = bcdfo_hessP_(P, x, np.zeros((n, 1)), np.ones((q, 1)), 0)
    for i in range(n):
        e = np.zeros((n, 1))
        e[i] = 1.0
        d = (bcdfo_gradP_(P, x + e, np.zeros((n, 1)), np.ones((q, 1)), 0) - bcdfo_gradP_(P, x - e, np.zeros((n, 1)), np.ones((q, 1)), 0)) / 2
        if np.abs(d.ravel() - H[:, i]).max() > 1e-8:
            fail('n=%d: column %d of the Hessian is %s, differences give %s', n, i, H[:, i], d.ravel())
""")


# ---- second batch
bug('s27-xor', 'C27', ('sqpdfo_optimality.py', '    bounds=(abs(lb - x) < 1e-05) + (abs(ub - x) < 1e-05)\n', '    bounds=(abs(lb - x) < 1e-05) != (abs(ub - x) < 1e-05)\n'),
    'the multiplier of a variable at both of its bounds is left out of the residual', 'bounds closer together than 2e-5', """
from sqpdfo.helper import dummyOptions
from sqpdfo.sqpdfo_optimality import sqpdfo_optimality_
import sqpdfo.sqpdfo_global_variables as glob


class Info:
    pass


glob.set_nbr_slacks(0)
for t in range(200):
    n = 1 + t % 4
    x = rng.randn(n, 1)
    lb = x - rng.choice([0.0, 1e-6, 1.0], size=(n, 1))
    ub = x + rng.choice([0.0, 1e-6, 1.0], size=(n, 1))
    i = Info()
    i.g, i.ae, i.ai, i.ce, i.ci, i.flag = rng.randn(n, 1), np.array([]), np.array([]), np.array([]), np.array([]), 0
    o = dummyOptions()
    o.verbose, o.inf, o.dxmin = 0, np.inf, 1e-8
    lm = rng.randn(n, 1)
    want = i.g + lm * (((x - lb) < 1e-5) | ((ub - x) < 1e-5))
    feas, comp, i = sqpdfo_optimality_(x, lm, lb, ub, i, o)
    if np.abs(i.glag - want).max() > 1e-12:
        fail('residual %s, must be %s', i.glag.ravel(), want.ravel())
""")
PARTIAL = """
from sqpdfo.bcdfo_evalP import bcdfo_evalP_
from sqpdfo.bcdfo_gradP import bcdfo_gradP_
from sqpdfo.bcdfo_hessP import bcdfo_hessP_
for t in range(300):
    n = 1 + t % 6
    q = (n + 1) * (n + 2) // 2
    k = rng.randint(n + 1, q + 1)
    P = rng.randn(1, k)
    x = rng.randn(n, 1)
    a = (np.zeros((n, 1)), np.ones((k, 1)), 0)
    g, H = bcdfo_gradP_(P, x, *a), bcdfo_hessP_(P, x, *a)
    v = lambda y: float(np.asarray(bcdfo_evalP_(P, y, *a)).item())
    for i in range(n):
        e = np.zeros((n, 1))
        e[i] = 1.0
        if abs((v(x + e) - v(x - e)) / 2 - g[i, 0]) > 1e-8:
            fail('n=%d, %d coefficients: component %d of the gradient is %r, differences give %r', n, k, i, g[i, 0], (v(x + e) - v(x - e)) / 2)
        d = (bcdfo_gradP_(P, x + e, *a) - bcdfo_gradP_(P, x - e, *a)) / 2
        if np.abs(d.ravel() - H[:, i]).max() > 1e-8:
            fail('n=%d, %d coefficients: column %d of the Hessian is %s, differences give %s', n, k, i, H[:, i], d.ravel())
"""
bug('s12-partgrad', 'C12', ('bcdfo_gradP.py', 'g[0:nsd]=g[0:nsd] + P[k :k + nsd] * (x[i + 1:i + nsd+1])', 'g[0:nsd]=g[0:nsd] + P[k :k + nsd] * (x[n - nsd:n])'),
    'gradients of models with an incomplete subdiagonal take the wrong variables', 'models whose last subdiagonal is incomplete', PARTIAL)
bug('s12-parthess', 'C12', ('bcdfo_hessP.py', [] and '' or '                        H[i + j+1,j]=P[k + j]\n                        H[j,i + j+1]=P[k + j]\n', '                        H[n - nsd + j,j]=P[k + j]\n                        H[j,n - nsd + j]=P[k + j]\n'),
    'Hessians of models with an incomplete subdiagonal have elements at the wrong place', 'models whose last subdiagonal is incomplete', PARTIAL)
bug('s16-root', 'C16', ('bcdfo_solve_TR_MS.py', '        root=max(p2.r)\n', '        root=Delta - nscri\n'),
    'in the hard case the step stops short of the border of the ball', 'hard case', """
from sqpdfo.bcdfo_solve_TR_MS import bcdfo_solve_TR_MS_
for t in range(400):
    n = 2 + t % 4
    w = np.sort(rng.randn(n))
    w[0] = -abs(w[0]) - 0.1
    w[1:] = np.maximum(w[1:], w[0] + 0.5)
    Q = np.linalg.qr(rng.randn(n, n))[0] if t % 2 else np.eye(n)
    H = Q @ np.diag(w) @ Q.T
    H = (H + H.T) / 2
    b = rng.randn(n)
    b[0] = 0.0
    g = (Q @ b).reshape(-1, 1)
    sc = Q[:, 1:] @ (-b[1:] / (w[1:] - w[0]))
    D = float(np.linalg.norm(sc)) * rng.uniform(1.1, 3)
    s = np.asarray(bcdfo_solve_TR_MS_(g, H, D, 1e-6)[0], float).reshape(-1, 1)
    v = float((g.T @ s + 0.5 * s.T @ H @ s)[0, 0])
    best = float(g.ravel() @ sc + 0.5 * sc @ H @ sc + 0.5 * w[0] * (D ** 2 - sc @ sc))
    if np.linalg.norm(s) > D * (1 + 1e-5) or v > best + 1e-3 * abs(best):
        fail('model value %r, minimum %r, step %r of %r', v, best, np.linalg.norm(s), D)
""")
bug('s16-double', 'C16', ('bcdfo_solve_TR_MS.py', '    ii=find_(abs(numpy.diag(D)) < 1e-10 * maxdiag)\n', '    ii=find_(numpy.diag(D) <= 0)\n'),
    'in the hard case a smallest eigenvalue that is double up to rounding is taken for two different ones', 'hard case with a double smallest eigenvalue', """
from sqpdfo.bcdfo_solve_TR_MS import bcdfo_solve_TR_MS_
for t in range(600):
    n = 3 + t % 3
    w = np.sort(rng.randn(n))
    w[0] = w[1] = -abs(w[0]) - 0.1
    w[2:] = np.maximum(w[2:], w[0] + 0.5)
    Q = np.linalg.qr(rng.randn(n, n))[0]
    H = Q @ np.diag(w) @ Q.T
    H = (H + H.T) / 2
    b = rng.randn(n)
    b[:2] = 0.0
    g = (Q @ b).reshape(-1, 1)
    sc = Q[:, 2:] @ (-b[2:] / (w[2:] - w[0]))
    D = float(np.linalg.norm(sc)) * rng.uniform(1.1, 3)
    s = np.asarray(bcdfo_solve_TR_MS_(g, H, D, 1e-6)[0], float).reshape(-1, 1)
    v = float((g.T @ s + 0.5 * s.T @ H @ s)[0, 0])
    best = float(g.ravel() @ sc + 0.5 * sc @ H @ sc + 0.5 * w[0] * (D ** 2 - sc @ sc))
    if not np.linalg.norm(s) <= D * (1 + 1e-5) or v > best + 1e-3 * abs(best):
        fail('model value %r, minimum %r, step %r of %r', v, best, np.linalg.norm(s), D)
""")
bug('s02-index', 'C02', ('sqpdfo_find_smallf.py', '        i_xbest=copy(ind_Y[0])\n', '        i_xbest=copy(ind_Y[imin])\n'),
    'after an improvement found the best point, the index of the best point is that of the former one', 'a point found while improving the set is the best and the run ends before another is accepted', VALUES)
INSIDE = """
# the objective decreases across a bound and improvement points may lie outside
for t in range(400):
    n = 1 + t % 3
    w = rng.choice([-1.0, 1.0], size=n) * rng.uniform(0.1, 3, n)
    k = rng.uniform(0, 2)
    x0 = rng.uniform(-1, 1, n)
    x, lm, info, out, F, C = solve(lambda x: float(w @ x + k * np.sum(np.sin(3 * x))), x0, [-1.0] * n, [1.0] * n,
                                   miter=int(rng.choice([3, 6, 12, 50])))
    if (x < -1 - 1e-12).any() or (x > 1 + 1e-12).any():
        fail('returned point %s outside [-1, 1]', x)
"""
BNDCON = """
for t in range(500):
    n = 1 + t % 3
    a, w = rng.randn(n), rng.choice([-1.0, 1.0], size=n) * rng.uniform(0.1, 3, n)
    k, q, ins = rng.uniform(0, 1), rng.uniform(0, 1), t % 2
    x0 = rng.uniform(-1, 1, n)
    f = lambda x: float(w @ x + k * np.sum(x ** 2))
    c = lambda x: [float(a @ x - 0.3 + q * np.sum(x ** 2))]
    lb, ub = -rng.uniform(0.2, 1, n), rng.uniform(0.2, 1, n)
    x, lm, info, out, F, C = solve(f, x0, lb, ub, me=1 - ins, mi=ins, c=c, miter=int(rng.choice([3, 6, 12, 50])))
    if (x < lb - 1e-6).any() or (x > ub + 1e-6).any():
        fail('returned point %s outside [%s, %s]', x, lb, ub)
"""
TB = 'sqpdfo_solve_TR_bc.py'
bug('s01-threshold', 'C01', (TB, '    threshold=1e-08', '    threshold=1e-04'),
    'steps may cross a bound by up to 1e-4', 'constraints and a step that ends just outside a bound', BNDCON)
bug('s01-order', 'C01', (TB, '            elif (abs(xnew[i] - lb[i]) < 1e-07):\n                x_active[i]=-(i+1)\n                if options.verbose >= 3:\n                    disp_(\'lb \',str(i),\' is active\')\n', '            elif (abs(xnew[i] - lb[i]) < 1e-07 or abs(x[i] - lb[i]) < 1e-07):\n                x_active[i]=-(i+1)\n                if options.verbose >= 3:\n                    disp_(\'lb \',str(i),\' is active\')\n'),
    'a step from a lower bound beyond the upper bound is not noticed', 'constraints and a variable that moves from one bound past the other', BNDCON)
bug('s01-upperact', 'C01', (TB, '            elif (xnew[i] - ub[i] > threshold):\n', '            elif (xnew[i] - ub[i] > threshold and x[i] < ub[i]):\n'),
    'a step across an upper bound at which the iterate already is is not noticed', 'constraints and an iterate at its upper bound', BNDCON)
bug('s01-viol', 'C01', (TB, '                constraints=concatenate_([constraints,array([[0]])])\n                gconstraints=concatenate_([gconstraints,I[[i],:]])\n                violated=1\n                break\n                \n            elif (abs(xnew[i] - ub[i]) < 1e-07)', '                constraints=concatenate_([constraints,array([[0]])])\n                gconstraints=concatenate_([gconstraints,I[[i],:]])\n                violated=i\n                break\n                \n            elif (abs(xnew[i] - ub[i]) < 1e-07)'),
    'a violated upper bound of the first variable is taken for feasible', 'constraints and an active upper bound of the first variable', BNDCON)

bug('s02-fxmin', 'C02', ('sqpdfo_main.py', """                    fx=copy(fxplus)
                    i_xbest=copy(m)
                    
                    if (not shift_Y):
                        x=copy(Y[:,[0]])
                        
                    poised_model=0
""", """                    fx=min_(fx,fxplus)
                    i_xbest=copy(m)
                    
                    if (not shift_Y):
                        x=copy(Y[:,[0]])
                        
                    poised_model=0
"""), 'the reported objective is the smallest one of the iterates, not that of the last', 'an accepted step that gains feasibility and loses in the objective', VALUES)
bug('s14-ceswap', 'C14', ('sqpdfo_swap_in_Y.py', '        ce=copy(ceY[:,ii])\n', '        ce=ceY[:,ii]\n'), 'exchanging two points gives both the constraint values of the second', 'constraints', """
from sqpdfo.sqpdfo_swap_in_Y import sqpdfo_swap_in_Y_
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
for t in range(50):
    n = 1 + t % 3
    Y = rng.randn(n, n + 1)
    QZ, RZ, xb, sc = bcdfo_build_QR_of_Y_(Y, 0, 1, 1, 1, 1e15)
    ce = rng.randn(2, n + 1)
    j = int(rng.randint(1, n + 1))
    o = sqpdfo_swap_in_Y_(0, j, QZ, RZ, Y.copy(), np.arange(n + 1), rng.randn(n + 1), np.array([]), ce.copy(), Y[:, [0]].copy(), 0, sc, 1, 1, 1, 1e15)
    if not np.array_equal(np.asarray(o[6])[:, [0, j]], ce[:, [j, 0]]):
        fail('constraint values %s, must be %s', np.asarray(o[6])[:, [0, j]].tolist(), ce[:, [j, 0]].tolist())
""")
bug('s09-horizon', 'C09', ('sqpdfo.py', '        Delta0       = 1 ' if False else '    Deltamax = factor_Dmax * Delta0\n', '    Deltamax = min_(factor_Dmax, options.miter) * Delta0\n'),
    'short runs take other steps than the first part of longer runs', 'a region that grows above the number of iterations allowed', """
for t in range(60):
    n = 1 + t % 3
    w = rng.randn(n)
    z = rng.choice([-1.0, 1.0], size=n) * 10.0 ** rng.uniform(1, 4)
    f = lambda x: float(np.sum(np.abs(x - z) ** 1.5) + w @ x)
    a = solve(f, rng.randn(n), miter=int(3 + t % 12))[4]
    st = rng.get_state()
for t in range(60):
    n = 1 + t % 3
    w = rng.randn(n)
    z = rng.choice([-1.0, 1.0], size=n) * 10.0 ** rng.uniform(1, 4)
    x0 = rng.randn(n)
    f = lambda x: float(np.sum(np.abs(x - z) ** 1.5) + w @ x)
    a = solve(f, x0, miter=int(3 + t % 12))[4]
    b = solve(f, x0, miter=60)[4]
    a, b = [u[0] for u in a], [u[0] for u in b]
    if a[:len(b)] != b[:len(a)]:
        k = next(i for i in range(len(a)) if a[i] != b[i])
        fail('evaluation %d is at %s with %d iterations allowed and at %s with 60', k, a[k], 3 + t % 12, b[k])
""")
CVX = """
for t in range(60):
    n = 1 + t % 3
    Q = np.linalg.qr(rng.randn(n, n))[0]
    H = Q @ np.diag(rng.uniform(0.5, 5, n)) @ Q.T
    z = rng.uniform(-2, 2, n)
    f = lambda x: float(0.5 * (x - z) @ H @ (x - z))
    x, lm, info, out, F, C = solve(f, rng.uniform(-3, 3, n), miter=300, msimul=600)
    if f(x) > 1e-4:
        fail('objective %r above the minimum after %d evaluations, status %r', f(x), len(F), info.flag)
"""
OLD = """                    fx=copy(fxplus)
                    i_xbest=copy(m)
                    
                    if (not shift_Y):
                        x=copy(Y[:,[0]])
                        
                    poised_model=0
"""
bug('s02-fxrho', 'C02', ('sqpdfo_main.py', OLD, OLD.replace('fx=copy(fxplus)', 'fx=copy(fxplus) if rho < 2 else copy(fY[pos])')),
    'after an accepted step that was much better than predicted the reported objective is that of another point of the set', 'a final accepted step with at least twice the predicted decrease', VALUES)
bug('s02-fxpos', 'C02', ('sqpdfo_main.py', OLD, OLD.replace('fx=copy(fxplus)', 'fx=copy(fY[pos]) if cur_degree == pfinal and rho > eta2 else copy(fxplus)')),
    'after a very successful step with a full model the reported objective is that of the former iterate', 'a final accepted step that was very successful', VALUES)
bug('s02-fxtol', 'C02', ('sqpdfo_main.py', OLD, OLD.replace('fx=copy(fxplus)', 'fx=copy(fxplus) if fxplus < fx or ared > 1e-6 else copy(fx)')),
    'accepted steps that gain little in feasibility at the cost of the objective leave the old objective in the report', 'an accepted step with a rise in the objective and a small gain', VALUES)

CVX2 = CVX.replace('range(60)', 'range(240)').replace('miter=300', "whichmodel=['subbasis', 'frobnorm', 'l2norm', 'regression'][t % 4], final_degree=['linear', 'diagonal', 'quadratic'][t // 4 % 3], hess_approx='model', bfgs_restart=0, miter=500").replace('msimul=600', 'msimul=1000')
bug('s08-redD', 'C08', ('sqpdfo_main.py', '(delta < stallfact * norm_(x) or delta < epsilon * 1e-5):', '(delta < stallfact * norm_(x) or delta < epsilon * 1e4):'), 'runs end after a refused step as soon as the radius is below 0.1', 'refused steps far from the solution', CVX2)
bug('s08-impr', 'C08', ('sqpdfo_main.py', '(radius < stallfact * norm_(x) or radius < epsilon * 1e-5):', '(radius < stallfact * norm_(x) or radius < epsilon * 1e2):'), 'runs end with small improvement radius', 'improvements far from the solution', CVX2)
bug('s08-tr', 'C08', ('sqpdfo_solve_TR_bc.py', 'bcdfo_solve_TR_MS_bc_(glocal,M,lb_r,ub_r,delta,1e-07,', 'bcdfo_solve_TR_MS_bc_(glocal,M,lb_r,ub_r,delta,1e-01,'), 'x', 'x', CVX2)
bug('s08-act', 'C08', ('sqpdfo_solve_TR_bc.py', '        if norm_(s) < delta:\n            active_t=0\n        else:\n            active_t=1\n', '        active_t=0\n'), 'the region is never enlarged in runs without constraints', 'x', CVX2)
bug('s08-grow', 'C08', ('sqpdfo_main.py', '                    if rho >= eta2:\n', '                    if rho >= eta2 and delta > 1:\n'), 'x', 'x', CVX2)


bug('s05-nested', 'C05', [('sqpdfo_augmX_evalf.py', """        msg,fvalue,ci,ce=f(2,y)
""", """        work['X']=X
        (msg,fvalue,ci,ce),X=f(2,y),work['X']
"""), ('sqpdfo_augmX_evalf.py', """def sqpdfo_augmX_evalf_(""", """work={}

def sqpdfo_augmX_evalf_(""")],
    'the set of points is kept in module-level storage during the evaluation', 'an objective which itself runs the optimiser', """
def inner(y):
    return float((y[0] - 3) ** 2 + (y[1] + 1) ** 2)


def plain(x):
    return float((x[0] - 1) ** 2 + 2 * (x[1] + 2) ** 2)


def outer(x):
    solve(inner, [0.5, 0.5], miter=2)
    return plain(x)
a = solve(plain, [0.0, 0.0], miter=8)
b = solve(outer, [0.0, 0.0], miter=8)
if [p for p, _ in a[4]] != [p for p, _ in b[4]]:
    fail('other points with runs inside: %r, without: %r', b[4][:6], a[4][:6])
""")
bug('s07-prefix', 'C07', ('sqpdfo_options.py', """        if 'linear' == options.final_degree.lower().replace(" ", ""):""",
    """        if options.final_degree.lower().replace(" ", "").startswith('linear'):"""),
    'names which only begin with the name of a model degree are accepted', 'a final degree such as "linear2"', """
x, lm, info, out, F, C = solve(lambda x: float(x @ x), [1.0, 2.0], final_degree='linear2', miter=3)
if info.flag != 1 or F:
    fail('degree linear2 accepted: status %r, %d evaluations', info.flag, len(F))
""")
bug('s10-blank', 'C10', ('sqpdfo_options.py', """        elif 'frobnorm' == options.whichmodel.lower().replace(" ", ""):""",
    """        elif 'frobnorm' == options.whichmodel.lower().strip():"""),
    'a blank inside the name of the minimum Frobenius norm model is not accepted', 'the spelling "Frob norm"', """
x, lm, info, out, F, C = solve(lambda x: float(x @ x), [1.0, 2.0], whichmodel='Frob norm', miter=3)
if info.flag == 1 or not F:
    fail('name "Frob norm" refused')
""")
