"""The array helpers (MATLAB conventions) that every other part is written with."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Part, require, sut

RULE = 'a case counts when the array has at least two elements'
ASSUMPTIONS = ['matrices have singular values that are exactly representable ratios away from the rank threshold']
VALS = [0.0, 0.0, 1.0, -1.0, 0.5, 2.0, -3.25, 1e-8, -1e9, np.inf, -np.inf, np.nan]


@st.composite
def arrays(draw, special=True):
    kind = draw(st.sampled_from(['flat', 'row', 'column', 'matrix', 'column', 'empty']))
    k = draw(st.integers(1, 6))
    shape = {'flat': [k], 'row': [1, k], 'column': [k, 1], 'matrix': [k, draw(st.integers(1, 5))], 'empty': draw(st.sampled_from([[0], [0, 1], [0, 3], [2, 0]]))}[kind]
    m = int(np.prod(shape))
    vals = draw(st.lists(st.sampled_from(VALS if special else VALS[:9]), min_size=m, max_size=m))
    return {'shape': shape, 'v': vals}


def mk(a):
    return np.array(a['v'], dtype=float).reshape(a['shape'])


@st.composite
def element_cases(draw):
    return {'a': draw(arrays()), 'd': draw(st.sampled_from([0.0, 1.0, -2.5, np.inf, np.nan])), 'b': draw(arrays()), 'k': draw(st.integers(1, 3)), 'like': draw(st.booleans())}


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def elements(c, rec):
    from sqpdfo import runtime as R
    a, d, b = mk(c['a']), c['d'], mk(c['b'])
    if a.size < 2:
        rec.trivial()
    keep, keepb = a.copy(), b.copy()
    flat = a.ravel()
    num = flat[~np.isnan(flat)]
    with sut('helpers'):
        require(bool(R.isempty_(a)) == (a.size == 0), 'isempty of %s', a.tolist())
        require(R.length_(a) == max(a.shape), 'length of %s is %r', a.tolist(), R.length_(a))
        for k in (1, 2):
            require(R.size_(a, k) == (a.shape[k - 1] if k <= a.ndim else 1), 'size of %s in direction %d is %r', a.tolist(), k, R.size_(a, k))
        require(list(np.ravel(R.size_(a))) == list(a.shape), 'size of %s', a.tolist())
        idx = [i for i in range(flat.size) if flat[i] != 0]
        f = R.find_(a)
        require(list(np.ravel(f)) == idx and (not idx or np.shape(f) == (len(idx), 1)), 'find in %s gives %s', a.tolist(), np.asarray(f).tolist())
        if len(idx) >= c['k']:
            f = R.find_(a, c['k'])
            require(list(np.ravel(f)) == idx[:c['k']], 'the first %d of find in %s are %s', c['k'], a.tolist(), np.asarray(f).tolist())
        if a.ndim == 2 and a.size:
            i, j = R.find_(a, nargout=2)
            require([(int(p), int(q)) for p, q in zip(np.ravel(i), np.ravel(j))] == [(p, q) for p in range(a.shape[0]) for q in range(a.shape[1]) if a[p, q] != 0], 'find rows and columns')
        if a.size == 0:
            require(R.isempty_(R.max_(a)) and R.isempty_(R.min_(a)), 'extreme value of an empty array')
        elif num.size:
            for fun, best in ((R.max_, max), (R.min_, min)):
                v, i = fun(a, nargout=2)
                require(v == best(num) and (np.isinf(v) or i == list(flat).index(v)), 'extreme value of %s: %r at %r', a.tolist(), v, i)
                require(fun(a) == v, 'extreme value of %s: %r', a.tolist(), fun(a))
        if a.size:
            other = np.full(a.shape, d) if c['like'] else d
            for fun, op in ((R.max_, max), (R.min_, min)):
                want = [x if np.isnan(d) else d if np.isnan(x) else op(x, d) for x in flat]
                require(same(fun(a, other), np.array(want).reshape(a.shape)), 'pairwise extreme value of %s and %r is %s', a.tolist(), d, np.asarray(fun(a, other)).tolist())
        u = sorted(set(num) - set(b.ravel().tolist()))
        if not np.isnan(flat).any() and not np.isnan(b).any():
            require(list(np.ravel(R.setdiff_(a, b))) == u, 'difference of %s and %s', a.tolist(), b.tolist())
        # norms
        fin = flat[np.isfinite(flat)]
        if fin.size == a.size and a.size and 1 in a.shape + (1,) and (a.ndim == 1 or min(a.shape) == 1):
            require(abs(R.norm_(a) - np.sqrt(np.sum(flat ** 2))) <= 1e-12 * (1 + np.abs(flat).max()), 'norm of %s is %r', a.tolist(), R.norm_(a))
            require(R.norm_(a, np.inf) == np.abs(flat).max(), 'infinity norm of %s is %r', a.tolist(), R.norm_(a, np.inf))
        elif fin.size == a.size and a.size:
            ref = np.sqrt(max(np.linalg.eigvalsh(a.T @ a)[-1], 0))
            require(abs(R.norm_(a) - ref) <= 1e-6 * (1 + ref), 'norm of %s is %r', a.tolist(), R.norm_(a))
            require(abs(R.norm_(a, 'fro') - np.sqrt(np.sum(flat ** 2))) <= 1e-12 * (1 + np.abs(flat).max()), 'Frobenius norm of %s', a.tolist())
            require(R.norm_(a, np.inf) == np.abs(a).sum(1).max(), 'infinity norm of %s', a.tolist())
        require(a.size or R.norm_(a) == 0, 'norm of an empty array')
        # stacking leaves empty parts out
        if a.ndim == 2:
            parts = [x for x in (a, a[:1], a) if x.size]
            r = R.concatenate_([a, np.array([]), a[:1], a])
            require(same(r, np.array([row for x in parts for row in x.tolist()])) if parts else r.size == 0, 'stacking %s below each other', a.tolist())
            r = R.concatenate_([np.array([]), a, a[:, :1], np.array([])], axis=1)
            parts = [x for x in (a, a[:, :1]) if x.size]
            if parts:
                want = [sum([x.tolist()[i] for x in parts], []) for i in range(a.shape[0])]
                require(same(r, np.array(want)), 'stacking %s beside each other', a.tolist())
        if a.ndim == 2:
            require(same(R.zeros_(R.size_(a)), np.zeros(a.shape)) and same(R.ones_(R.size_(a)), np.ones(a.shape)), 'constant array of size %s', list(a.shape))
        require(same(R.zeros_(c['k'], 2), np.zeros((c['k'], 2))) and same(R.eye_(c['k']), np.diag(np.ones(c['k']))), 'constant arrays')
        require(same(R.logical_or_(a > 0, a < 0), (a != 0) & ~np.isnan(a)), 'or')
        require(same(R.sign_(a), np.where(np.isnan(a), np.nan, np.where(a > 0, 1.0, np.where(a < 0, -1.0, 0.0)))), 'sign')
        require(R.strcat_('x', c['k'], 2.5) == 'x' + str(c['k']) + '2.5', 'joined text')
    require(same(a, keep) and same(b, keepb), 'an argument was modified')
    rec.label('size%d' % min(a.size, 3))


@st.composite
def linear_cases(draw):
    m, n = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    k = min(m, n)
    return {'m': m, 'n': n, 's': draw(st.lists(st.sampled_from([0.0, 0.125, 1.0, 3.0, 20.0, 100.0]), min_size=k, max_size=k)), 'u': draw(gen.vec(m, -1, 1)), 'v': draw(gen.vec(n, -1, 1)),
            'scale': draw(gen.scale(-6, 6)), 'neg': draw(st.booleans())}


def linear(c, rec):
    from sqpdfo import runtime as R
    m, n = c['m'], c['n']
    k = min(m, n)
    s = np.array(c['s']) * c['scale']

    def orth(v):
        v = np.round(np.array(v), 6).reshape(-1, 1)
        return np.eye(len(v)) - 2 * v @ v.T / float((v.T @ v).item()) if np.any(v) else np.eye(len(v))
    U, V = orth(c['u']), orth(c['v'])
    D = np.zeros((m, n))
    D[:k, :k] = np.diag(s)
    A = U @ D @ V.T
    keep = A.copy()
    if m * n < 2:
        rec.trivial()
    top, low = s.max(), s.min()
    rank = int((s > 0).sum())
    with sut('helpers'):
        if rank == k:
            cond = float(R.cond_(A))
            require(abs(cond - top / low) <= 1e-9 * top / low, 'condition number %r instead of %r', cond, top / low)
            N = R.null_(A)
            require(N.shape == (n, n - k), 'null space of shape %s for a %dx%d matrix of full rank', N.shape, m, n)
            if N.size:
                require(np.abs(A @ N).max() <= 1e-12 * top and np.abs(N.T @ N - np.eye(n - k)).max() <= 1e-12, 'null space is not orthonormal or not mapped to zero')
        elif top > 0:
            require(R.cond_(A) > 1e13, 'condition number %r of a singular matrix', R.cond_(A))
        else:
            require(R.cond_(A) == np.inf, 'condition number %r of the zero matrix', R.cond_(A))
            require(np.asarray(R.null_(A)).shape == (n, n), 'null space of the zero matrix')
        P = R.pinv_(A)
        tol = 1e-10 * (top / s[s > 0].min() if rank else 1)
        require(np.abs(A @ P @ A - A).max() <= tol * max(top, 1e-300) and np.abs((A @ P) - (A @ P).T).max() <= tol and np.abs((P @ A) - (P @ A).T).max() <= tol, 'pseudo-inverse')
        Q, T = R.qr_(A)
        require(np.abs(Q @ T - A).max() <= 1e-12 * max(top, 1e-300) and np.abs(np.tril(T, -1)).max() == 0 and np.abs(Q.T @ Q - np.eye(Q.shape[1])).max() <= 1e-12, 'orthogonal factorization')
        S = V @ np.diag(np.array(c['v']) * 0 + 1.0 + np.arange(n)) @ V.T * c['scale']
        S = (S + S.T) / 2
        if c['neg']:
            S = S - 1.5 * c['scale'] * np.eye(n)
        L, p = R.chol_(S)
        if c['neg']:
            require(p != 0, 'factorization of an indefinite matrix succeeded')
        else:
            require(p == 0 and np.abs(L.T @ L - S).max() <= 1e-12 * n * n * c['scale'] and np.abs(np.tril(L, -1)).max() == 0, 'triangular factor')
            I = R.inv_(S)
            require(np.abs(I @ S - np.eye(n)).max() <= 1e-10, 'inverse')
    require(np.array_equal(A, keep), 'an argument was modified')
    rec.label('%dx%d' % (m, n) if m * n < 3 else ('wide' if m < n else 'tall' if m > n else 'square'), 'rank%d' % (rank == k), 'neg%d' % c['neg'])


PARTS = [Part('elements', element_cases(), elements, 4000, 60000, shards=8), Part('linear', linear_cases(), linear, 4000, 60000, shards=8)]
