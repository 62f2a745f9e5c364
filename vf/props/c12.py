"""Gradient and Hessian of a model are the exact derivatives of the values it returns."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Part, require, sut

RULE = 'a case counts when at least one non-constant coefficient is non-zero'


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    q = gen.nquad(n)
    k = draw(st.sampled_from([n + 1, 2 * n + 1, q, None, None]))
    if k is None:
        k = draw(st.integers(n + 1, q))
    k = min(k, q)
    co = draw(st.lists(st.one_of(st.just(0.0), gen.num(-5, 5)), min_size=k, max_size=k))
    return {'n': n, 'co': co, 'cs': draw(gen.scale(-4, 4)), 'xb': draw(gen.vec(n, -5, 5)),
            'x': draw(gen.vec(n, -5, 5)), 'y': draw(gen.vec(n, -5, 5)), 's': draw(gen.scale(-3, 3)),
            'shift': draw(st.sampled_from([1, 1, 0]))}


def body(c, rec):
    from sqpdfo.bcdfo_evalP import bcdfo_evalP_
    from sqpdfo.bcdfo_gradP import bcdfo_gradP_
    from sqpdfo.bcdfo_hessP import bcdfo_hessP_
    n, k, sh = c['n'], len(c['co']), c['shift']
    q = gen.nquad(n)
    P = np.array([c['co']]) * c['cs']
    if not np.any(P[0, 1:]):
        rec.trivial()
    rec.label('shift' if sh else 'noshift', 'lin' if k == n + 1 else 'full' if k == q else 'partial')
    s = c['s'] if sh else 1.0
    xb = np.array(c['xb']).reshape(-1, 1)
    x = np.array(c['x']).reshape(-1, 1)
    y = np.array(c['y']).reshape(-1, 1)
    sc = np.concatenate([[1.0], np.full(n, s), np.full(q - n - 1, s * s)])[:k].reshape(-1, 1)
    if not sh:
        sc = np.ones((k, 1))
    args = (P.copy(), x.copy(), xb.copy(), sc.copy())
    with sut('evaluating the model'):
        v = np.asarray(bcdfo_evalP_(P, x, xb, sc, sh), float)
        vy = np.asarray(bcdfo_evalP_(P, y, xb, sc, sh), float)
        g = np.asarray(bcdfo_gradP_(P, x, xb, sc, sh), float)
        H = np.asarray(bcdfo_hessP_(P, x, xb, sc, sh), float)
    for a, b in zip(args, (P, x, xb, sc)):
        require(np.array_equal(a, b), 'an argument was modified')
    c0, gr, Hr = ref.unpack(P, n)
    off = xb if sh else np.zeros((n, 1))
    z = s * (x - off).ravel()
    zy = s * (y - off).ravel()
    big = (np.abs(P).max() * max(1.0, np.abs(z).max(), np.abs(zy).max()) ** 2) * k
    require(v.size == 1 and abs(v.item() - ref.quad(c0, gr, Hr, z)) <= 1e-12 * big, 'model value wrong: %r', v)
    require(vy.size == 1 and abs(vy.item() - ref.quad(c0, gr, Hr, zy)) <= 1e-12 * big, 'model value wrong: %r', vy)
    require(g.shape == (n, 1), 'gradient has shape %s', g.shape)
    require(H.shape == (n, n), 'Hessian has shape %s', H.shape)
    gt = s * (gr + Hr @ z)
    require(np.abs(g.ravel() - gt).max() <= 1e-12 * big * s, 'gradient %s instead of %s', g.ravel().tolist(), gt.tolist())
    require(np.abs(H - s * s * Hr).max() <= 1e-12 * np.abs(P).max() * s * s, 'Hessian is not the second derivative')
    require(np.array_equal(H, H.T), 'Hessian is not symmetric')
    # Taylor expansion from x to y, using only values returned by the code
    d = (y - x).ravel()
    t = v.item() + g.ravel() @ d + 0.5 * d @ H @ d
    require(abs(t - vy.item()) <= 1e-11 * big * max(1.0, np.abs(s * d).max()) ** 2, 'Taylor expansion does not match')


PARTS = [Part('derivatives', cases(), body, 4000, 60000, shards=8)]
