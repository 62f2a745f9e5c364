"""Reference models: quadratic polynomials in the ordering used for model coefficients
(constant, linear, halved squares, then products x_i x_(i-k) for k = 1, 2, ...)."""
import numpy as np


def nq(n):
    return (n + 1) * (n + 2) // 2


def pairs(n):
    return [(i + k, i) for k in range(1, n) for i in range(n - k)]


def unpack(P, n):
    """Coefficients (possibly truncated) -> c, g, H."""
    P = list(np.asarray(P, float).ravel())
    P = P + [0.0] * (nq(n) - len(P))
    g = np.array(P[1:n + 1])
    H = np.diag(np.array(P[n + 1:2 * n + 1]))
    for (i, j), v in zip(pairs(n), P[2 * n + 1:]):
        H[i, j] = H[j, i] = v
    return P[0], g, H


def basis(z, q):
    """First q basis functions at the flat vector z."""
    z = np.asarray(z, float).ravel()
    n = len(z)
    b = [1.0] + list(z) + list(0.5 * z * z) + [z[i] * z[j] for i, j in pairs(n)]
    return np.array(b[:q])


def matrix(Y, q, shift):
    """Rows: basis at each (shifted and scaled) point; Y is n x p."""
    Y = np.asarray(Y, float)
    base, s = np.zeros(Y.shape[0]), 1.0
    if shift:
        base = Y[:, 0].copy()
        d = np.sqrt(((Y - base[:, None]) ** 2).sum(0)).max()
        s = 1.0 / d if d > 0 else 1.0
    return np.array([basis((Y[:, j] - base) * s, q) for j in range(Y.shape[1])]), base, s


def quad(c, g, H, z):
    z = np.asarray(z, float).ravel()
    return c + g @ z + 0.5 * z @ H @ z


def tr_optimum(g, H, delta):
    """Global minimum of g.s + s.H.s/2 over |s| <= delta, by eigen-decomposition and bisection
    on the secular equation."""
    g = np.asarray(g, float).ravel()
    H = np.asarray(H, float)
    lam, V = np.linalg.eigh(0.5 * (H + H.T))
    a = V.T @ g
    n = len(g)
    scale = max(np.abs(lam).max(), 1e-300)

    def val(mu):
        d = lam + mu
        u = np.zeros(n)
        nz = d > 1e-13 * scale
        u[nz] = -a[nz] / d[nz]
        return u, nz

    best = 0.0
    if lam[0] > 1e-13 * scale:
        u, _ = val(0.0)
        if np.linalg.norm(u) <= delta:
            return float(a @ u + 0.5 * np.sum(lam * u * u))
    lo = max(0.0, -lam[0])
    # candidate with mu = lo (hard case or singular)
    small = lam - lam[0] <= 1e-10 * scale
    u = np.zeros(n)
    d = lam + lo
    nz = ~small if lam[0] <= 1e-13 * scale else np.ones(n, bool)
    with np.errstate(all='ignore'):
        u[nz] = -a[nz] / d[nz]
    if np.all(np.isfinite(u)) and np.linalg.norm(u) <= delta:
        t = np.sqrt(max(delta ** 2 - u @ u, 0.0))
        for sg in (-1.0, 1.0):
            v = u.copy()
            v[0] += sg * t
            best = min(best, float(a @ v + 0.5 * np.sum(lam * v * v)))
        best = min(best, float(a @ u + 0.5 * np.sum(lam * u * u)))
    hi = lo + np.linalg.norm(a) / delta + scale + 1.0
    while True:
        if np.linalg.norm(a / (lam + hi)) <= delta:
            break
        hi *= 2
    l, h = lo, hi
    for _ in range(300):
        m = 0.5 * (l + h)
        with np.errstate(all='ignore'):
            nu = np.linalg.norm(a / (lam + m))
        if np.isfinite(nu) and nu <= delta:
            h = m
        else:
            l = m
    u = -a / (lam + h)
    nu = np.linalg.norm(u)
    if nu > delta:
        u *= delta / nu
    best = min(best, float(a @ u + 0.5 * np.sum(lam * u * u)))
    return best
