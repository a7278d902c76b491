"""Tree-level amplitudes evaluated numerically with explicit Dirac matrices, and their two-body phase-space integrals."""
import numpy as np

s0 = np.eye(2)
sx, sy, sz = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])
G = np.array([np.kron(sz, s0)] + [np.kron(1j * sy, s) for s in (sx, sy, sz)])  # gamma^mu, Dirac basis
METRIC = np.diag([1.0, -1, -1, -1])
GL = np.einsum("m,mab->mab", np.diag(METRIC), G)                                 # gamma_mu
ONE = np.eye(4)


def slash(p):
    return np.einsum("...m,mab->...ab", p, GL)


def bar(a):
    return G[0] @ np.conj(np.swapaxes(a, -1, -2)) @ G[0]


def dot(a, b):
    return a[..., 0] * b[..., 0] - np.sum(a[..., 1:] * b[..., 1:], axis=-1)


def trace(*ms):
    out = ms[0]
    for m in ms[1:]:
        out = out @ m
    return np.trace(out, axis1=-2, axis2=-1)


def kallen(a, b, c):
    return a * a + b * b + c * c - 2 * (a * b + a * c + b * c)


def momenta(s, m1, m2, m3, m4, z):
    """Centre-of-mass four-momenta p1, p2 (in), p3, p4 (out) at cos(theta) = z."""
    q = np.sqrt(s)
    pi = np.sqrt(max(kallen(s, m1 * m1, m2 * m2), 0.0)) / (2 * q)
    pf = np.sqrt(max(kallen(s, m3 * m3, m4 * m4), 0.0)) / (2 * q)
    z = np.asarray(z, float)
    o, sn = np.ones_like(z), np.sqrt(1 - z * z)
    p1 = np.stack([o * np.hypot(pi, m1), 0 * o, 0 * o, o * pi], -1)
    p2 = np.stack([o * np.hypot(pi, m2), 0 * o, 0 * o, -o * pi], -1)
    p3 = np.stack([o * np.hypot(pf, m3), pf * sn, 0 * o, pf * z], -1)
    p4 = np.stack([o * np.hypot(pf, m4), -pf * sn, 0 * o, -pf * z], -1)
    return p1, p2, p3, p4, pi, pf


def nodes(n=32, panels=1, edges=None):
    gx, gw = np.polynomial.legendre.leggauss(n)
    e = np.asarray(edges, float) if edges is not None else np.linspace(-1, 1, panels + 1)
    x = ((e[:-1, None] + e[1:, None]) / 2 + np.diff(e)[:, None] / 2 * gx).ravel()
    return x, (np.diff(e)[:, None] / 2 * gw).ravel()


def peaked(scale, n=24):
    """Nodes on [-1, 1] refined towards both ends down to `scale`."""
    k = max(int(np.ceil(np.log2(2 / max(scale, 1e-12)))), 1)
    d = 2.0 ** -np.arange(0, k + 1)
    edges = np.unique(np.concatenate([-1 + np.concatenate([[0.0], d]), 1 - np.concatenate([[0.0], d])]))
    return nodes(n, edges=edges)


def sigma(s, m1, m2, m3, m4, msq, spins=4.0, identical=1.0, scale=1e-6):
    """Cross section from the spin-summed squared amplitude msq(p1, p2, p3, p4)."""
    z, w = peaked(scale)
    p1, p2, p3, p4, pi, pf = momenta(s, m1, m2, m3, m4, z)
    return float(np.sum(w * np.real(msq(p1, p2, p3, p4)))) * pf / pi / (32 * np.pi * s) / spins / identical


# squared amplitudes, spin-summed; x has mass m, couplings g
def xx_to_ss(m, g):
    def f(p1, p2, k1, k2):
        a = sum((slash(p1 - k) + m * ONE) / (dot(p1 - k, p1 - k) - m * m)[..., None, None] for k in (k1, k2))
        return g**4 * trace(slash(p2) - m * ONE, a, slash(p1) + m * ONE, bar(a))
    return f


def xs_to_xs(m, g):
    def f(p1, k1, p2, k2):
        a = sum((slash(q) + m * ONE) / (dot(q, q) - m * m)[..., None, None] for q in (p1 + k1, p1 - k2))
        return g**4 * trace(slash(p2) + m * ONE, a, slash(p1) + m * ONE, bar(a))
    return f


def xx_to_vv(m, g, mv):
    def f(p1, p2, k1, k2):
        out = 0
        def a(i, j, x, y):      # index i on vector x, j on vector y
            q = slash(p1 - x) + m * ONE
            r = slash(p1 - y) + m * ONE
            return (G[j] @ q @ G[i]) / (dot(p1 - x, p1 - x) - m * m)[..., None, None] + \
                (G[i] @ r @ G[j]) / (dot(p1 - y, p1 - y) - m * m)[..., None, None]
        for i in range(4):
            for j in range(4):
                t = a(i, j, k1, k2)
                out = out + METRIC[i, i] * METRIC[j, j] * trace(slash(p2) - m * ONE, t, slash(p1) + m * ONE, bar(t))
        return g**4 * out       # current conservation: only -g_{mu nu} contributes
    return f


def xx_to_xx_scalar(m, g, ms, w):
    """x xbar -> x xbar through s- and t-channel scalars."""
    def f(p1, p2, p3, p4):
        s, t = dot(p1 + p2, p1 + p2), dot(p1 - p3, p1 - p3)
        ds, dt = s - ms * ms + 1j * ms * w, t - ms * ms + 1j * ms * w
        S = [slash(p) for p in (p1, p2, p3, p4)]
        a1, b2, a3, b4 = S[0] + m * ONE, S[1] - m * ONE, S[2] + m * ONE, S[3] - m * ONE
        ss = trace(b2, a1) * trace(a3, b4) / abs(ds)**2
        tt = trace(a3, a1) * trace(b2, b4) / abs(dt)**2
        # interference: (v2bar u1)(u3bar v4) x conj[(u3bar u1)(v2bar v4)] -> one trace
        st = trace(b2, a1, a3, b4) / (ds * np.conj(dt))
        return g**4 * (ss + tt - 2 * np.real(st))
    return f


def xx_to_xx_vector(m, g, mv, w):
    def f(p1, p2, p3, p4):
        s, t = dot(p1 + p2, p1 + p2), dot(p1 - p3, p1 - p3)
        ds, dt = s - mv * mv + 1j * mv * w, t - mv * mv + 1j * mv * w
        a1, b2, a3, b4 = slash(p1) + m * ONE, slash(p2) - m * ONE, slash(p3) + m * ONE, slash(p4) - m * ONE
        ss = tt = st = 0
        for i in range(4):
            for j in range(4):
                k = METRIC[i, i] * METRIC[j, j]
                ss = ss + k * trace(b2, G[i], a1, G[j]) * trace(a3, G[i], b4, G[j])
                tt = tt + k * trace(a3, G[i], a1, G[j]) * trace(b2, G[i], b4, G[j])
                st = st + k * trace(b2, G[i], a1, G[j], a3, G[i], b4, G[j])
        return g**4 * np.real(ss / abs(ds)**2 + tt / abs(dt)**2 - 2 * np.real(st / (ds * np.conj(dt))))
    return f


def elastic(s, mx, mt, msq_t, equal=False, breaks=()):
    """x + target -> x + target through t-channel exchange: sigma = 1/(16 pi lambda) int dt |M(t)|^2 (already averaged).

    equal=True uses the kinematics of two particles of mass mx instead of the target's own mass.
    """
    lam = kallen(s, mx * mx, (mx if equal else mt)**2)
    lo = -lam / s
    gx, gw = np.polynomial.legendre.leggauss(24)
    sgn = np.sign(lo) or 1.0
    e = sgn * np.concatenate([[0.0], abs(lo) * 2.0 ** -np.arange(60, -1, -1)])
    e = np.unique(np.concatenate([e, [b for b in breaks if min(lo, 0) < b < max(lo, 0)]]))
    t = ((e[:-1, None] + e[1:, None]) / 2 + np.diff(e)[:, None] / 2 * gx).ravel()
    w = (np.diff(e)[:, None] / 2 * gw).ravel()
    return float(np.sum(w * msq_t(t))) / (16 * np.pi * abs(lam)) * (1 if lam > 0 else 1)
