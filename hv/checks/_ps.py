"""Independent phase-space oracles (no hazma imports)."""
import math
import numpy as np

_GL = np.polynomial.legendre.leggauss(48)


def p2(M, a, b):
    M = np.asarray(M, float)
    x = (M - a - b) * (M + a + b) * (M - a + b) * (M + a - b)
    return np.sqrt(np.clip(x, 0, None)) / (2 * M)


def vol2(M, a, b):
    return p2(M, a, b) / (4 * np.pi * M)


def massless(M, n):
    return ((np.pi / 2) ** (n - 1) * M ** (2 * n - 4) / (math.factorial(n - 1) * math.factorial(n - 2))
            * (2 * np.pi) ** (4 - 3 * n))


def volume(M, masses):
    """n-body Lorentz-invariant volume with (2pi)^4 delta and d3p/((2pi)^3 2E),
    by the recursion over the invariant mass of the first n-1 particles."""
    masses = list(masses)
    return float(_vol(np.array([M], float), masses)[0])


def _vol(M, ms):
    M = np.asarray(M, float)
    if len(ms) == 2:
        return vol2(M, ms[0], ms[1])
    lo = sum(ms[:-1])
    hi = M - ms[-1]
    x, w = _GL
    n = len(ms) - 1  # particles in the subsystem
    # mu = lo + (hi-lo) u^2(3-2u)-like map softens the endpoint roots
    u = 0.5 * (x + 1)
    g = u * u * (3 - 2 * u)
    dg = 6 * u * (1 - u)
    span = np.clip(hi - lo, 0, None)
    mu = lo + span[:, None] * g[None, :]
    jac = span[:, None] * dg[None, :] * 0.5 * w[None, :]
    mu_safe = np.where(mu > 0, mu, 1e-300)
    inner = _vol(mu_safe.ravel(), ms[:-1]).reshape(mu.shape)
    two = vol2(np.repeat(M[:, None], mu.shape[1], 1), mu, ms[-1])
    return np.sum(jac * 2 * mu / (2 * np.pi) * inner * two, axis=1)


def rambo_weight(ps, cme):
    n = ps.shape[1]
    mod = np.sqrt(np.sum(ps[1:] ** 2, axis=0))
    t1 = (np.sum(mod, axis=0) / cme) ** (2 * n - 3)
    t2 = np.sum(mod**2 / ps[0], axis=0)
    t3 = np.prod(mod / ps[0], axis=0)
    return massless(cme, n) * t1 / t2 * t3 * cme


def random_masses(rng, n, cme, edge=True):
    kind = rng.integers(0, 7)
    if kind == 0:
        f = 0.0
    elif kind == 1 and edge:
        f = 1 - 10.0 ** rng.uniform(-6, -2)
    else:
        f = rng.uniform(0.0, 0.97)
    w = rng.dirichlet(np.ones(n) * rng.choice([0.15, 1.0, 20.0]))
    if rng.random() < 0.3:
        w[rng.integers(n)] = 0.0
    m = f * cme * w
    if rng.random() < 0.15:
        m[:] = f * cme / n
    return m
