"""Relativistic kinematics helpers against arbitrary-precision references."""
import warnings
import numpy as np
import mpmath as mp

PROPERTY = "P04"
NATIVE = None
RULE = ("one kinematic configuration per event, drawn over 20 decades, with thresholds approached to one ulp, massless and "
        "equal masses, scalars and broadcast arrays; each compared with 60-digit arithmetic; non-trivial = non-zero reference")


def mom(E, a, b):
    with mp.workdps(60):
        E, a, b = mp.mpf(float(E)), mp.mpf(float(a)), mp.mpf(float(b))
        if E < a + b:
            return mp.nan
        return mp.sqrt((E - a - b) * (E + a + b) * (E - a + b) * (E + a - b)) / (2 * E)


def draw(rng):
    sc = 10 ** rng.uniform(-8, 8)
    k = rng.integers(0, 6)
    a = sc * rng.uniform(0, 1)
    b = sc * rng.uniform(0, 1)
    if k == 0:
        a = b
    elif k == 1:
        b = 0.0
    elif k == 2:
        b = a * 10 ** rng.uniform(-8, 0)
    elif k == 3:
        a = 0.0
    thr = a + b
    j = rng.integers(0, 5)
    if j == 0:
        E = thr * (1 + 10 ** rng.uniform(-15, 0))
    elif j == 1:
        E = np.nextafter(thr, np.inf)
    elif j == 2:
        E = thr
    elif j == 3:
        E = thr * rng.uniform(0, 1)
    else:
        E = thr + sc * 10 ** rng.uniform(-3, 4)
    if E == 0:
        E = sc
    return float(E), float(a), float(b)


def momentum(rec, i):
    from hazma.utils import two_body_momentum, cross_section_prefactor, kallen_lambda, kinematically_accessable
    rng = rec.rng
    C = [draw(rng) for _ in range(rec.n(4000, 40000))]
    for E, a, b in C:
        ref = mom(E, a, b)
        got = two_body_momentum(E, a, b)
        if ref is mp.nan or mp.isnan(ref):
            rec.ok(np.isnan(got), "momentum:below-threshold-nan", E=E, a=a, b=b, got=got)
            x = cross_section_prefactor(a, b, E)
            rec.ok(np.isnan(x), "prefactor:below-threshold-nan", E=E, a=a, b=b, got=x)
            rec.ok(not kinematically_accessable(E, [a, b]), "accessible:below", E=E, a=a, b=b)
            continue
        r = float(ref)
        rec.close(got, r, "momentum:value", rtol=1e-13, E=E, a=a, b=b)
        rec.close(two_body_momentum(E, b, a), r, "momentum:symmetric", rtol=1e-13, E=E, a=a, b=b)
        x = cross_section_prefactor(a, b, E)
        if r == 0:
            rec.ok(x == np.inf, "prefactor:threshold-inf", E=E, a=a, b=b, got=x)
        else:
            rec.close(x, float(1 / (4 * ref * mp.mpf(E))), "prefactor:value", rtol=1e-12, E=E, a=a, b=b)
            rec.close(cross_section_prefactor(b, a, E), x, "prefactor:symmetric", rtol=1e-12, E=E, a=a, b=b)
        # energies reconstructed from the momentum add up
        rec.close(np.hypot(got, a) + np.hypot(got, b), E, "momentum:energies-sum", rtol=1e-9, E=E, a=a, b=b)
        if E > (a + b) * (1 + 1e-12):
            rec.ok(kinematically_accessable(E, [a, b]), "accessible:above", E=E, a=a, b=b)
            n = rng.integers(1, 6)
            ms = rng.dirichlet(np.ones(n)) * E
            rec.ok(kinematically_accessable(E, list(ms * (1 - 1e-9))) and not kinematically_accessable(E, list(ms * (1 + 1e-9))),
                   "accessible:n-body", E=E, n=n)
    A = np.array(C)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = two_body_momentum(A[:, 0], A[:, 1], A[:, 2])
        s = np.array([two_body_momentum(*c) for c in C])
        rec.close(g, s, "momentum:array-equals-scalar", rtol=1e-13)
        g2 = two_body_momentum(A[:, 0].reshape(-1, 4)[:, :, None], 1.0, np.array([0.3, 2.0]))
        rec.ok(g2.shape == (len(C) // 4, 4, 2), "momentum:broadcast", shape=g2.shape)
        x = cross_section_prefactor(A[:, 1], A[:, 2], A[:, 0])
        s = np.array([cross_section_prefactor(np.float64(c[1]), np.float64(c[2]), np.float64(c[0])) for c in C])
        rec.close(x, s, "prefactor:array-equals-scalar", rtol=1e-13)


def kallen(rec, i):
    from hazma.utils import kallen_lambda
    rng = rec.rng
    for _ in range(rec.n(4000, 40000)):
        v = rng.normal(size=3) * 10 ** rng.uniform(-6, 6, size=3)
        with mp.workdps(60):
            a, b, c = map(mp.mpf, v)
            ref = float(a * a + b * b + c * c - 2 * (a * b + b * c + c * a))
        scale = float(np.sum(np.abs(v)) ** 2)
        rec.close(kallen_lambda(*v), ref, "kallen:value", rtol=0, atol=4e-15 * scale, v=v)
        p = rng.permutation(3)
        rec.close(kallen_lambda(*v[p]), ref, "kallen:symmetric", rtol=0, atol=4e-15 * scale, v=v, p=p)
        s = rng.uniform(0.1, 5)
        rec.close(kallen_lambda(s, 0.0, 0.0), s * s, "kallen:massless", rtol=1e-14, s=s)
        a, b = rng.uniform(0, 3, 2)
        rec.close(kallen_lambda((a + b) ** 2, a * a, b * b), 0.0, "kallen:threshold-zero", atol=1e-13 * (a + b) ** 4, a=a, b=b)


def lorentz(rec, i):
    from hazma.utils import ldot, lnorm_sqr, minkowski_dot
    rng = rec.rng
    G = np.array([1.0, -1.0, -1.0, -1.0])
    for _ in range(rec.n(1200, 12000)):
        nd = int(rng.integers(1, 5))
        ax = int(rng.integers(0, nd))
        shape = list(rng.integers(1, 4, nd))
        shape[ax] = 4
        sc = 10 ** rng.uniform(-5, 5)
        u, v = rng.normal(size=shape) * sc, rng.normal(size=shape) * sc
        u0, v0 = u.copy(), v.copy()
        g = G.reshape([4 if k == ax else 1 for k in range(nd)])
        want = np.sum(g * u * v, axis=ax)
        rec.close(ldot(u, v, axis=ax), want, "ldot", rtol=1e-12, atol=1e-13 * sc**2, shape=shape, ax=ax)
        rec.close(lnorm_sqr(u, axis=ax), np.sum(g * u * u, axis=ax), "lnorm", rtol=1e-12, atol=1e-13 * sc**2, shape=shape, ax=ax)
        rec.ok(np.array_equal(u, u0) and np.array_equal(v, v0), "lorentz:inputs-unchanged")
        if ax == 0:
            rec.close(ldot(u, v), want, "ldot:default-axis", rtol=1e-12, atol=1e-13 * sc**2, shape=shape)
            rec.close(lnorm_sqr(u), np.sum(g * u * u, axis=0), "lnorm:default-axis", rtol=1e-12, atol=1e-13 * sc**2, shape=shape)
        a, b = rng.normal(size=4) * sc, rng.normal(size=4) * sc
        w = float(np.sum(G * a * b))
        rec.close(minkowski_dot(a, b), w, "minkowski", rtol=1e-11, atol=1e-13 * sc**2, a=a)
        rec.close(minkowski_dot(list(a), tuple(b)), w, "minkowski:sequences", rtol=1e-11, atol=1e-13 * sc**2, a=a)
        # boost invariance along a random direction
        n = rng.normal(size=3)
        n /= np.linalg.norm(n)
        be = rng.uniform(0, 0.95)
        ga = 1 / np.sqrt(1 - be**2)
        L = np.eye(4)
        L[0, 0] = ga
        L[0, 1:] = L[1:, 0] = -ga * be * n
        L[1:, 1:] += (ga - 1) * np.outer(n, n)
        rec.close(ldot(L @ a, L @ b), ldot(a, b), "ldot:boost-invariant", atol=1e-11 * sc**2, a=a, be=be)
        rec.close(minkowski_dot(L @ a, L @ b), w, "minkowski:boost-invariant", atol=1e-11 * sc**2, be=be)
        if shape[ax] == 4 and nd > 1:
            other = [k for k in range(nd) if shape[k] != 4]
            if other:
                rec.raises(lambda: ldot(u, v, axis=other[0]), AssertionError, "ldot:wrong-axis", shape=shape)
                rec.raises(lambda: lnorm_sqr(u, axis=other[0]), AssertionError, "lnorm:wrong-axis", shape=shape)


def tasks(ck):
    return [(f"{f.__name__}-{i}", f, i) for f in (momentum, kallen, lorentz) for i in range(2)]
