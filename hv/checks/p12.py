"""Boosts of spectra and lines: number, energy, composition, pointwise oracle."""
import ctypes
import numpy as np
from numpy.polynomial.legendre import leggauss

PROPERTY = "P12"
NATIVE = "all"
RULE = ("one judged boosted value, number/energy balance, composition or guard per event over random lines and continua, daughter masses, "
        "velocities from 1e-6 to 1-1e-6, quadrature methods and table shapes, for the Python, Cython and native twins; oracle = forward "
        "average over lab angles, closed-form kinematic windows, piecewise-linear integrals; non-trivial = non-zero expectation")
T64, W64 = leggauss(64)


def rbeta(rng):
    k = rng.integers(0, 4)
    if k == 0:
        return float(10 ** rng.uniform(-6, -1))
    if k == 1:
        return float(1 - 10 ** rng.uniform(-6, -1))
    return float(rng.uniform(0.05, 0.95))


def window(e0, m, beta):
    """Lab energies reached by a product of rest energy e0."""
    g = 1 / np.sqrt((1 - beta) * (1 + beta))
    k0 = np.sqrt((e0 - m) * (e0 + m))
    return g * (e0 - beta * k0), g * (e0 + beta * k0), g, k0


def panels(f, knots, order=64):
    x, w = (T64, W64)
    s = 0.0
    for a, b in zip(knots[:-1], knots[1:]):
        if b > a:
            h = (b - a) / 2
            s = s + np.sum(np.asarray(f((a + b) / 2 + h * x)) * w) * h
    return s


# ---------------------------------------------------------------- lines
def lines(rec, which):
    rng = rec.rng
    if which == "python":
        from hazma.spectra.boost import boost_delta_function
        fn = lambda e, e0, m, b: boost_delta_function(e, e0, m, b)
    elif which == "native":
        from hazma import _core
        fn = lambda e, e0, m, b: _core.boost.boost_delta_function(e0, e, m, b)
    else:
        cy = cython_funcs()
        fn = lambda e, e0, m, b: (np.array([cy["boost_delta_function"](e0, float(v), m, b) for v in np.atleast_1d(e)])
                                  if np.ndim(e) else cy["boost_delta_function"](e0, float(e), m, b))
    for _ in range(rec.n(250, 4000)):
        m = 0.0 if rng.random() < 0.4 else float(10 ** rng.uniform(-2, 3))
        e0 = float(10 ** rng.uniform(-2, 3)) if m == 0 else m * float(1 + 10 ** rng.uniform(-3, 2))
        b = rbeta(rng) if rng.random() < 0.9 else float(1 - 10 ** rng.uniform(-8, -6))
        lo, hi, g, k0 = window(e0, m, b)
        w = hi - lo
        e = np.concatenate([lo + w * np.sort(rng.uniform(1e-3, 1 - 1e-3, 6)), hi + (hi - m) * np.array([0.01, 1.0, 30.0])])
        if lo > m * (1 + 1e-9) and lo > 0:
            e = np.append(e, m + (lo - m) * np.array([0.1, 0.9]))
        e = np.append(e, lo * (hi / lo) ** np.sort(rng.uniform(0.01, 0.3, 2)))      # soft end of a fast parent's window
        below = np.array([m * 0.5, m * 0.999]) if m else np.array([])
        want = np.where((e > lo) & (e < hi), 1 / (2 * g * b * k0), 0.0)
        # the window edges of a slow parent are only resolved to rounding
        keep = np.minimum(abs(e - lo), abs(e - hi)) > 1e-12 * e
        if which != "python":
            keep &= np.minimum(abs(e - lo), abs(e - hi)) > 1e-9 * e
        got = np.asarray(fn(e, e0, m, b))
        rec.close(got[keep], want[keep], f"line:{which}", rtol=1e-8 if b < 1e-3 or b > 0.999 else 1e-11, e0=e0, m=m, beta=b)
        rec.close(fn(float(e[2]), e0, m, b), got[2], f"line:{which}:scalar", rtol=1e-13, e0=e0, m=m, beta=b)
        if len(below):
            rec.close(fn(below, e0, m, b), 0.0, f"line:{which}:below-mass", e0=e0, m=m, beta=b)
        for bad in (0.0, -b, 1.0 + b) + ((1.0,) if which == "python" else ()):
            rec.close(fn(e, e0, m, bad), 0.0, f"line:{which}:unphysical-beta", e0=e0, m=m, beta=bad)
        # number and energy: height x width = 1, mean = gamma e0
        h = float(np.max(got))
        rec.close(h * w, 1.0, f"line:{which}:number", rtol=1e-8, e0=e0, m=m, beta=b)
        rec.count("lines")
    if which == "python":
        for _ in range(rec.n(40, 400)):       # integer energies
            e0 = float(rng.uniform(20, 60))
            b = float(rng.uniform(0.3, 0.9))
            e = np.arange(1, 200)
            rec.close(fn(e, e0, 0.0, b), fn(e.astype(float), e0, 0.0, b), "line:python:integer-energies", rtol=1e-13, e0=e0, beta=b)
            rec.close(fn(int(e0), e0, 0.0, b), fn(float(int(e0)), e0, 0.0, b), "line:python:integer-scalar", rtol=1e-13, e0=e0, beta=b)


def double(rec, _):
    from hazma.spectra.boost import double_boost_delta_function, boost_delta_function
    rng = rec.rng
    for _ in range(rec.n(150, 2000)):
        m = 0.0 if rng.random() < 0.5 else float(10 ** rng.uniform(-1, 2.5))
        e0 = float(10 ** rng.uniform(-1, 3)) if m == 0 else m * float(1 + 10 ** rng.uniform(-1.5, 1.5))
        b1, b2 = float(rng.uniform(0.03, 0.97)), float(rng.uniform(0.03, 0.97))
        hard = rng.random() < 0.4
        if hard:                                   # relativistic products and parents, lab energies down to the mass
            e0 = e0 if m == 0 else m * float(10 ** rng.uniform(0.5, 4))
            b1, b2 = (float(1 - 10 ** rng.uniform(-6, -1)) if rng.random() < 0.6 else b for b in (b1, b2))
            if m and rng.random() < 0.5:           # a parent fast enough to bring its product nearly to rest
                gg = max(e0 / m * float(10 ** rng.uniform(-0.5, 0.5)), 1.2)
                b1 = float(np.sqrt((1 - 1 / gg) * (1 + 1 / gg)))
        lo, hi, g1, k0 = window(e0, m, b1)
        g2 = 1 / np.sqrt(1 - b2 * b2)
        top = g2 * (hi + b2 * np.sqrt(hi * hi - m * m))
        e = m + (top - m) * np.sort(rng.uniform(0.001, 1.1, 9))
        if hard:
            e = m + (top - m) * np.sort(10 ** rng.uniform(-9, 0, 9))
        # conditioning of the published expression: energies far above the mass lose digits quadratically
        up = g2 * (e + b2 * np.sqrt(e * e - m * m))
        eps = 1e-9 + 1e-14 / (1 - max(b1, b2)) + (1e-14 * (np.minimum(hi, up) / m) ** 2 if m else 0.0 * e)
        sel = eps < 1e-3
        e, eps = e[sel], eps[sel]
        if len(e) < 5:
            continue
        got = np.asarray(double_boost_delta_function(e, e0, m, b1, b2))
        want = []
        for q in e:
            k = np.sqrt(q * q - m * m)
            a, b = max(lo, g2 * (q - b2 * k)), min(hi, g2 * (q + b2 * k))
            h = 1 / (2 * g1 * b1 * k0)
            if b <= a:
                want.append(0.0)
                continue
            # integrate in rapidity-like variable to stay smooth near threshold
            f = lambda y: 1.0 / (2 * g2 * b2) * h * np.ones_like(y)
            if m:
                ya, yb = np.arccosh(max(a / m, 1.0)), np.arccosh(b / m)
            else:
                ya, yb = np.log(a), np.log(b)
            want.append(float(panels(f, [ya, yb])))
        rec.close(got, want, "double", rtol=3 * eps, atol=eps * max(want), e0=e0, m=m, b1=b1, b2=b2)
        if not hard:
            rec.close(double_boost_delta_function(e, e0, m, b2, b1), got, "double:commutes", rtol=1e-6, atol=1e-6 * max(want),
                      e0=e0, m=m, b1=b1, b2=b2)
        rec.close(double_boost_delta_function(float(e[4]), e0, m, b1, b2), got[4], "double:scalar", rtol=1e-12, e0=e0, m=m, b1=b1, b2=b2)
        # number and energy: integrate between the kinks
        if not hard and (m == 0.0 or b1 > 0.1 and b2 > 0.1):
            kin = sorted({m} | {g2 * (x + s * b2 * np.sqrt(x * x - m * m)) for x in (lo, hi) for s in (-1, 1)})
            bot = m if (m and (g1 * g2 * b1 * b2 >= 0)) else kin[1]
            # exponential substitution above the mass
            def f(t):
                ee = m + np.exp(t)
                return np.asarray(double_boost_delta_function(ee, e0, m, b1, b2)) * np.exp(t)
            def fe(t):
                return f(t) * (m + np.exp(t))
            ks = [np.log(max(x - m, 1e-12 * e0)) for x in kin]
            ks = sorted(set([np.log(1e-9 * e0)] + list(np.concatenate([np.linspace(a, b, 5) for a, b in zip(ks[:-1], ks[1:])]))))
            rec.close(panels(f, ks), 1.0, "double:number", rtol=1e-4, e0=e0, m=m, b1=b1, b2=b2)
            rec.close(panels(fe, ks), g1 * g2 * e0, "double:energy", rtol=1e-4, e0=e0, m=m, b1=b1, b2=b2)
        if m:
            rec.close(double_boost_delta_function(np.array([0.3 * m, 0.9 * m]), e0, m, b1, b2), 0.0, "double:below-mass", e0=e0, m=m)
        rec.count("double lines")


# ---------------------------------------------------------------- continua
def spectrum(rng, m):
    """Smooth rest-frame spectrum with compact support [a, b]."""
    s = float(10 ** rng.uniform(0, 2.5)) if m == 0 else m * float(10 ** rng.uniform(0, 1.5))
    a = m + (s * float(rng.uniform(0, 0.5)) if rng.random() < 0.5 else 0.0)
    b = a + s
    p, q = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    c = float(10 ** rng.uniform(-3, 3))

    def f(e):
        x = (np.asarray(e, float) - a) / (b - a)
        x = np.clip(x, 0.0, 1.0)
        return c * x**p * (1 - x) ** q
    return f, a, b


def angle_oracle(f, a, b, m, beta, e):
    g = 1 / np.sqrt(1 - beta * beta)
    out = []
    for q in np.atleast_1d(e):
        if q <= m:
            out.append(0.0)
            continue
        k = np.sqrt(q * q - m * m)
        # cos(theta) for which the rest energy is inside the support
        z1 = np.clip((q - b / g) / (beta * k), -1, 1)
        z2 = np.clip((q - a / g) / (beta * k), -1, 1)
        def h(z):
            er = g * (q - beta * k * z)
            return 0.5 * f(er) * k / np.sqrt(np.maximum(er * er - m * m, 1e-300))
        out.append(float(panels(h, np.linspace(z1, z2, 9))))
    return np.array(out)


def funcs(rec, _):
    from hazma.spectra.boost import make_boost_function, dnde_boost
    rng = rec.rng
    for _ in range(rec.n(30, 300)):
        m = 0.0 if rng.random() < 0.5 else float(10 ** rng.uniform(-1, 2))
        f, a, b = spectrum(rng, m)
        a_ = max(a, 1e-6 * b)
        beta = float(rng.choice([rng.uniform(0.02, 0.3), rng.uniform(0.3, 0.97)]))
        g = 1 / np.sqrt(1 - beta * beta)
        top = g * (b + beta * np.sqrt(b * b - m * m))
        e = np.sort(np.append(m + (top - m) * rng.uniform(0.02, 1.05, 6), m * 0.7 + 1e-9))
        want = angle_oracle(f, a, b, m, beta, e)
        # a blind rule cannot be asked to find a support much narrower than the window
        kk = np.sqrt(np.maximum(e * e - m * m, 0))
        wlo, whi = g * (e - beta * kk), g * (e + beta * kk)
        frac = (np.minimum(whi, b) - np.maximum(wlo, a)) / np.maximum(whi - wlo, 1e-300)
        sel = (frac > 0.15) | (frac <= 0) | (e <= m)
        e, want = e[sel], want[sel]
        if len(e) < 2 or not want.max() > 0:
            continue
        tight = dict(epsabs=0.0, epsrel=1e-9, limit=2000)
        wide = max(1.0, (g * (1 + beta) * top / (b - a) / 4) ** 2)
        tol = 1e-6 * want.max()
        loose = 3e-8 / (beta * g)               # scipy's default absolute tolerance on the integral
        bf = make_boost_function(f, mass=m)
        rec.close(bf(e, beta), want, "func:quad-defaults", rtol=1e-6, atol=tol + loose, m=m, beta=beta, lo=a, hi=b)
        rec.close(bf(e, beta, **tight), want, "func:quad", rtol=1e-6, atol=tol, m=m, beta=beta, lo=a, hi=b)
        rec.close(dnde_boost(f, e, beta, mass=m, **tight), want, "func:dnde_boost", rtol=1e-6, atol=tol, m=m, beta=beta, lo=a, hi=b)
        rec.close(bf(e, beta, method="quadrature", **tight), want, "func:quadrature", rtol=1e-6, atol=tol, m=m, beta=beta)
        for meth, npts, eps in (("trapz", 3001, 3e-5), ("simps", 3001, 1e-5)):
            rec.close(bf(e, beta, method=meth, npts=npts), want, f"func:{meth}", rtol=eps, atol=min(wide * eps, 0.05) * want.max(), m=m, beta=beta)
        # fewer points is a coarser rule: npts is honoured
        d20 = np.max(abs(bf(e, beta, method="trapz", npts=12) - want))
        d3k = np.max(abs(bf(e, beta, method="trapz", npts=3001) - want))
        rec.ok(d3k <= d20 + tol, "func:npts-refines", m=m, beta=beta, d20=d20, d3k=d3k)
        # extra arguments reach the spectrum, moving or at rest
        fa = lambda q, s, t: s * f(q) + 0 * t
        ba = make_boost_function(fa, mass=m)
        rec.close(ba(e, beta, args=(2.5, 1.0), **tight), 2.5 * want, "func:args", rtol=1e-6, atol=3 * tol, m=m, beta=beta)
        rec.close(dnde_boost(fa, e, beta, mass=m, args=(2.5, 1.0), method="simps", npts=3001), 2.5 * want, "func:dnde_boost:args",
                  rtol=1e-5, atol=3e-5 * want.max(), m=m, beta=beta)
        ok, v = rec.guard("func:rest:args", lambda: ba(e, 0.0, args=(2.5, 1.0)), m=m)
        if ok:
            rec.close(v, 2.5 * f(e), "func:rest:args", rtol=1e-12, m=m)
        rec.close(bf(e, 0.0), f(e), "func:rest", rtol=1e-12, m=m)
        # scalar-only spectra through the fixed rules
        def fs(q):
            import math
            return float(f(float(q))) * math.cos(0.0)
        bs = make_boost_function(fs, mass=m, vectorized=False)
        rec.close(bs(e, beta, method="trapz", npts=800), bf(e, beta, method="trapz", npts=800), "func:scalar-only", rtol=1e-10, m=m, beta=beta)
        for bad in (-beta, -1.0, 1.0 + beta):
            rec.close(bf(e, bad), 0.0, "func:unphysical", beta=bad)
        # slow parents approach the rest frame
        eb = m + (b - m) * rng.uniform(0.1, 0.9, 4)
        rec.close(bf(eb, 1e-5), f(eb), "func:slow-limit", rtol=1e-3, atol=1e-4 * np.max(f(np.linspace(a, b, 99))), m=m)
        # number and energy conservation of the real boosted spectrum
        edges = sorted({m, *(g * (x + s * beta * np.sqrt(max(x * x - m * m, 0.0))) for x in (a, b) for s in (-1, 1))})
        x = np.concatenate([(p + q) / 2 + (q - p) / 2 * T64 for p, q in zip(edges[:-1], edges[1:]) if q > p])
        w = np.concatenate([(q - p) / 2 * W64 for p, q in zip(edges[:-1], edges[1:]) if q > p])
        y = bf(x, beta, method="simps", npts=2001)
        n0, e1 = panels(f, np.linspace(a, b, 5)), panels(lambda q: q * f(q), np.linspace(a, b, 5))
        rec.close(np.sum(w * y), n0, "func:number", rtol=5e-3, m=m, beta=beta, lo=a, hi=b)
        rec.close(np.sum(w * y * x), g * e1, "func:energy", rtol=5e-3, m=m, beta=beta, lo=a, hi=b)
        rec.count("continua")
    rec.raises(lambda: make_boost_function(lambda q: q, mass=0.0)(np.array([1.0]), 0.5, method="romberg"), ValueError, "func:bad-method")


def compose(rec, _):
    """A boost by b1 averaged over directions, then b2, does not depend on the order."""
    from hazma.spectra.boost import make_boost_function
    rng = rec.rng
    for _ in range(rec.n(5, 40)):
        m = 0.0 if rng.random() < 0.5 else float(10 ** rng.uniform(-1, 1))
        f, a, b = spectrum(rng, m)
        b1, b2 = float(rng.uniform(0.2, 0.8)), float(rng.uniform(0.2, 0.8))
        out = []
        e = m + (b - m) * np.array([0.2, 0.5, 0.9, 1.3])
        for p, q in ((b1, b2), (b2, b1)):
            inner = make_boost_function(f, mass=m)
            f1 = lambda x, p=p: inner(np.atleast_1d(np.asarray(x, float)), p, method="simps", npts=801)
            out.append(make_boost_function(f1, mass=m)(e, q, method="simps", npts=801))
        rec.close(out[0], out[1], "compose:commute", rtol=3e-3, atol=1e-4 * np.max(out[1]), m=m, b1=b1, b2=b2)
        rec.count("compositions")


def arrays(rec, _):
    from hazma.spectra.boost import dnde_boost_array
    from .p08 import lin_int
    rng = rec.rng
    for _ in range(rec.n(80, 1000)):
        m = 0.0 if rng.random() < 0.5 else float(10 ** rng.uniform(-1, 2))
        n = int(rng.integers(8, 300))
        lo = m + float(10 ** rng.uniform(-2, 1))
        x = np.sort(lo * np.concatenate([[1.0], 10 ** rng.uniform(0.01, 2, n)]))
        if np.min(np.diff(x)) < 1e-9 * x[0]:
            continue
        y = rng.random(len(x))
        pad = m and rng.random() < 0.5                      # energies at or below the mass contribute nothing
        xx = np.concatenate([[0.3 * m, 0.8 * m, m], x]) if pad else x
        yy = np.concatenate([[5.0, 5.0, 7.0], y]) if pad else y
        beta = float(rng.uniform(0.01, 0.97))
        g = 1 / np.sqrt(1 - beta * beta)
        k = np.sqrt(x * x - m * m)
        F = lin_int(x, y / k)
        want = np.array([F(min(max(g * (q - beta * p), x[0]), x[-1]), min(max(g * (q + beta * p), x[0]), x[-1]))
                         for q, p in zip(x, k)]) / (2 * g * beta)
        if pad:
            want = np.concatenate([[0.0] * 3, want])
        keep = yy.copy()
        got = dnde_boost_array(yy, xx, beta, m) if m else dnde_boost_array(yy, xx, beta)
        rec.close(got, want, "array", rtol=1e-8, atol=1e-10 * want.max(), n=len(xx), m=m, beta=beta)
        rec.ok(np.array_equal(keep, yy), "array:input-untouched", m=m)
        rest = dnde_boost_array(yy, xx, 0.0, m)
        rec.close(rest, yy, "array:rest", rtol=1e-13, m=m, n=n)
        rec.ok(not np.shares_memory(rest, yy), "array:rest aliases its input", m=m)
        for bad in (-beta, -1.0, 1.0, 1.0 + beta):
            rec.close(dnde_boost_array(yy, xx, bad, m), 0.0, "array:unphysical", beta=bad, m=m)
        # linear in the spectrum
        rec.close(dnde_boost_array(3.0 * yy, xx, beta, m), 3.0 * got, "array:linear", rtol=1e-9, atol=1e-10 * want.max(), m=m, beta=beta)
        rec.count("array boosts")
    # grids and spectra of integers mean what the same floats mean
    from hazma.spectra.boost import make_boost_function
    for _ in range(rec.n(10, 100)):
        m = float(rng.choice([0.0, rng.integers(1, 20)]))
        x = np.unique(rng.integers(int(m) + 1, 400, int(rng.integers(8, 60))))
        y = rng.integers(1, 50, len(x))
        beta = float(rng.uniform(0.05, 0.95))
        want = dnde_boost_array(y.astype(float), x.astype(float), beta, m)
        for xi, yi in ((x, y), (x, y.astype(float)), (x.astype(float), y)):
            rec.close(dnde_boost_array(yi, xi, beta, m), want, "array:integers", rtol=1e-13, beta=beta, m=m)
            for b0 in (0.0, 1.5, -0.1):
                rec.close(dnde_boost_array(yi, xi, b0, m), dnde_boost_array(y.astype(float), x.astype(float), b0, m), "array:integers", rtol=1e-13, beta=b0, m=m)
        s = float(rng.uniform(10, 100))
        bf = make_boost_function(lambda q: np.exp(-np.asarray(q, float) / s), mass=m)
        okc, v = rec.guard("func:integers", lambda: bf(x[:4], beta), m=m, beta=beta)
        if okc:
            rec.close(v, bf(x[:4].astype(float), beta), "func:integers", rtol=1e-12, beta=beta, m=m)
    # slow parents: a rough spectrum on a grid finer than the smearing
    for _ in range(rec.n(20, 200)):
        m = 0.0 if rng.random() < 0.5 else float(10 ** rng.uniform(-1, 2))
        beta = float(10 ** rng.uniform(-5, -1.5))
        e0 = m * float(1 + 10 ** rng.uniform(-0.5, 1)) if m else float(10 ** rng.uniform(-1, 2))
        x = e0 + np.sqrt(e0 * e0 - m * m) * beta * np.sort(rng.uniform(-20, 20, 400))
        if np.min(np.diff(x)) < 1e-13 * e0 or x[0] <= m * (1 + 1e-6):
            continue
        y = rng.random(len(x))
        g = 1 / np.sqrt(1 - beta * beta)
        k = np.sqrt(x * x - m * m)
        F = lin_int(x, y / k)
        pick = np.flatnonzero((x - x[0] > 3 * beta * k) & (x[-1] - x > 3 * beta * k))
        got = dnde_boost_array(y, x, beta, m)
        want = np.array([F(g * (x[j] - beta * k[j]), g * (x[j] + beta * k[j])) for j in pick]) / (2 * g * beta)
        rec.close(got[pick], want, "array:slow", rtol=1e-5, atol=1e-6, m=m, beta=beta, e0=e0)
        # and a narrow bump through the functional boost
        from hazma.spectra.boost import make_boost_function
        w = e0 * beta * float(rng.uniform(0.3, 3))
        f = lambda q: np.exp(-((np.asarray(q, float) - e0) / w) ** 2 / 2)
        es = e0 + w * rng.uniform(-2, 2, 4)
        es = es[es > m * (1 + 1e-9) + 8 * beta * np.sqrt(e0 * e0 - m * m)]
        if len(es):
            rec.close(make_boost_function(f, mass=m)(es, beta, epsabs=0.0, epsrel=1e-10), angle_oracle(f, m, e0 + 9 * w + 9 * e0 * beta, m, beta, es),
                      "func:slow-bump", rtol=1e-6, atol=1e-7, m=m, beta=beta, e0=e0, w=w)
        rec.count("slow boosts")
    # on a dense grid the array boost agrees with the functional one and conserves particles and energy
    for _ in range(rec.n(10, 60)):
        m = 0.0 if rng.random() < 0.5 else float(10 ** rng.uniform(-1, 2))
        f, a, b = spectrum(rng, m)
        beta = float(rng.uniform(0.1, 0.95))
        g = 1 / np.sqrt(1 - beta * beta)
        top = g * (b + beta * np.sqrt(b * b - m * m))
        x = m + (top * 1.05 - m) * np.linspace(1e-6, 1, 6000) ** 2
        got = dnde_boost_array(f(x), x, beta, m)
        n0, e1 = panels(f, np.linspace(a, b, 5)), panels(lambda q: q * f(q), np.linspace(a, b, 5))
        rec.close(np.trapezoid(got, x), n0, "array:number", rtol=5e-3, m=m, beta=beta)
        rec.close(np.trapezoid(got * x, x), g * e1, "array:energy", rtol=5e-3, m=m, beta=beta)


# ---------------------------------------------------------------- tabulated boosts (Cython and native twins)
def table_expect(e, beta, x, y):
    """(value of the stated integral, value with the documented coverage error at the window ends)."""
    from .p08 import lin_int
    g = 1 / np.sqrt((1 - beta) * (1 + beta))
    lb, ub = e * g * (1 - beta), e * g * (1 + beta)
    if lb > x[-1]:
        return 0.0, 0.0
    if ub < x[0]:
        return y[0] * x[0] / e, y[0] * x[0] / e
    tail = y[0] * (x[0] / lb - 1) if lb < x[0] else 0.0
    lb, ub = max(lb, x[0]), min(ub, x[-1])
    F = lin_int(x, y / x)
    lo, hi = int(np.searchsorted(x, lb)), int(np.searchsorted(x, ub, side="right")) - 1
    bad = F(lb, ub)
    if lo < hi:
        bad = F(lb, ub) - F(x[hi - 1], x[hi])
    elif lo > hi:
        bad = F(lb, x[lo]) + F(x[hi], ub)
    n = 2 * g * beta
    return (tail + F(lb, ub)) / n, (tail + bad) / n


def tables(rec, which):
    rng = rec.rng
    if which == "native":
        from hazma import _core
        fn = lambda e, b, x, y: np.asarray(_core.boost.boost_integrate_linear_interp(e, b, x, y))
    else:
        raw = cython_funcs()["boost_integrate_linear_interp"]
        fn = lambda e, b, x, y: np.array([raw(float(q), b, x, y) for q in e])
    x = np.array([1.0, 2.0, 3.0, 4.0])
    rec.close(fn(np.array([2.2]), 0.6, x, x), table_expect(2.2, 0.6, x, x)[0], f"table:{which}:documented-gap-case", rtol=1e-9)
    x = np.arange(1.0, 7.0)
    rec.close(fn(np.array([3.5]), 0.01, x, x), table_expect(3.5, 0.01, x, x)[0], f"table:{which}:documented-overlap-case", rtol=1e-9)
    regimes = {}
    for _ in range(rec.n(120, 2500)):
        n = int(rng.choice([2, 3, 10, 100, 500]))
        x = np.sort(10 ** rng.uniform(-1, 3, n)) if rng.random() < 0.5 else np.geomspace(0.1, 10 ** rng.uniform(0.5, 3), n)
        if n > 1 and np.min(np.diff(x)) < 1e-4:
            continue
        y = rng.random(n) * np.exp(-x / x[-1])
        beta = float(np.clip(rbeta(rng), 1e-4, 0.9999))
        g = 1 / np.sqrt(1 - beta * beta)
        e = np.sort(np.concatenate([np.exp(rng.uniform(np.log(x[0] / (3 * g)), np.log(x[-1] * 3 * g), 10)),
                                    [x[0] / (10 * g), x[-1] * 10 * g]]))
        got = fn(e, beta, x, y)
        tol = 4e-6 * np.max(y / x) / (2 * g * beta)
        for q, v in zip(e, got):
            a, b = table_expect(q, beta, x, y)
            lim = 1e-9 * max(abs(a), abs(b)) + tol
            lb, ub = q * g * (1 - beta), q * g * (1 + beta)
            reg = ("above" if lb > x[-1] else "below" if ub < x[0] else
                   ("tail+" if lb < x[0] else "") + ("clamp" if ub > x[-1] else "inside"))
            regimes[reg] = regimes.get(reg, 0) + 1
            # a node within rounding of a bound may be counted on either side
            near = np.min(abs(x / lb - 1)) < 2e-6 or np.min(abs(x / ub - 1)) < 2e-6
            if near and reg not in ("above", "below"):
                continue
            rec.ok(abs(v - a) <= lim or abs(v - b) <= lim, f"table:{which}", e=q, beta=beta, n=n, value=v, exact=a, documented=b, regime=reg)
        # linear in the table, scale covariant
        rec.close(fn(e, beta, x, 4.0 * y), 4.0 * got, f"table:{which}:linear", rtol=1e-11, n=n, beta=beta)
        one = fn(e[3:4], beta, x, y)
        rec.close(one, got[3:4], f"table:{which}:single", rtol=1e-13, n=n, beta=beta)
        rec.count("tables")
    for r, c in regimes.items():
        rec.count(f"table regime {r}", c)
    if which == "native":
        x = np.array([1.0, 2.0])
        for b in (0.0, 1.0, -0.2, 1.5, np.nan):
            rec.raises(lambda b=b: fn(np.array([1.0]), b, x, x), ValueError, "table:native:bad-beta", beta=b)
        rec.raises(lambda: fn(np.array([1.0]), 0.5, x, x[:1]), ValueError, "table:native:length")
        rec.raises(lambda: fn(np.array([1.0]), 0.5, x[:0], x[:0]), ValueError, "table:native:empty")
        rec.ok(np.isnan(fn(np.array([np.nan]), 0.5, x, x)[0]), "table:native:nan")


def params(rec, _):
    from hazma import _core
    import mpmath as mp
    rng = rec.rng
    cy = cython_funcs()
    mp.mp.dps = 50
    for _ in range(rec.n(300, 3000)):
        m = float(10 ** rng.uniform(-3, 4))
        e = m * float(1 + 10 ** rng.uniform(-6, 6))
        r = mp.mpf(m) / mp.mpf(e)
        cond = float(r * r / (1 - r * r))
        rec.close(_core.boost.boost_gamma(e, m), float(1 / r), "gamma", rtol=4e-16, e=e, m=m)
        rec.close(_core.boost.boost_beta(e, m), float(mp.sqrt(1 - r * r)), "beta", rtol=1e-15 * (4 + cond), e=e, m=m)
        es = m * (1 + 10 ** rng.uniform(-3, 3, 5))
        rec.close(_core.boost.boost_beta(es, m), np.array([_core.boost.boost_beta(float(q), m) for q in es]), "beta:array", rtol=0, m=m)
        # lab frame -> parent rest frame
        ep, ed, md = m * float(1 + 10 ** rng.uniform(-2, 2)), 0.0, 0.0 if rng.random() < 0.4 else float(10 ** rng.uniform(-3, 2))
        ed = md + float(10 ** rng.uniform(-2, 3))
        z = float(rng.uniform(-1, 1))
        g, b = ep / m, np.sqrt(1 - (m / ep) ** 2)
        k = np.sqrt(ed * ed - md * md)
        rec.close(cy["boost_eng"](ep, m, ed, md, z), g * (ed + b * k * z), "cython:boost_eng", rtol=1e-11, ep=ep, m=m, ed=ed, md=md, z=z)
        want = (k / ed) / (g * (1 + b * z * k / ed))
        rec.close(cy["boost_jac"](ep, m, ed, md, z), want, "cython:boost_jac", rtol=1e-9, ep=ep, m=m, ed=ed, md=md, z=z)
    rec.ok(np.isnan(_core.boost.boost_beta(1.0, 2.0)), "beta:below-mass")


def cython_funcs():
    import hazma._utils.boost as mod
    cap = mod.__pyx_capi__
    ctypes.pythonapi.PyCapsule_GetPointer.restype = ctypes.c_void_p
    ctypes.pythonapi.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    ctypes.pythonapi.PyCapsule_GetName.restype = ctypes.c_char_p
    ctypes.pythonapi.PyCapsule_GetName.argtypes = [ctypes.py_object]
    d = ctypes.c_double
    out = {}
    for name, sig in (("boost_delta_function", [d] * 4), ("boost_jac", [d] * 5), ("boost_eng", [d] * 5)):
        c = cap[name]
        p = ctypes.pythonapi.PyCapsule_GetPointer(c, ctypes.pythonapi.PyCapsule_GetName(c))
        out[name] = ctypes.PYFUNCTYPE(d, *sig)(p)
    c = cap["boost_integrate_linear_interp"]
    p = ctypes.pythonapi.PyCapsule_GetPointer(c, ctypes.pythonapi.PyCapsule_GetName(c))
    out["boost_integrate_linear_interp"] = ctypes.PYFUNCTYPE(d, d, d, ctypes.py_object, ctypes.py_object)(p)
    return out


def tasks(ck):
    return [("lines-python", lines, "python"), ("lines-native", lines, "native"), ("lines-cython", lines, "cython"),
            ("double", double, None), ("funcs", funcs, None), ("compose", compose, None), ("arrays", arrays, None),
            ("tables-native", tables, "native"), ("tables-cython", tables, "cython"), ("params", params, None)]
