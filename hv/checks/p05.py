"""Equilibrium thermodynamics used by the freeze-out calculation."""
import numpy as np
from scipy import integrate as si
from scipy import special as sp

PROPERTY = "P05"
NATIVE = None
RULE = ("one (temperature, mass, statistics, d.o.f.) point per event over twelve decades of temperature and 0<=m/T<=300; "
        "densities compared with the Bessel series and with direct quantum-statistics momentum integrals, derivatives with "
        "finite differences; non-trivial = non-zero reference")
ASSUME = ["the five-term Bessel series is the defined approximation; direct integrals are compared at its own truncation error"]



def series(T, m, g, eta):
    if m == 0:
        z = sp.zeta(3) / np.pi**2
        return g * T**3 * (z if eta > 0 else 0.75 * z)
    x = m / T
    return g * T**3 * x * x / (2 * np.pi**2) * sum(eta ** (n + 1) / n * sp.kn(2, n * x) for n in range(1, 6))


def dseries(T, m, g, eta):
    """Closed-form temperature derivative of the series."""
    if m == 0:
        return 3 * series(T, 0, g, eta) / T
    x = m / T
    n0 = series(T, m, g, eta)
    # d/dT [T^3 f(x)] = 3 n/T - T^2 x f'(x); f' = -(x^2/2pi^2) sum eta^(n+1) K1(nx)
    fp = -g * x * x / (2 * np.pi**2) * sum(eta ** (n + 1) * sp.k1(n * x) for n in range(1, 6))
    return 3 * n0 / T - T**2 * x * fp


def exact(T, m, g, eta):
    x = m / T
    # the Boltzmann factor of the rest mass is taken out so tiny densities stay comparable
    f = lambda p: p * p * np.exp(-(np.hypot(p, x) - x)) / (1 - eta * np.exp(-np.hypot(p, x)))
    hi = 60 + 8 * np.sqrt(60 * x)
    v = si.quad(f, 0, min(5, hi), epsrel=1e-10)[0] + si.quad(f, min(5, hi), hi, epsrel=1e-10, limit=200)[0]
    return g * T**3 * v * np.exp(-x) / (2 * np.pi**2)


def draw(rng):
    T = 10 ** rng.uniform(-4, 8)
    k = rng.integers(0, 6)
    x = 0.0 if k == 0 else 10 ** rng.uniform(-3, 2.4)
    return float(T), float(x * T), float(rng.choice([1.0, 2.0, 3.0, 4.0])), bool(rng.integers(2))


def density(rec, i):
    from hazma.relic_density import _thermal_functions as tf
    rng = rec.rng
    for _ in range(rec.n(4000, 30000)):
        T, m, g, ferm = draw(rng)
        eta = -1 if ferm else 1
        d = dict(T=T, m=m, g=g, ferm=ferm)
        want = series(T, m, g, eta)
        got = tf.neq(T, m, g=g, is_fermion=ferm)
        rec.close(got, want, "neq:series", rtol=1e-9, **d)
        x = m / T
        trunc = 0.02 if (x < 0.5) else 2 * np.exp(-5 * x) + 1e-7
        if rng.random() < 0.3:
            rec.close(got, exact(T, m, g, eta), "neq:quantum-statistics", rtol=trunc, **d)
        rec.ok(got >= 0, "neq:positive", **d)
        dn = tf.neq_deriv(T, m, g=g, is_fermion=ferm)
        rec.close(dn, dseries(T, m, g, eta), "neq_deriv:series", rtol=1e-8, **d)
        h = 1e-5 * T / (1 + x)
        num = (series(T + h, m, g, eta) - series(T - h, m, g, eta)) / (2 * h)
        rec.close(dn, num, "neq_deriv:finite-difference", rtol=1e-5, **d)
        rec.close(tf.neq(T, m, g=2 * g, is_fermion=ferm), 2 * got, "neq:linear-in-dof", rtol=1e-12, **d)
        lam = 10 ** rng.uniform(-2, 2)
        rec.close(tf.neq(lam * T, lam * m, g=g, is_fermion=ferm), lam**3 * got, "neq:dimensional-scaling", rtol=1e-9, **d)
    for _ in range(rec.n(60, 600)):
        T, m, g, _f = draw(rng)
        rec.close(tf.neq(T, m), series(T, m, 2.0, -1), "neq:defaults", rtol=1e-9, T=T, m=m)
        f, b = tf.neq(T, m, g=g, is_fermion=True), tf.neq(T, m, g=g, is_fermion=False)
        rec.ok(f <= b * (1 + 1e-12), "neq:bosons-above-fermions", T=T, m=m)
        if 0 < m < 200 * T:
            rec.ok(tf.neq(T, 1.1 * m, g=g) < tf.neq(T, m, g=g), "neq:decreasing-in-mass", T=T, m=m)


def arrays(rec, i):
    from hazma.relic_density import _thermal_functions as tf
    rng = rec.rng
    for _ in range(rec.n(400,3000)):
        _T, m, g, ferm = draw(rng)
        m = m if m == 0 else float(10 ** rng.uniform(-2, 5))
        n = int(rng.integers(1, 12))
        Ts = (m or 1.0) / 10 ** rng.uniform(-2, 2.2, n)
        T0 = Ts.copy()
        for fn in (tf.neq, tf.neq_deriv, tf.yeq, tf.yeq_deriv):
            want = np.array([fn(float(t), m, g=g, is_fermion=ferm) for t in Ts])
            got = fn(Ts, m, g=g, is_fermion=ferm)
            # massless yeq_deriv is a pure cancellation: bound it by the size of the terms
            at = 1e-9 * np.array([tf.yeq(float(t), m, g=g, is_fermion=ferm) / t for t in Ts]) if "yeq_d" in fn.__name__ else 0
            rec.close(got, want, f"{fn.__name__}:array-equals-scalar", rtol=1e-10, atol=at, m=m, n=n)
            rec.close(fn(list(Ts), m, g=g, is_fermion=ferm), want, f"{fn.__name__}:list", rtol=1e-10, atol=at, m=m, n=n)
        if m > 0:
            want = np.array([tf.yeq_derivx(float(m / t), m, g=g, is_fermion=ferm) for t in Ts])
            rec.close(tf.yeq_derivx(m / Ts, m, g=g, is_fermion=ferm), want, "yeq_derivx:array-equals-scalar", rtol=1e-10, m=m)
        rec.ok(np.array_equal(Ts, T0), "inputs-unchanged", m=m)
        for fn in (tf.sm_dof_entropy, tf.sm_sqrt_gstar, tf.sm_entropy_density, tf.sm_entropy_density_deriv):
            want = np.array([float(fn(float(t))) for t in Ts])
            rec.close(fn(Ts), want, f"{fn.__name__}:array-equals-scalar", rtol=1e-12, n=n)


def comoving(rec, i):
    from hazma.relic_density import _thermal_functions as tf
    rng = rec.rng
    for _ in range(rec.n(3000,20000)):
        T, m, g, ferm = draw(rng)
        eta = -1 if ferm else 1
        d = dict(T=T, m=m, g=g, ferm=ferm)
        h = float(tf.sm_dof_entropy(T))
        s = 2 * np.pi**2 / 45 * h * T**3
        rec.close(tf.sm_entropy_density(T), s, "entropy:definition", rtol=1e-10, T=T)
        y = tf.yeq(T, m, g=g, is_fermion=ferm)
        rec.close(y, series(T, m, g, eta) / s, "yeq:definition", rtol=1e-9, **d)
        w = tf.weq(T, m, g=g, is_fermion=ferm)
        rec.close(w, np.log(y) if y > 0 else -np.inf, "weq:log", rtol=1e-9, atol=1e-12, **d)
        ds = tf.sm_entropy_density_deriv(T)
        dy = tf.yeq_deriv(T, m, g=g, is_fermion=ferm)
        n0, dn = series(T, m, g, eta), dseries(T, m, g, eta)
        rec.close(dy, dn / s - n0 * ds / s**2, "yeq_deriv:quotient-rule", rtol=1e-6, atol=1e-9 * n0 / s / T, **d)
        e = 1e-6 * T
        num = (float(tf.sm_entropy_density(T + e)) - float(tf.sm_entropy_density(T - e))) / (2 * e)
        # the table is clamped outside its range, where the tabulated derivative is one-sided
        if 0.03 < T < 1.1e7:
            rec.close(ds, num, "entropy-deriv:finite-difference", rtol=1e-4, T=T)
        if m > 0:
            x = m / T
            rec.close(tf.yeq_derivx(x, m, g=g, is_fermion=ferm), -m * dy / x**2, "yeq_derivx:chain-rule", rtol=1e-8, **d)
    rec.ok(tf.weq(1.0, 1e6) == -np.inf, "weq:underflow")
    rec.close(tf.weq(1.0, 3.0), np.log(tf.yeq(1.0, 3.0)), "weq:defaults", rtol=1e-10)


def dof(rec, i):
    from hazma.relic_density import _thermal_functions as tf
    import json
    from pathlib import Path
    ref = json.loads((Path(__file__).resolve().parents[2] / "ref" / "smdof.json").read_text())
    for T, g, h in ref:
        rec.close(float(tf.sm_sqrt_gstar(T)), g, "sqrt_gstar:reference", rtol=2e-4, T=T)
        rec.close(float(tf.sm_dof_entropy(T)), h, "heff:reference", rtol=2e-4, T=T)
    T = np.geomspace(1e-4, 1e9, 4000)
    h, g = tf.sm_dof_entropy(T), tf.sm_sqrt_gstar(T)
    rec.ok(np.all((h > 3.9) & (h < 107)), "heff:physical-range")
    rec.ok(np.all((g > 2.0) & (g < 10.7)), "sqrt_gstar:physical-range")
    rec.ok(np.all(np.diff(h) > -0.02 * h[:-1]), "heff:essentially-monotone")
    s = tf.sm_entropy_density(T)
    rec.ok(np.all(np.diff(s) > 0), "entropy:increasing")
    rec.close(h[T < 0.0199], h[0], "heff:clamped-low", rtol=1e-12)
    rec.close(h[T > 1.26e7], h[-1], "heff:clamped-high", rtol=1e-12)
    rec.close(g[T < 0.0199], g[0], "gstar:clamped-low", rtol=1e-12)
    rec.close(g[T > 1.26e7], g[-1], "gstar:clamped-high", rtol=1e-12)
    # sqrt(g*) = h/sqrt(g_eff) (1 + T h'/(3h)): g_eff must stay physical
    mid = (T > 0.03) & (T < 1e7)
    dh = np.gradient(h, np.log(T))
    geff = (h / g * (1 + dh / (3 * h))) ** 2
    rec.ok(np.all((geff[mid] > 3.2) & (geff[mid] < 112)), "dof:consistent-geff")


def tasks(ck):
    t = [(f"density-{i}", density, i) for i in range(3)]
    t += [(f"arrays-{i}", arrays, i) for i in range(2)]
    t += [(f"comoving-{i}", comoving, i) for i in range(2)]
    return t + [("dof", dof, 0)]
