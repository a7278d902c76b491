"""Thermal averages and freeze-out relic density."""
import types
import warnings
import numpy as np
from scipy import integrate as si
from scipy import special as sp
from scipy import optimize as so
from . import p05

PROPERTY = "P06"
NATIVE = "all"
RULE = ("one (model, x) thermal average, Boltzmann right-hand side, freeze-out point or relic density per event; toy models "
        "with power-law, threshold and resonant cross sections plus the shipped scalar and vector mediators; oracles are "
        "independent quadratures and an independent stiff integration in Y; non-trivial = non-zero reference")
ASSUME = ["semi-analytic result judged at 20% against the numeric solution, and exactly against its own formula", "d.o.f. tables judged separately by P05"]

MPL = 1.22091e22
S0 = 2891.2
RHOC = 1.05375e-2


class Cross:
    """Model defined only by annihilation cross sections."""

    def __init__(self, mx, f):
        self.mx = mx
        self.f = f
        self.calls = []

    def annihilation_cross_sections(self, cme):
        self.calls.append(cme)
        v = self.f(cme)
        return {"a": 0.25 * v, "b": 0.75 * v, "total": v}


class Toy:
    def __init__(self, mx, s0, n=0):
        self.mx, self.s0, self.n = mx, s0, n

    def thermal_cross_section(self, x):
        return self.s0 * x ** (-self.n)


def reference_tcs(x, mx, sig, pts=()):
    """Gondolo-Gelmini average with exponentially scaled Bessel functions."""
    f = lambda z: sig(mx * z) * z * z * (z * z - 4) * sp.k1e(x * z) * np.exp(-x * (z - 2))
    hi = 2 + 60 / x
    # unit length of variation: the Boltzmann tail and any marked structure
    edges = sorted({2.0, hi, *[2 + k / x for k in (0.3, 1, 3, 8, 20)], *[p for p in pts if 2 < p < hi]})
    edges = [e for e in edges if e <= hi]
    tot = sum(si.quad(f, a, b, epsabs=0, epsrel=1e-9, limit=200)[0] for a, b in zip(edges[:-1], edges[1:]))
    return x / (2 * sp.kve(2, x)) ** 2 * tot


def generic(rec, i):
    from hazma.relic_density import _thermal_functions as tf
    rng = rec.rng
    for k in range(rec.n(120, 1000)):
        mx = 10 ** rng.uniform(-1, 5)
        x = float(10 ** rng.uniform(-1.5, np.log10(299)))
        s0 = 10 ** rng.uniform(-25, 0)
        kind = k % 4
        pts = ()
        if kind == 0:
            sig = lambda e: s0
        elif kind == 1:
            sig = lambda e: s0 * (e / (2 * mx)) ** -2
        elif kind == 2:
            sig = lambda e: s0 / np.sqrt(1 - 4 * mx**2 / e**2)
        else:
            M, G = mx * rng.uniform(2.5, 4), 0.6 * mx
            sig = lambda e: s0 * mx**4 / ((e * e - M * M) ** 2 + M * M * G * G)
            pts = (M / mx,)
        m = Cross(mx, sig)
        got = tf.thermal_cross_section(x, m)
        want = reference_tcs(x, mx, sig, pts)
        rec.close(got, want, "average:value", rtol=2e-5, kind=kind, x=x, mx=mx, s0=s0)
        rec.ok(min(m.calls) >= 2 * mx * (1 - 1e-12), "average:evaluates-above-threshold-only", x=x, mx=mx, lowest=min(m.calls) / mx)
        if kind == 2:
            # s-wave: <sigma v> tends to 2*s0-ish constant in the cold limit
            rec.ok(0.5 < got / (2 * s0) < 1.2 if x > 30 else got > 0, "average:cold-limit", x=x, got=got, s0=s0)
        m2 = Cross(mx, lambda e: 3 * sig(e))
        rec.close(tf.thermal_cross_section(x, m2), 3 * got, "average:linear", rtol=1e-6, x=x)
        z = rng.uniform(2, 6)
        rec.close(tf.thermal_cross_section_integrand(z, x, Cross(mx, sig)), sig(mx * z) * z * z * (z * z - 4) * sp.k1(x * z),
                  "integrand:value", rtol=1e-9, x=x, z=z)
        # a model's own thermal average takes precedence
        t = Toy(mx, s0, int(rng.integers(0, 3)))
        rec.close(tf.thermal_cross_section(x, t), t.thermal_cross_section(x), "average:delegates", rtol=1e-12, x=x)
    for x in (300.5, 1e3, 1e5):
        rec.ok(tf.thermal_cross_section(x, Cross(10.0, lambda e: 1.0)) == 0.0, "average:frozen-out", x=x)


def gstar(T):
    from hazma.relic_density import _thermal_functions as tf
    return float(tf.sm_sqrt_gstar(T))


def boltzmann(rec, i):
    from hazma.relic_density import _diffeq as de, _thermal_functions as tf
    rng = rec.rng
    for _ in range(rec.n(800, 8000)):
        mx = 10 ** rng.uniform(-2, 6)
        x = float(10 ** rng.uniform(-0.5, 2.2))
        m = Toy(mx, 10 ** rng.uniform(-22, -8), int(rng.integers(0, 3)))
        T = mx / x
        weq = float(np.log(p05.series(T, mx, 2.0, -1) / (2 * np.pi**2 / 45 * float(tf.sm_dof_entropy(T)) * T**3)))
        w = weq + rng.normal() * 3
        lam = np.sqrt(np.pi / 45) * MPL * mx * gstar(T) / x * m.thermal_cross_section(x)
        want = -lam * (np.exp(w) - np.exp(2 * weq - w))
        got = de.boltzmann_eqn(np.log(x), np.array([w]), m)
        rec.close(np.ravel(got)[0], want, "rhs:value", rtol=1e-6, x=x, mx=mx, w=w)
        rec.ok(np.ravel(got)[0] * (w - weq) <= 0, "rhs:relaxes-to-equilibrium", x=x, mx=mx, w=w, weq=weq)
        jac = np.ravel(de.jacobian_boltzmann_eqn(np.log(x), np.array([w]), m))[0]
        rec.close(jac, -lam * (np.exp(w) + np.exp(2 * weq - w)), "jacobian:value", rtol=1e-6, x=x, mx=mx, w=w)
        h = 1e-5
        num = (np.ravel(de.boltzmann_eqn(np.log(x), np.array([w + h]), m))[0]
               - np.ravel(de.boltzmann_eqn(np.log(x), np.array([w - h]), m))[0]) / (2 * h)
        rec.close(jac, num, "jacobian:finite-difference", rtol=1e-4, atol=1e-9 * abs(num), x=x, mx=mx, w=w)
        eq = np.ravel(de.boltzmann_eqn(np.log(x), np.array([weq]), m))[0]
        rec.ok(abs(eq) <= 1e-8 * lam * np.exp(weq), "rhs:zero-at-equilibrium", x=x, mx=mx)


def own_yield(mx, sv, x0=1.0, xf=None):
    """Independent stiff integration (logit-free, in log Y, tight tolerances)."""
    from hazma.relic_density import _thermal_functions as tf
    xf = x0 * np.exp(7.0) if xf is None else xf

    def leq(x):
        T = mx / x
        # scaled Bessel series keeps the log finite at large x
        s = sum((-1) ** (n + 1) / n * sp.kve(2, n * x) * np.exp(-(n - 1) * x) for n in range(1, 6))
        neq = np.log(2 * T**3 * x * x / (2 * np.pi**2) * s) - x
        return neq - np.log(2 * np.pi**2 / 45 * float(tf.sm_dof_entropy(T)) * T**3)

    def rhs(lx, w):
        x = np.exp(lx)
        lam = np.sqrt(np.pi / 45) * MPL * mx * gstar(mx / x) / x * sv(x)
        return [-lam * (np.exp(w[0]) - np.exp(2 * leq(x) - w[0]))]

    def jac(lx, w):
        x = np.exp(lx)
        lam = np.sqrt(np.pi / 45) * MPL * mx * gstar(mx / x) / x * sv(x)
        return [[-lam * (np.exp(w[0]) + np.exp(2 * leq(x) - w[0]))]]
    s = si.solve_ivp(rhs, (np.log(x0), np.log(xf)), [leq(x0)], method="BDF", jac=jac, rtol=1e-8, atol=1e-8)
    return np.exp(s.y[0, -1]), leq


def solver(rec, i):
    from hazma.relic_density import relic_density, _diffeq as de, _approx as ap
    from hazma.relic_density import _thermal_functions as tf
    rng = rec.rng
    last = None
    for k in range(rec.n(10, 80)):
        mx = float(10 ** rng.uniform(0.5, 6))
        n = int(rng.choice([0, 0, 1]))
        s0 = float(10 ** rng.uniform(-17, -12)) * (20.0**n)
        m = Toy(mx, s0, n)
        sv = m.thermal_cross_section
        Y, leq = own_yield(mx, sv)
        want = Y * mx * S0 / RHOC
        num = relic_density(m, semi_analytic=False)
        rec.close(num, want, "relic:numeric", rtol=0.01, mx=mx, s0=s0, n=n)
        num2 = relic_density(m, semi_analytic=False, rtol=1e-8, atol=1e-8)
        rec.close(num2, want, "relic:numeric-tight", rtol=1e-4, mx=mx, s0=s0, n=n)
        semi = relic_density(m)
        rec.close(semi, want, "relic:semi-analytic", rtol=0.2, mx=mx, s0=s0, n=n)
        # options
        x0, xf = float(rng.uniform(0.5, 5)), float(rng.uniform(300, 5000))
        Yo, _ = own_yield(mx, sv, x0, xf)
        o = relic_density(m, semi_analytic=False, x0=x0, xf=xf, method="BDF", rtol=1e-7, atol=1e-7)
        rec.close(o, Yo * mx * S0 / RHOC, "relic:options", rtol=1e-3, mx=mx, x0=x0, xf=xf)
        sol = de.solve_boltzmann(m, x0=x0, xf=xf)
        rec.ok(sol.success and abs(sol.t[0] - np.log(x0)) < 1e-12 and abs(sol.t[-1] - np.log(xf)) < 1e-9, "solver:span", x0=x0, xf=xf)
        for span, t0, t1 in ((dict(x0=x0), np.log(x0), np.log(x0) + 7), (dict(xf=xf), 0.0, np.log(xf))):
            sol = de.solve_boltzmann(m, **span)
            rec.ok(abs(sol.t[0] - t0) < 1e-12 and abs(sol.t[-1] - t1) < 1e-9, "solver:half-given-span", t=sol.t[[0, -1]], **span)
        sol = de.solve_boltzmann(m)
        rec.ok(abs(sol.t[0]) < 1e-12 and abs(sol.t[-1] - 7) < 1e-9, "solver:default-span", t=sol.t[[0, -1]])
        w = sol.y[0]
        late = w[sol.t > np.log(ap.compute_xstar(m))]
        rec.ok(np.all(np.diff(late) < 0.02), "solver:yield-decreases-after-freeze-out", mx=mx, s0=s0)
        rec.ok(all(w[j] >= leq(np.exp(sol.t[j])) - 0.02 for j in range(len(w))), "solver:never-below-equilibrium", mx=mx, s0=s0)
        # semi-analytic pieces
        for delta in (None, 0.3, 1.5, float(rng.uniform(2.0, 8.0))):
            xs = ap.compute_xstar(m, delta=delta)
            db = 1.0 if delta is None else delta * (2 + delta) / (1 + delta)

            def res(x):
                T = mx / x
                e = 1e-5
                dY = (np.exp(leq(x * (1 + e))) - np.exp(leq(x * (1 - e)))) / (2 * e * x)
                return x * x * dY + np.sqrt(np.pi / 45) * mx * MPL * gstar(T) * db * sv(x) * np.exp(2 * leq(x))
            a, b = res(xs * 0.995), res(xs * 1.005)
            rec.ok(a * b < 0, "xstar:is-a-root", xs=xs, mx=mx, s0=s0, delta=str(delta))
            r = ap.xstar_root_eqn(xs * 1.1, m, delta)
            rec.close(r, res(xs * 1.1), "xstar:residual", rtol=1e-3, xs=xs, mx=mx, delta=str(delta))
            al = ap.compute_alpha(m, xs)
            I = si.quad(lambda u: gstar(mx / np.exp(u)) * sv(np.exp(u)) / np.exp(u), np.log(xs), np.log(100 * xs),
                        epsrel=1e-8, epsabs=0, limit=300)[0]
            rec.close(al, np.sqrt(np.pi / 45) * mx * MPL * I, "alpha:value", rtol=2e-3, xs=xs, mx=mx)
            ys = np.exp(leq(xs))
            rec.close(relic_density(m, delta=delta), ys / (1 + ys * al) * mx * S0 / RHOC, "relic:semi-analytic-formula",
                      rtol=1e-4, mx=mx, delta=str(delta))
        rec.ok(relic_density(Toy(mx, 3 * s0, n)) < semi, "relic:decreases-with-cross-section", mx=mx, s0=s0)
        rec.ok(relic_density(Toy(mx, 3 * s0, n), semi_analytic=False) < num, "relic:numeric-decreases", mx=mx, s0=s0)
        # generic models (no thermal average of their own) reach the same answer
        if k % 3 == 0:
            c = Cross(mx, lambda e: s0 / 2 / np.sqrt(1 - 4 * mx**2 / e**2) if e > 2 * mx else 0.0)
            tc = lambda x: reference_tcs(min(x, 299.0), mx, c.f) if x <= 300 else 0.0
            g = relic_density(c)
            xs = ap.compute_xstar(c)
            grid = np.geomspace(xs, 299.9, 60)
            I = np.trapezoid([gstar(mx / x) * tc(x) / x for x in grid], np.log(grid))
            ys = np.exp(leq(xs))
            al = np.sqrt(np.pi / 45) * mx * MPL * I
            rec.close(g, ys / (1 + ys * al) * mx * S0 / RHOC, "relic:generic-model", rtol=0.03, mx=mx, s0=s0)


def _twin(m, x, kind):
    """The documented scipy spelling of the native mediators' thermal average."""
    if kind == "scalar":
        if x > 300:
            return 0.0
        xn, floor, md, fl = x, 50 / x, m.ms, 100.0
    else:
        xn = min(x, 300.0)
        floor, md, fl = 50 / xn, m.mv, 150.0
    up = max(floor, fl)
    f = lambda z: (m.annihilation_cross_sections(m.mx * z)["total"] * z * z * (z * z - 4) * sp.k1(xn * z))
    v = si.quad(f, 2.0, up, points=[2.0, md / m.mx, 2 * md / m.mx])[0]
    return xn / (2 * sp.kn(2, xn)) ** 2 * v


def _models(rng):
    from hazma.scalar_mediator import HiggsPortal, HeavyQuark, ScalarMediator
    from hazma.vector_mediator import KineticMixing, QuarksOnly, VectorMediator
    mx = float(10 ** rng.uniform(0.5, 3))
    M = float(mx * 10 ** rng.uniform(-0.6, 0.8))
    g = float(10 ** rng.uniform(-2, 0.5))
    e = float(10 ** rng.uniform(-4, -1))
    k = rng.integers(0, 6)
    if k == 5:                # light enough that the electron's mass matters
        mx = float(rng.uniform(0.3, 0.7))
        M = float(mx * rng.uniform(2.5, 30))
        if rng.random() < 0.5:
            return "scalar", ScalarMediator(mx=mx, ms=M, gsxx=g, gsff=1e3 * e, gsGG=0.0, gsFF=0.0, lam=2e5)
        return "vector", VectorMediator(mx=mx, mv=M, gvxx=g, gvuu=0.0, gvdd=0.0, gvss=0.0, gvee=2 * e, gvmumu=0.0)
    if k == 0:
        return "scalar", HiggsPortal(mx=mx, ms=M, gsxx=g, stheta=e)
    if k == 1:
        return "scalar", HeavyQuark(mx=mx, ms=M, gsxx=g, gsQ=e, mQ=1e6, QQ=2 / 3)
    if k == 2:
        return "scalar", ScalarMediator(mx=mx, ms=M, gsxx=g, gsff=e, gsGG=0.1, gsFF=0.3, lam=2e5)
    if k == 3:
        return "vector", KineticMixing(mx=mx, mv=M, gvxx=g, eps=e)
    return "vector", VectorMediator(mx=mx, mv=M, gvxx=g, gvuu=e, gvdd=-e / 3, gvss=0.0, gvee=2 * e, gvmumu=e)


def native(rec, i):
    """The mediators' own thermal averages: against the same average taken in Python
    over the model's own total cross section."""
    from hazma.relic_density import _thermal_functions as tf, relic_density
    rng = rec.rng
    for _ in range(rec.n(60, 500)):
        kind, m = _models(rng)
        x = float(rng.choice([10 ** rng.uniform(-0.5, 2.47), 299.9, 300.0, 300.1, 500.0]))
        got = m.thermal_cross_section(x)
        want = _twin(m, x, kind)
        rec.close(got, want, "native:twin", rtol=1e-5 if m.mx > 1 else 2e-4, atol=1e-300, kind=kind, x=x, mx=m.mx)
        rec.close(tf.thermal_cross_section(x, m), got, "native:delegated", rtol=1e-12, kind=kind, x=x)
        rec.ok(np.isfinite(got) and got >= -2e-8 * x / (2 * sp.kn(2, min(x, 300.0))) ** 2, "native:finite", kind=kind, x=x, mx=m.mx)
        if x < 3:
            # relative tolerance binds here, so the native value must be the converged one
            md = m.ms if kind == "scalar" else m.mv
            w = m.width_s if kind == "scalar" else m.width_v
            if md < 2 * m.mx or w > 1e-2 * md:
                ref = reference_tcs(x, m.mx, lambda e: m.annihilation_cross_sections(e)["total"],
                                    pts=(md / m.mx, 2 * md / m.mx))
                rec.ok(abs(got - ref) < 0.05 * ref + 2e-8 * x / (2 * sp.kn(2, x)) ** 2, "native:converged-hot", kind=kind, x=x, got=got, want=ref)


PROBES = [("vector", dict(mx=100.0, mv=300.0, gvxx=1.0, eps=0.1)), ("scalar", dict(mx=100.0, ms=300.0, gsxx=1.0, stheta=0.1))]


def converged(rec, i):
    """Strict convergence at fixed probe points (known finding: the native average stops
    at scipy's absolute tolerance)."""
    from hazma.scalar_mediator import HiggsPortal
    from hazma.vector_mediator import KineticMixing
    for kind, kw in PROBES:
        m = KineticMixing(**kw) if kind == "vector" else HiggsPortal(**kw)
        md = kw.get("mv") or kw.get("ms")
        for x in (5.0, 20.0, 100.0):
            ref = reference_tcs(x, m.mx, lambda e: m.annihilation_cross_sections(e)["total"], pts=(md / m.mx, 2 * md / m.mx))
            got = m.thermal_cross_section(x)
            rec.close(got, ref, f"native:converged:{kind}:mx=100:x={x:g}", rtol=1e-3)
            rec.ok(abs(got - ref) < 0.25 * ref, f"native:roughly-converged:{kind}:x={x:g}", got=got, ref=ref)


def limit(rec, i):
    """The relic-density limit returns <sigma v> at the coupling that saturates Omega h^2."""
    from hazma.limits import RelicDensityLimit
    from hazma.relic_density import relic_density
    from hazma import parameters as P
    rng = rec.rng

    class M:
        def __init__(self, mx, g):
            self.mx, self.g = mx, g

        def thermal_cross_section(self, x):
            return self.g**2 * 1e-14

        def annihilation_cross_sections(self, cme):
            v = np.sqrt(max(1 - 4 * self.mx**2 / cme**2, 0))
            return {"total": self.g**2 * 1e-14 / (2 * v)}
    for _ in range(rec.n(12, 80)):
        mx = float(10 ** rng.uniform(1, 5))
        g0 = float(10 ** rng.uniform(-3, 3))
        m = M(mx, g0)
        vx = float(10 ** rng.uniform(-4, -1))
        lim = RelicDensityLimit("g", 1e-4, 1e4, vx=vx, log=True)
        out = np.ravel(lim.constrain([m]))[0]
        rec.ok(m.g == g0 and m.mx == mx, "limit:model-unchanged", mx=mx, g0=g0)
        g = so.brentq(lambda lg: relic_density(M(mx, 10**lg)) - P.omega_h2_cdm, -4, 4, xtol=1e-12)
        g = 10**g
        cme = 2 * mx * (1 + 0.5 * vx**2)
        want = M(mx, g).annihilation_cross_sections(cme)["total"] * vx * P.sv_inv_MeV_to_cm3_per_s
        rec.close(out, want, "limit:value", rtol=1e-5, mx=mx, vx=vx)
        rec.close(relic_density(M(mx, g)), 0.1198, "limit:saturates", rtol=1e-6, mx=mx)
        lin = RelicDensityLimit("g", g / 50, g * 50, vx=vx, log=False)
        rec.close(np.ravel(lin.constrain([m]))[0], want, "limit:linear", rtol=1e-5, mx=mx, vx=vx)
        for log in (True, False):                   # the range given is the range searched
            near = RelicDensityLimit("g", g / 1.03, g * 1.02, vx=vx, log=log)
            rec.close(np.ravel(near.constrain([m]))[0], want, "limit:bracket", rtol=1e-5, mx=mx, vx=vx, log=log)
            for a, b in ((1.02, 1.5), (0.5, 0.98)):
                off = RelicDensityLimit("g", a * g, b * g, vx=vx, log=log)
                rec.ok(np.isnan(np.ravel(off.constrain([m]))[0]), "limit:bracket", mx=mx, lo=a, hi=b, log=log)
        bad = RelicDensityLimit("g", 1e3 * g, 1e4 * g, vx=vx)
        rec.ok(np.isnan(np.ravel(bad.constrain([m]))[0]), "limit:no-solution-nan", mx=mx)


GEV2 = ["e e", "mu mu", "ve ve", "vt vt", "vm vm", "pi pi", "k0 k0", "k k", "pi0 gamma", "eta gamma", "pi0 phi", "eta phi", "eta omega", "v v"]
GEV3 = ["pi0 pi0 gamma", "pi pi pi0", "pi pi eta", "pi pi etap", "pi pi omega", "pi0 pi0 omega", "pi0 k0 k0", "pi0 k k", "pi k k0"]
GEV4 = ["pi pi pi pi", "pi pi pi0 pi0"]


def _gev(rng):
    from hazma.vector_mediator import VectorMediatorGeV, KineticMixingGeV, BLGeV
    mx = float(10 ** rng.uniform(0.7, 2.9))
    mv = 2 * mx * float(rng.uniform(0.6, 1.5)) if rng.random() < 0.7 else float(10 ** rng.uniform(0.3, 3.4))
    gx, e = float(10 ** rng.uniform(-2, 0.3)), float(10 ** rng.uniform(-5, -1))
    k = rng.integers(0, 3)
    if k == 0:
        m = KineticMixingGeV(mx, mv, gx, e)
    elif k == 1:
        m = BLGeV(mx, mv, gx, e)
    else:
        m = VectorMediatorGeV(mx, mv, gx, *[float(e * rng.uniform(-1, 1)) for _ in range(8)])
    return m, mx, mv


def _gev_width(m):
    return float(sum(m.partial_widths(npts=200).values()))


def _pole_points(mx, mv, w):
    r, w = mv / mx, w / mx
    n = int(np.clip(np.ceil(np.log10(50 / w)), 0, 40)) if w > 0 else 0
    return [r, 2 * r] + [r + s * f * w * 10.0**k for s in (-1, 1) for k in range(n) for f in (1, 3)]


def gev_channels(rec, i):
    """The GeV model's relic density depletes through exactly its two-body (optionally
    three- and four-body) channels: every channel replaced by a recognisable toy."""
    from hazma.relic_density import relic_density
    rng = rec.rng
    from hazma.relic_density import _diffeq
    for j in range(rec.n(6, 60)):
        m, mx, mv = _gev(rng)
        w = _gev_width(m)
        three, four = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
        keys = list(m.annihilation_cross_section_funcs())
        rec.ok(set(GEV2 + GEV3 + GEV4) == set(keys), "gev:keys", have=keys)
        on = set(GEV2) | (set(GEV3) if three else set()) | (set(GEV4) if four else set())
        weight = {k: float(rng.uniform(0.2, 1.0)) for k in keys}
        s0 = float(10 ** rng.uniform(-15, -12))
        shape = int(rng.integers(0, 3))
        if shape == 1 and w > 0:
            # a pole at the mediator mass with the mediator's own width, on top of a flat part
            f = lambda c: s0 * (1 + 30 * mx / w * (w * mv) ** 2 / ((c * c - mv * mv) ** 2 + (w * mv) ** 2))
        elif shape == 2:
            f = lambda c: s0 * (1 + (5 * np.sqrt(1 - (2 * mv / c) ** 2) if c > 2 * mv else 0.0))
        else:
            f = lambda c: s0
        m.annihilation_cross_section_funcs = lambda: {k: (lambda c, q=weight[k]: q * f(c)) for k in keys}
        pts = _pole_points(mx, mv, w)
        tot = sum(weight[k] for k in on)
        cache = {}

        def tcs(x):
            if x > 300:
                return 0.0
            if x not in cache:
                cache[x] = reference_tcs(x, mx, lambda c: tot * f(c), pts=pts)
            return cache[x]
        twin = types.SimpleNamespace(mx=mx, thermal_cross_section=tcs)
        kw = dict(three_body=three, four_body=four)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = m.relic_density(**kw)
            want = relic_density(twin)
        rec.close(got, want, "gev:channels", rtol=1e-3, mx=mx, mv=mv, shape=shape, width=w, three=three, four=four)
        rec.seen((three, four, shape))


def gev_options(rec, i):
    """Solver options reach the solver."""
    from hazma.relic_density import relic_density
    rng = rec.rng
    for _ in range(rec.n(3, 12)):
        m, mx, mv = _gev(rng)
        s0 = float(10 ** rng.uniform(-15, -12))
        m.annihilation_cross_section_funcs = lambda: {"e e": lambda c: s0}
        twin = types.SimpleNamespace(mx=mx, thermal_cross_section=lambda x: reference_tcs(x, mx, lambda c: s0) if x <= 300 else 0.0)
        for kw in (dict(semi_analytic=True, delta=0.3), dict(semi_analytic=True, delta=1.5), dict(semi_analytic=False, x0=3.0, xf=250.0),
                   dict(semi_analytic=False, x0=1.0, xf=60.0, rtol=1e-6, atol=1e-9), dict(semi_analytic=False, x0=2.0, xf=200.0, method="BDF")):
            got = m.relic_density(**kw)
            want = relic_density(twin, **(dict(x0=1.0, method="Radau", rtol=1e-5, atol=1e-3) | kw))
            rec.close(got, want, "gev:options", rtol=1e-3, mx=mx, s0=s0, **{"o_" + k: v for k, v in kw.items() if k not in ("rtol", "atol")})


def gev_average(rec, i):
    """The thermal average handed to the solver is the average of the model's own cross sections,
    mediator pole included."""
    import hazma.relic_density as pkg
    from hazma.vector_mediator._gev import thermal_cross_section as mod
    rng = rec.rng
    real = pkg.relic_density
    caught = []

    def solver(model, *a, **k):
        caught.append(model)
        return 0.5
    for name, v in list(vars(mod).items()):
        if v is real:
            setattr(mod, name, solver)
    pkg.relic_density = solver
    # Hadronic resonances of the form factors
    marks = (775.26, 782.66, 1019.46, 987.354, 995.228)
    for _ in range(rec.n(5, 60)):
        m, mx, mv = _gev(rng)
        del caught[:]
        res = rec.guard("gev:call", lambda: m.relic_density(), mx=mx, mv=mv)
        if not caught:
            rec.count("not-captured")
            continue
        rec.ok(caught[-1].mx == m.mx, "gev:mass", mx=mx)
        w = _gev_width(m)
        fs = [g for k, g in m.annihilation_cross_section_funcs().items() if k in GEV2]
        sig = lambda c: float(sum(g(c) for g in fs))
        pts = _pole_points(mx, mv, w) + [(a + d) / mx for a in marks for d in (-150, -12, 0, 12, 150)]
        for x in (float(10 ** rng.uniform(0.2, 1)), float(10 ** rng.uniform(1, 1.6)), float(10 ** rng.uniform(1.6, 2.47))):
            got = caught[-1].thermal_cross_section(x)
            want = _glaverage(x, mx, sig, pts)
            rec.close(got, want, "gev:average", rtol=1e-3, atol=1e-300, x=x, mx=mx, mv=mv, width=w)
            rec.count("pole-inside" if 2 * mx < mv < mx * (2 + 50 / x) else "pole-outside")


def _glaverage(x, mx, sig, pts, n=16):
    u, wt = np.polynomial.legendre.leggauss(n)
    hi = 2 + 55 / x
    f = lambda z: sig(mx * z) * z * z * (z * z - 4) * sp.k1e(x * z) * np.exp(-x * (z - 2))
    edges = sorted({2.0, hi, *[2 + k / x for k in (0.1, 0.5, 1.5, 3, 6, 10, 16, 24, 36)], *[p for p in pts if 2 < p < hi]})
    tot = 0.0
    for k, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
        # velocity-like variable removes the square root at the lower edge
        t = 0.5 * np.sqrt(b - a) * (u + 1)
        tot += 0.5 * np.sqrt(b - a) * sum(q * 2 * s * f(a + s * s) for q, s in zip(wt, t))
    return x / (2 * sp.kve(2, x)) ** 2 * tot


def tasks(ck):
    t = [(f"generic-{i}", generic, i) for i in range(3)]
    t += [(f"boltzmann-{i}", boltzmann, i) for i in range(2)]
    t += [(f"solver-{i}", solver, i) for i in range(6)]
    t += [(f"native-{i}", native, i) for i in range(3)]
    t += [(f"gev-channels-{i}", gev_channels, i) for i in range(2)] + [(f"gev-average-{i}", gev_average, i) for i in range(3)] + [("gev-options", gev_options, 0)]
    return t + [("converged", converged, 0), ("limit", limit, 0)]
