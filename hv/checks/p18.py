"""Scalar-mediator partial widths, annihilation and elastic cross sections against tree-level amplitudes."""
import numpy as np
from . import _amp as A

PROPERTY = "P18"
RULE = ("one judged width or cross section per event: random masses, couplings, vacuum values and energies (closed, open and resonant, scalars "
        "and arrays); oracle = squared tree-level amplitudes (explicit Dirac traces or chiral amplitudes) integrated over two-body phase "
        "space, crossing and detailed balance; non-trivial = an open channel with a non-zero value")
NATIVE = "all"

OLD = dict(alpha=1 / 137.04, me=0.510998928, mmu=105.6583715, mpi0=134.9766, mpi=139.57018, vh=246.22795e3, b0=2654.082197477761, mq=7.1)


def tables():
    import hazma.parameters as P
    new = dict(alpha=P.alpha_em, me=P.electron_mass, mmu=P.muon_mass, mpi0=P.neutral_pion_mass, mpi=P.charged_pion_mass, vh=P.vh,
               b0=P.b0, mq=P.up_quark_mass + P.down_quark_mass)
    return OLD, new


def sample(rng):
    from hazma.scalar_mediator import ScalarMediator, HiggsPortal, HeavyQuark
    mx = float(10 ** rng.uniform(-0.5, 3.3))
    ms = float(10 ** rng.uniform(-0.5, 3.5)) if rng.random() < 0.7 else 2 * mx * float(rng.uniform(0.6, 1.4))
    c = lambda: 0.0 if rng.random() < 0.05 else float(10 ** rng.uniform(-5, 0.4) * rng.choice([-1, 1]))
    k = rng.integers(0, 4)
    if k == 0:
        th = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -0.1))
        m = HiggsPortal(mx, ms, c(), th)
        par = dict(gsff=th, gsGG=3 * th, gsFF=-5 * th / 6, lam=OLD["vh"])
    elif k == 1:
        q, mq, ch = c(), float(10 ** rng.uniform(3, 7)), float(rng.choice([-1 / 3, 2 / 3, 1.0, 5 / 3]))
        m = HeavyQuark(mx, ms, c(), q, mq, ch)
        par = dict(gsff=0.0, gsGG=q, gsFF=2 * q * ch * ch, lam=mq)
    else:
        par = dict(gsff=c(), gsGG=c(), gsFF=c(), lam=float(10 ** rng.uniform(2, 7)))
        m = ScalarMediator(mx, ms, c(), **par)
    par.update(mx=mx, ms=ms, gsxx=m.gsxx, vs=0.0)
    if k == 3 and rng.random() < 0.5:
        m.vs = par["vs"] = float(rng.normal() * 10 ** rng.uniform(-3, 3))
        m.compute_width_s()
    return m, par


def pion_amp(p, c, m, s):
    """S -> pi pi amplitude at invariant mass squared s."""
    G, f, L, vs, v = p["gsGG"], p["gsff"], p["lam"], p["vs"], c["vh"]
    x = 4 * G * vs / (9 * L)
    mix = v - f * vs - 2 * G * v * vs / (3 * L)                       # vanishing mixing: v
    mass = 2 * G * (1 - x) / L + (3 * f / v) * (1 + 3 * x)
    return (2 * G / L) * (s - 2 * m * m) / (9 * (1 + x)) + c["b0"] * c["mq"] * mix * mass / (3 * v)


def width(ch, p, c, q):
    """Partial width of a scalar of mass q."""
    if ch == "g g":
        k = c["alpha"] * p["gsFF"] / (4 * np.pi * p["lam"])
        return k * k * q**3 / (4 * np.pi)
    m = {"x x": p["mx"], "e e": c["me"], "mu mu": c["mmu"], "pi pi": c["mpi"], "pi0 pi0": c["mpi0"]}[ch]
    if q <= 2 * m:
        return 0.0
    b = np.sqrt((q - 2 * m) * (q + 2 * m)) / q
    if ch.startswith("pi"):
        return b * pion_amp(p, c, m, q * q)**2 / (16 * np.pi * q) / (2 if ch == "pi0 pi0" else 1)
    g = p["gsxx"] if ch == "x x" else p["gsff"] * m / c["vh"]
    return g * g * q * b**3 / (8 * np.pi)


THR = {"e e": "me", "mu mu": "mmu", "pi pi": "mpi", "pi0 pi0": "mpi0"}
CHANNELS = ("g g", "pi0 pi0", "pi pi", "x x", "e e", "mu mu")


def pick(rec, got, fn, key, rtol, atol=0.0, **d):
    """Compare with the value under either constant table shipped with the library."""
    w = [fn(c) for c in tables()]
    best = min(w, key=lambda v: abs(v - got) if np.isfinite(v) else np.inf)
    rec.close(got, best, key, rtol=rtol, atol=atol, **d)


def tag(p):
    return {k: v for k, v in p.items()}


def widths(rec, _):
    rng = rec.rng
    from hazma.parameters import vh
    for _ in range(rec.n(300, 6000)):
        m, p = sample(rng)
        w = m.partial_widths()
        rec.ok(set(w) == set(CHANNELS) | {"total"}, "keys", keys=sorted(w))
        for ch in CHANNELS:
            v = w[ch]
            rec.ok(np.ndim(v) == 0 and np.isfinite(v) and v >= 0, "width:sane", ch=ch, value=v, **tag(p))
            pick(rec, float(np.real(v)), lambda c: width(ch, p, c, p["ms"]), "width:" + ch, 2e-8, **tag(p))
        tot = sum(w[ch] for ch in CHANNELS)
        rec.close(float(np.real(w["total"])), float(np.real(tot)), "width:total", rtol=1e-12)
        rec.close(float(np.real(m.width_s)), float(np.real(w["total"])), "width:stored", rtol=1e-13)
        rec.raises(lambda: m.width_s_to_ff(str(rng.choice(["tau", "x", ""]))), ValueError, "width:bad-fermion")


def energies(rng, p, n):
    """Closed, near-threshold, resonant and far energies."""
    mx, ms = p["mx"], p["ms"]
    t = 2 * mx
    e = [t * 10 ** rng.uniform(0, 2, n), t * (1 + 10 ** rng.uniform(-6, -1, 3)), t * rng.uniform(0.1, 0.999, 2)]
    if ms > t:
        e.append(ms * (1 + rng.normal(size=3) * 10 ** rng.uniform(-9, -1)))
        e.append(2 * ms * (1 + 10 ** rng.uniform(-6, 0, 3)))
    e.append(np.array([2 * 134.9766, 2 * 139.57018, 2 * 105.6583715]) * (1 + 10 ** rng.uniform(-5, -1)))
    return np.sort(np.concatenate(e))


def annihilation(rec, _):
    rng = rec.rng
    for _ in range(rec.n(80, 1500)):
        m, p = sample(rng)
        mx, ms, g = p["mx"], p["ms"], p["gsxx"]
        w = float(np.real(m.width_s))
        es = energies(rng, p, 8)
        fns = m.annihilation_cross_section_funcs()
        rec.ok(set(fns) == {"mu mu", "e e", "g g", "pi0 pi0", "pi pi", "s s"}, "xs:keys", keys=sorted(fns))
        for ch in ("mu mu", "e e", "g g", "pi0 pi0", "pi pi"):
            arr = np.asarray(fns[ch](es))
            rec.ok(arr.shape == es.shape and np.all(np.isfinite(arr)) and np.all(arr >= 0), "xs:sane", ch=ch, value=arr, energies=es, **tag(p))
            for e, v in zip(es, arr):
                s = e * e
                d = (s - ms * ms)**2 + (ms * w)**2
                if d == 0:
                    continue
                b = np.sqrt((e - 2 * mx) * (e + 2 * mx)) / e if e > 2 * mx else 0.0
                rt = 1e-7 + 4e-15 * s * s / np.sqrt(d) / max(ms * w, abs(s - ms * ms)) + 4e-16 * e / max(abs(e - 2 * mx), 1e-300)
                near = min((abs(e / (2 * c[THR[ch]]) - 1) for c in tables()), default=1) if ch in THR else 1
                if ch in THR and near < 1e-8:
                    continue
                rt += 1e-15 / near
                # cancellation inside the pion amplitude
                pick(rec, float(v), lambda c: g * g * s * b * width(ch, p, c, e) / (2 * e * d) if e > 2 * mx else 0.0, "xs:" + ch, min(rt, 0.5),
                     atol=1e-13 * scale(ch, p, s) * g * g * s * b / (2 * e * d), energy=e, **tag(p))
            j = int(rng.integers(0, len(es)))
            one = fns[ch](float(es[j]))
            rec.ok(np.ndim(one) == 0 and one == arr[j], "xs:scalar", ch=ch, value=one, element=arr[j])


def scale(ch, p, s):
    """Width built from the absolute values of the pion amplitude's terms."""
    if not ch.startswith("pi"):
        return 0.0
    c = OLD
    q = np.sqrt(s)
    a = abs(2 * p["gsGG"] / p["lam"]) * (s + 4e4) / 9 + c["b0"] * c["mq"] * (1 + abs(p["vs"]) / 1e3) * (abs(p["gsGG"] / p["lam"]) + abs(p["gsff"] / c["vh"]))
    return a * a / (16 * np.pi * q)


def pairs(rec, _):
    """x x -> S S and its crossing, detailed balance, and dark-matter self scattering."""
    rng = rec.rng
    for _ in range(rec.n(150, 2500)):
        m, p = sample(rng)
        mx, ms, g = p["mx"], p["ms"], p["gsxx"]
        if g == 0:
            continue
        t = 2 * max(mx, ms)
        for e in np.append(t * (1 + 10 ** rng.uniform(-3, 1.5, 3)), t * rng.uniform(0.1, 0.9999)):
            s = float(e * e)
            v, x = float(m.sigma_xx_to_ss(e)), float(m.sigma_ss_to_xx(e))
            if e < t:
                rec.ok(v == 0 and x == 0, "ss:closed", energy=e, **tag(p))
                continue
            bx, bs = 1 - 4 * mx * mx / s, 1 - 4 * ms * ms / s
            ref = A.sigma(s, mx, mx, ms, ms, A.xx_to_ss(mx, g), identical=2, scale=min(bx, bs, (mx / e)**2 + (ms / e)**4))
            # the closed form divides a difference of order-one terms by the velocities
            slack = 1e-14 / min(bx, bs)**2 * (1 + (mx / e)**-2 * 1e-3)
            at = slack * g**4 / s
            rec.close(v, ref, "ss:value", rtol=1e-7 + slack, atol=at, energy=e, **tag(p))
            rec.close(x, ref * 8 * bx / bs, "ss:crossed", rtol=1e-7 + slack, atol=8 * at / bs, energy=e, **tag(p))
        e = 2 * mx * float(1 + 10 ** rng.uniform(-3, 1.5))
        s = e * e
        w = float(np.real(m.width_s))
        if abs(e / ms - 1) < 1e-3:
            continue
        v = m.sigma_xx_to_s_to_xx(e)
        ref = A.sigma(s, mx, mx, mx, mx, A.xx_to_xx_scalar(mx, g, ms, w), scale=min(1.0, ms * ms / s))
        rec.ok(np.ndim(v) == 0, "self:scalar", value=v)
        rec.close(float(np.ravel(v)[0]), ref, "self:value", rtol=1e-6, energy=e, **tag(p))
        es = np.array([e, 1.7 * e, 0.5 * mx])
        a = m.sigma_xx_to_s_to_xx(es)
        rec.ok(a.shape == (3,) and a[2] == 0 and abs(a[0] - ref) <= 1e-6 * ref, "self:array", value=a, **tag(p))


def tpoly(poly, ms, w, dt, lam16):
    """sigma from N(t)/((t-ms^2)^2+ms^2w^2) and the rounding noise of its closed form."""
    z = ms * ms + 1j * ms * w
    n = [abs(poly(z))]
    q = poly
    for k in (1, 2, 3):
        q = q.deriv()
        n.append(abs(q(z)) / [1, 1, 2, 6][k])
    noise = n[0] * np.pi / (ms * w) + 60 * n[1] + n[2] * (abs(dt) + ms * ms) + n[3] * (abs(dt) + ms * ms)**2
    return 3e-14 * noise / abs(lam16)


def elastic(rec, _):
    rng = rec.rng
    P = np.polynomial.Polynomial
    for _ in range(rec.n(60, 1000)):
        m, p = sample(rng)
        mx, ms, g = p["mx"], p["ms"], p["gsxx"]
        w = float(10 ** rng.uniform(-4, -0.5) * ms)
        m.width_s = w
        if g == 0:
            continue
        for tgt in ("e", "mu", "pi", "pi0", "g"):
            def parts(c):
                mt = {"e": c["me"], "mu": c["mmu"], "pi": c["mpi"], "pi0": c["mpi0"], "g": 0.0}[tgt]
                dm = P([8 * mx * mx, -2.0]) * (g * g / 2)
                if tgt in ("e", "mu"):
                    return mt, dm * P([8 * mt * mt, -2.0]) * ((p["gsff"] * mt)**2 / 2) * 2, (c["vh"]**-2, 0.5)
                if tgt == "g":
                    k = c["alpha"] * p["gsFF"] / (4 * np.pi * p["lam"])
                    return mt, dm * P([0, 0, 4 * k * k]), (1.0, 1.0)
                a0, a1 = pion_amp(p, c, mt, 0.0), pion_amp(p, c, mt, 1e4)
                amp = P([a0, (a1 - a0) / 1e4])
                return (mt, dm * amp**2 * 2, (1.0, 0.5)) if tgt == "pi" else (mt, dm * amp**2, (1.0, 0.5))
            mt0 = parts(OLD)[0]
            lo = mx + mt0
            rec.ok(m.elastic_scattering_cross_sections(float(lo * rng.uniform(0.1, 0.9999)))[tgt] == 0, "elastic:closed", tgt=tgt, **tag(p))
            for e in (lo * (1 + 10 ** rng.uniform(-2, 1.5)), max(2 * mx, lo) * (1 + 10 ** rng.uniform(-2, 1))):
                e = float(e)
                if abs(e / (2 * mx) - 1) < 1e-3:
                    continue
                v = float(m.elastic_scattering_cross_sections(e)[tgt])
                s = e * e
                good, shown = False, []
                for c in tables():
                    mt, poly, (kt, kd) = parts(c)
                    f = lambda t: poly(t) / ((t - ms * ms)**2 + (ms * w)**2)
                    br = [ms * ms + sg * ms * w * 2.0**k for k in range(-2, 24) for sg in (-1, 1)] + [ms * ms]
                    true = kt * A.elastic(s, mx, mt, f)
                    doc = kd * A.elastic(s, mx, mt, f, True, br)
                    lam = 16 * np.pi * s * (s - 4 * mx * mx)
                    at = tpoly(poly, ms, w, s - 4 * mx * mx, lam) * kd
                    good |= abs(v - true) <= 1e-6 * abs(true) + 0 * at or abs(v - doc) <= 1e-6 * abs(doc) + at
                    shown.append((true, doc, at))
                rec.seen((tgt, e, mx, ms), v != 0)
                if not good:
                    rec.fail("elastic:" + tgt, energy=e, value=v, expected=shown, width=w, **tag(p))


def probes(rec, _):
    """Documented elastic defects at one fixed point each."""
    from hazma.scalar_mediator import ScalarMediator
    m = ScalarMediator(100.0, 60.0, 0.7, 0.3, 0.2, 0.4, 1e5)
    m.width_s = w = 0.7
    p = dict(mx=100.0, ms=60.0, gsxx=0.7, gsff=0.3, gsGG=0.2, gsFF=0.4, lam=1e5, vs=0.0)
    e, s, c = 300.0, 9e4, OLD
    got = m.elastic_scattering_cross_sections(e)
    dm = lambda t: 0.49 * (4e4 - t) / ((t - 3600)**2 + 3600 * w * w)
    k = c["alpha"] * 0.4 / (4 * np.pi * 1e5)
    want = {"mu": A.elastic(s, 100, c["mmu"], lambda t: 2 * dm(t) * (4 * c["mmu"]**2 - t) * (0.3 * c["mmu"] / c["vh"])**2),
            "e": A.elastic(s, 100, c["me"], lambda t: 2 * dm(t) * (4 * c["me"]**2 - t) * (0.3 * c["me"] / c["vh"])**2),
            "pi": 2 * A.elastic(s, 100, c["mpi"], lambda t: dm(t) * pion_amp(p, c, c["mpi"], t)**2),
            "pi0": A.elastic(s, 100, c["mpi0"], lambda t: dm(t) * pion_amp(p, c, c["mpi0"], t)**2),
            "g": A.elastic(s, 100, 0.0, lambda t: dm(t) * 4 * k * k * t * t),
            "s": A.sigma(s, 100, 60, 100, 60, A.xs_to_xs(100.0, 0.7), spins=2)}
    for t, v in want.items():
        rec.close(float(got[t]), v, "elastic-kinematics:" + t, rtol=1e-3)


def xs_documented(e, mx, ms, g):
    """x S -> x S with the t range and flux of two particles of mass mx."""
    s = e * e
    q = max(e, 1.3 * (mx + ms))           # residues do not depend on where the polynomial is sampled
    z = np.linspace(-0.95, 0.95, 12)
    p1, k1, p2, k2, _, _ = A.momenta(s, mx, ms, mx, ms, z)
    t = A.dot(p1 - p2, p1 - p2)
    u = 2 * mx * mx + 2 * ms * ms - s - t - mx * mx
    num = np.real(A.xs_to_xs(mx, 1.0)(p1, k1, p2, k2)) * u * u
    return np.polynomial.Polynomial.fit(t, num, 4)


def compton(rec, _):
    rng = rec.rng
    gx, gw = np.polynomial.legendre.leggauss(80)
    for _ in range(rec.n(100, 2000)):
        m, p = sample(rng)
        mx, ms, g = p["mx"], p["ms"], p["gsxx"]
        if g == 0 or not 0.02 < ms / mx < 50:
            continue
        e = float((mx + ms) * (1 + 10 ** rng.uniform(-2, 1)))
        s = e * e
        rec.ok(m.sigma_xs_to_xs(float((mx + ms) * rng.uniform(0.1, 0.9999))) == 0, "compton:closed", **tag(p))
        if ms < 0.98 * mx:                 # the general expression is 0/0 at exactly 2 mx
            around = [float(m.sigma_xs_to_xs(2 * mx * (1 + d))) for d in (-1e-4, 1e-4)]
            rec.close(float(m.sigma_xs_to_xs(2 * mx)), sum(around) / 2, "compton:double-mass", rtol=1e-4, **tag(p))
        lo = 4 * mx * mx - s
        ua, ub = mx * mx + 2 * ms * ms - s, 2 * ms * ms - 3 * mx * mx
        if abs(lo) < 0.02 * s or ua * ub <= 0 or abs(ub) < 1e-2 * s:
            continue                       # the documented range crosses the u-channel pole or has no width
        P = xs_documented(e, mx, ms, g)
        k = 12
        ed = np.linspace(0, lo, k + 1)
        t = ((ed[:-1, None] + ed[1:, None]) / 2 + np.diff(ed)[:, None] / 2 * gx).ravel()
        wt = (np.abs(np.diff(ed))[:, None] / 2 * gw).ravel()
        u = 2 * mx * mx + 2 * ms * ms - s - t - mx * mx
        doc = np.sum(wt * P(t) / u**2) / 2 * g**4 / (16 * np.pi * s * abs(s - 4 * mx * mx))
        true = A.sigma(s, mx, ms, mx, ms, A.xs_to_xs(mx, g), spins=2)
        v = float(m.sigma_xs_to_xs(e))
        rec.seen((mx, ms, e), v != 0)
        if min(abs(v - true) / true, abs(v - doc) / abs(doc)) > 1e-3:
            rec.fail("compton:value", value=v, expected=(true, doc), energy=e, **tag(p))


def tasks(ck):
    return [("widths", widths, None), ("annihilation", annihilation, None), ("pairs", pairs, None), ("elastic", elastic, None),
            ("compton", compton, None), ("probes", probes, None)]
