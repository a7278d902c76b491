"""Form-factor widths, cross sections and distributions are the phase-space integrals of the amplitudes."""
import numpy as np
from numpy.polynomial.legendre import leggauss
from hv.checks.p22 import ff, couplings, SHAPES

PROPERTY = "P31"
RULE = ("one judged width, cross section, integrated form factor, normalised marginal or shape/threshold relation per event at random "
        "energies and couplings; oracle = Gauss-Legendre integrals of the amplitude with Lorentz structures built from momenta, "
        "or (four bodies) the mean over independently generated events; non-trivial = non-zero value")
NATIVE = None
TWO = ["PiPi", "KK", "K0K0", "Pi0Gamma", "EtaGamma", "Pi0Omega", "Pi0Phi", "EtaOmega", "EtaPhi"]
THREE = ["PiPiEta", "PiPiEtaPrime", "PiPiPi0", "Pi0K0K0", "Pi0KpKm", "PiKK0"]
XS, WS = leggauss(96)
XT, WT = leggauss(64)


def sigma(q, mx, mv, g, wv, J):
    s = q * q
    return g * g * (s + 2 * mx * mx) * q * J / (2 * np.sqrt(s - 4 * mx * mx) * ((s - mv * mv) ** 2 + (mv * wv) ** 2))


def pcm(q, a, b):
    return np.sqrt(max((q - a - b) * (q + a + b) * (q - a + b) * (q + a - b), 0.0)) / (2 * q)


def kin(rng):
    return dict(mx=float(rng.uniform(1, 100)), mv=float(10 ** rng.uniform(1, 3.7)), gvxx=float(rng.uniform(0.1, 3)), wv=float(10 ** rng.uniform(-3, 2)))


def observables(rec, f, name, q, c, J, rtol, **kw):
    """Integrated form factor, width and cross section in scalar and array form, across the threshold."""
    rng = rec.rng
    th = float(sum(f.fsp_masses))
    k = kin(rng)
    k["mx"] = min(k["mx"], 0.45 * th)
    d = dict(q=q, c=c)
    rec.close(f.integrated_form_factor(q=float(q), couplings=c, **kw), J, f"{name}:integrated", rtol=rtol, **d)
    rec.close(f.width(mv=float(q), couplings=c, **kw), 0.5 * q * J, f"{name}:width", rtol=rtol, **d)
    rec.close(f.cross_section(q=float(q), couplings=c, **k, **kw), sigma(q, k["mx"], k["mv"], k["gvxx"], k["wv"], J), f"{name}:cross-section", rtol=rtol, **d, **k)
    lo = float(th * rng.uniform(0.92, 0.999))
    qs = np.array([lo, q])
    rec.close(f.integrated_form_factor(q=qs, couplings=c, **kw), [0.0, J], f"{name}:integrated:array", rtol=rtol, **d)
    rec.close(f.width(mv=qs, couplings=c, **kw), [0.0, 0.5 * q * J], f"{name}:width:array", rtol=rtol, **d)
    rec.close(f.cross_section(q=qs, couplings=c, **k, **kw), [0.0, sigma(q, k["mx"], k["mv"], k["gvxx"], k["wv"], J)], f"{name}:cross-section:array", rtol=rtol, **d, **k)
    rec.close(f.width(mv=lo, couplings=c, **kw), 0.0, f"{name}:width:below-threshold", q=lo)
    rec.close(f.cross_section(q=lo, couplings=c, **k, **kw), 0.0, f"{name}:cross-section:below-threshold", q=lo)
    # dark matter heavier than the final state: the collision energy has to supply it
    h = dict(k, mx=float(q * rng.uniform(0.3, 0.499)))
    rec.close(f.cross_section(q=float(q), couplings=c, **h, **kw), sigma(q, h["mx"], h["mv"], h["gvxx"], h["wv"], J), f"{name}:cross-section:heavy", rtol=rtol, **d, **h)
    h = dict(k, mx=float(q * rng.uniform(0.5001, 1.5)))
    rec.close(f.cross_section(q=float(q), couplings=c, **h, **kw), 0.0, f"{name}:cross-section:too-heavy", **d, **h)
    rec.close(f.cross_section(q=qs, couplings=c, **h, **kw), [0.0, 0.0], f"{name}:cross-section:too-heavy:array", **d, **h)


def two(rec, name):
    rng = rec.rng
    f = ff(name)
    m1, m2 = f.fsp_masses
    th = m1 + m2
    for _ in range(rec.n(25, 250)):
        q = float(th + 10 ** rng.uniform(-1, 3.7))
        c = couplings(rng)
        amp2 = abs(complex(np.asarray(f.form_factor(q=q, couplings=c)))) ** 2
        p = pcm(q, m1, m2)
        lor = 4 * p * p / (3 * q * q) if name in ("PiPi", "KK", "K0K0") else 2 * p * p / 3
        J = p / (4 * np.pi * q) * lor * amp2
        observables(rec, f, name, q, c, J, 1e-9 if q - th > 1e-2 * th else 1e-7)
        rec.count("energies")
    iq = int(th + 300)
    rec.close(f.width(mv=iq, couplings=(1.0, 0.5, 0.3)), f.width(mv=float(iq), couplings=(1.0, 0.5, 0.3)), f"{name}:integer-mass", rtol=1e-12, q=iq)


def zero(rec, name):
    """Two identical neutral pions carry no vector current."""
    rng = rec.rng
    f = ff(name)
    for _ in range(rec.n(20, 100)):
        q = float(sum(f.fsp_masses) + 10 ** rng.uniform(-1, 3.7))
        c = couplings(rng)
        w = f.width(mv=q, couplings=c)
        amp2 = abs(complex(np.asarray(f.form_factor(q=q, couplings=c)))) ** 2
        p = pcm(q, *f.fsp_masses)
        J = p / (4 * np.pi * q) * 4 * p * p / (3 * q * q) * amp2
        rec.close(w, 0.5 * q * J, f"{name}:width", rtol=1e-9, q=q, c=c)


# ---------------------------------------------------------------- three bodies
def grid(q, m, pair):
    """Nodes in the invariant mass of `pair` and the lab-independent angle; returns s_pair, weights and all invariants."""
    i, j = pair
    k = 3 - i - j
    mi, mj, mk = m[i], m[j], m[k]
    lo, hi = mi + mj, q - mk
    th = (XS + 1) * np.pi / 4                                 # sqrt(s) = lo + (hi-lo) sin^2: removes both edge square roots
    r = lo + (hi - lo) * np.sin(th) ** 2
    wr = WS * np.pi / 4 * (hi - lo) * 2 * np.sin(th) * np.cos(th)
    S = (r * r)[:, None] + 0 * XT[None, :]
    cs = XT[None, :]
    ei = (S + mi * mi - mj * mj) / (2 * np.sqrt(S))
    ek = (q * q - S - mk * mk) / (2 * np.sqrt(S))
    pi = np.sqrt(np.maximum(ei * ei - mi * mi, 0))
    pk = np.sqrt(np.maximum(ek * ek - mk * mk, 0))
    sik = mi * mi + mk * mk + 2 * (ei * ek + pi * pk * cs)
    sjk = q * q + mi * mi + mj * mj + mk * mk - S - sik
    inv = {frozenset((i, j)): S, frozenset((i, k)): sik, frozenset((j, k)): sjk}
    # ds dt = 2 r dr * (2 pi pk dcos)
    w = (2 * r * wr)[:, None] * (2 * pi * pk) * WT[None, :] / (128 * np.pi**3 * q * q)
    return r, inv, w, 2 * r[:, None] * (2 * pi * pk) * WT[None, :]


def weight(f, name, q, c, inv):
    m = f.fsp_masses
    s, t, u = inv[frozenset((1, 2))], inv[frozenset((0, 2))], inv[frozenset((0, 1))]
    e = [(q * q + m[0] ** 2 - s) / (2 * q), (q * q + m[1] ** 2 - t) / (2 * q), (q * q + m[2] ** 2 - u) / (2 * q)]
    if name in SHAPES:                                        # vector first
        a2 = abs(complex(np.asarray(f.form_factor(q=q, couplings=c)))) ** 2
        return a2 * (2 + (e[0] / m[0]) ** 2) / (3 * q * q) + 0 * s
    if name in ("PiPiEta", "PiPiEtaPrime"):
        a = np.asarray(f.form_factor(q, s.ravel(), couplings=c))
    else:
        a = np.asarray(f.form_factor(q, s.ravel(), t.ravel(), couplings=c))
    a = np.broadcast_to(a, s.size).reshape(s.shape) if a.ndim < 2 else a.reshape(s.shape)
    p0, p1 = e[0] ** 2 - m[0] ** 2, e[1] ** 2 - m[1] ** 2
    dot = (m[0] ** 2 + m[1] ** 2 + 2 * e[0] * e[1] - u) / 2   # three-vector product
    return np.abs(a) ** 2 * np.maximum(p0 * p1 - dot * dot, 0) / 3


def sym(name):
    return 0.5 if name == "Pi0Pi0Omega" else 1.0


def three(rec, name):
    rng = rec.rng
    f = ff(name)
    m = [float(x) for x in f.fsp_masses]
    th = sum(m)
    quad = name not in SHAPES and name not in ("PiPiEta", "PiPiEtaPrime")
    kw = dict(method="quad") if quad else {}
    for _ in range(rec.n(5 if quad else 12, 30 if quad else 80)):
        q = float(th + 10 ** rng.uniform(0.5, 3.2))
        c = couplings(rng)
        J = []
        for pair in ((1, 2), (0, 2)):
            r, inv, w, _ = grid(q, m, pair)
            J.append(float(np.sum(w * weight(f, name, q, c, inv))) * sym(name))
        if max(J) > 0 and abs(J[0] / J[1] - 1) > 2e-3:
            rec.count("oracle-skipped")
            continue
        observables(rec, f, name, q, c, J[0], 4e-3 if quad else 1e-4, **kw)
        rec.count("energies")
    if not quad:
        iq = int(th + 400)
        rec.close(f.width(mv=iq, couplings=(1.0, 0.5, 0.3)), f.width(mv=float(iq), couplings=(1.0, 0.5, 0.3)), f"{name}:integer-mass", rtol=1e-9, q=iq)
        return
    # Monte-Carlo evaluation (the default for three pions) averages to the same integral
    q = float(th + 10 ** rng.uniform(2, 3))
    c = (1.0, 0.3, 0.4)
    r, inv, w, _ = grid(q, m, (1, 2))
    J = float(np.sum(w * weight(f, name, q, c, inv)))
    got = np.array([f.integrated_form_factor(q=q, couplings=c, method="rambo", npts=1 << 12) for _ in range(rec.n(16, 64))])
    err = got.std(ddof=1) / np.sqrt(len(got)) + 1e-3 * J
    rec.ok(abs(got.mean() - J) < 6 * err, f"{name}:rambo", q=q, mean=got.mean(), err=err, expected=J)
    wd = np.array([f.width(mv=q, couplings=c, method="rambo", npts=1 << 12) for _ in range(rec.n(16, 64))])
    rec.ok(abs(wd.mean() - 0.5 * q * J) < 6 * 0.5 * q * err, f"{name}:rambo-width", q=q, mean=wd.mean(), expected=0.5 * q * J)


def marginal(f, name, q, c, pair, x):
    """d J / d sqrt(s_pair) at the values x."""
    m = [float(v) for v in f.fsp_masses]
    i, j = pair
    k = 3 - i - j
    out = []
    S = (np.asarray(x) ** 2)[:, None] + 0 * XT[None, :]
    ei = (S + m[i] ** 2 - m[j] ** 2) / (2 * np.sqrt(S))
    ek = (q * q - S - m[k] ** 2) / (2 * np.sqrt(S))
    pi = np.sqrt(np.maximum(ei * ei - m[i] ** 2, 0))
    pk = np.sqrt(np.maximum(ek * ek - m[k] ** 2, 0))
    sik = m[i] ** 2 + m[k] ** 2 + 2 * (ei * ek + pi * pk * XT[None, :])
    sjk = q * q + sum(v * v for v in m) - S - sik
    inv = {frozenset((i, j)): S, frozenset((i, k)): sik, frozenset((j, k)): sjk}
    return np.sum(weight(f, name, q, c, inv) * 2 * np.sqrt(S) * 2 * pi * pk * WT[None, :], axis=1)


def dists(rec, name):
    rng = rec.rng
    f = ff(name)
    m = [float(x) for x in f.fsp_masses]
    th = sum(m)
    quad = name not in SHAPES and name not in ("PiPiEta", "PiPiEtaPrime")
    for _ in range(rec.n(3, 20)):
        q = float(th + 10 ** rng.uniform(1.3, 3.2))
        c = couplings(rng)
        if name in ("PiPiEta", "PiPiEtaPrime") and c[0] == c[1] or name in SHAPES and c[0] == -c[1] or c[:2] in ((0.0, 0.0), (1.0, 1.0)):
            c = (1.0, 0.2, 0.4)
        nb = int(rng.integers(24, 50))
        ed = f.energy_distributions(q=q, nbins=nb, couplings=c)
        md = f.invariant_mass_distributions(q=q, nbins=nb, couplings=c)
        rec.ok(len(ed) == 3 and set(md) == {(0, 1), (0, 2), (1, 2)}, f"{name}:dists:keys", keys=str(set(md)))
        for k, d in enumerate(ed):
            pair = [(1, 2), (0, 2), (0, 1)][k]
            lo, hi = m[k], (q * q + m[k] ** 2 - (th - m[k]) ** 2) / (2 * q)
            judge(rec, d, lo, hi, q, c, f"{name}:energy", k,
                  lambda e: marginal(f, name, q, c, pair, np.sqrt(np.maximum(q * q + m[k] ** 2 - 2 * q * e, (th - m[k]) ** 2)))
                  / np.sqrt(np.maximum(q * q + m[k] ** 2 - 2 * q * e, (th - m[k]) ** 2)))
        for pair, d in md.items():
            lo = m[pair[0]] + m[pair[1]]
            hi = q - (th - lo)
            judge(rec, d, lo, hi, q, c, f"{name}:invariant-mass", pair, lambda x: marginal(f, name, q, c, pair, x))
        rec.count("distributions", 6)
        a, b = (ed[0], ed[1]) if name in ("Pi0K0K0", "Pi0KpKm") else (ed[1], ed[2])
        if name not in ("PiKK0",):                            # identical mesons (equal masses, symmetric amplitude)
            x, y = np.asarray(a.probabilities, float), np.asarray(b.probabilities, float)
            rec.ok(x.shape == y.shape and np.max(np.abs(x - y)) <= (1e-8 if not quad else 5e-3) * np.max(x), f"{name}:identical-mesons", q=q, c=c,
                   worst=np.max(np.abs(x - y)) / np.max(x))


def judge(rec, d, lo, hi, q, c, key, which, pdf):
    b, p = np.asarray(d.bins, float), np.asarray(d.probabilities, float)
    kw = dict(q=q, c=c, which=which)
    rec.ok(np.all(np.diff(b) > 0) and len(p) == len(b) - 1, key + ":bins-ascending", **kw)
    tol = 1e-6 * hi
    rec.ok(abs(b[0] - lo) < tol and abs(b[-1] - hi) < tol, key + ":support", first=b[0], last=b[-1], lo=lo, hi=hi, **kw)
    rec.ok(np.all(p >= 0) and abs(np.sum(p * np.diff(b)) - 1) < 1e-9, key + ":normalised", total=np.sum(p * np.diff(b)), **kw)
    # bin averages of the exact marginal
    x, w = leggauss(6)
    pts = (b[:-1, None] + b[1:, None]) / 2 + np.diff(b)[:, None] / 2 * x[None, :]
    avg = np.sum(pdf(pts.ravel()).reshape(pts.shape) * w[None, :] / 2, axis=1)
    avg = avg / np.sum(avg * np.diff(b))
    cur = np.max(np.abs(np.diff(avg, 2))) / np.max(avg) if len(avg) > 3 else 0.0
    cen = pdf((b[1:] + b[:-1]) / 2)
    cen = cen / np.sum(cen * np.diff(b))
    # either quadrature of the marginal: value at the bin centre, or bin average
    worst = min(np.max(np.abs(p - x)) for x in (avg, cen)) / np.max(avg)
    tight = (5e-4 + (0.12 * cur if key.endswith("invariant-mass") else 0.0)) if key.split(":")[0] in SHAPES else 5e-3 + 0.02 * cur
    rec.ok(worst <= tight, key + ":marginal", worst=worst, curvature=cur, **kw)
    # mean over bins
    mid = (b[1:] + b[:-1]) / 2
    m1, m2 = np.sum(mid * p * np.diff(b)), np.sum(mid * avg * np.diff(b))
    rec.ok(abs(m1 - m2) <= (2e-3 + 0.05 * cur) * (hi - lo), key + ":mean", observed=m1, expected=m2, lo=lo, hi=hi, **kw)


# ---------------------------------------------------------------- four bodies
def four(rec, mode):
    from hazma.phase_space import Rambo
    rng = rec.rng
    name = ("PiPiPi0Pi0", "PiPiPiPi")[mode]
    f = ff(name)
    m = np.array(f.fsp_masses)
    th = float(m.sum())
    for r in range(rec.n(3, 12)):
        q = float(rng.choice([700.0, 1000.0, 1400.0, 2000.0, 2600.0]) + rng.uniform(-60, 60))
        c = tuple(float(x) for x in rng.uniform(-1.5, 1.5, 3))
        n = 1 << 16
        P, W = Rambo(q, tuple(m)).generate(n, seed=int(rng.integers(1, 1 << 30)))
        J = np.asarray(f.form_factor(P))                      # (4, n): amplitude in GeV units
        JJ = -np.real(J[0] * np.conj(J[0]) - np.sum(J[1:] * np.conj(J[1:]), axis=0))
        # current in GeV units, phase-space weights in MeV^4
        val = W * 1e-12 * JJ / (3 * (q * 1e-3) ** 2) * (0.5 if mode == 0 else 0.25) * (c[0] - c[1]) ** 2
        exp, err = val.mean(), val.std() / np.sqrt(n)
        reps = np.array([f.integrated_form_factor(q=q, couplings=c, npts=1 << 13) for _ in range(8)])
        e2 = np.hypot(err, reps.std(ddof=1) / np.sqrt(8)) + 1e-3 * exp
        rec.ok(abs(reps.mean() - exp) < 6 * e2, f"{name}:integrated", q=q, c=c, mean=reps.mean(), expected=exp, err=e2)
        w = np.array([f.width(mv=q, couplings=c, npts=1 << 13) for _ in range(8)])
        rec.ok(abs(w.mean() - 0.5 * q * exp) < 6 * 0.5 * q * e2, f"{name}:width", q=q, c=c, mean=w.mean(), expected=0.5 * q * exp)
        k = kin(rng)
        s = np.array([f.cross_section(q=q, couplings=c, npts=1 << 13, **k) for _ in range(8)])
        fac = sigma(q, k["mx"], k["mv"], k["gvxx"], k["wv"], 1.0)
        rec.ok(abs(s.mean() - fac * exp) < 6 * fac * e2, f"{name}:cross-section", q=q, c=c, mean=s.mean(), expected=fac * exp, **k)
        h = dict(k, mx=float(q * rng.uniform(0.5001, 1.5)))
        rec.close(f.cross_section(q=q, couplings=c, npts=64, **h), 0.0, f"{name}:cross-section:too-heavy", q=q, **h)
        arr = f.width(mv=np.array([th * 0.98, q]), couplings=c, npts=1 << 13)
        rec.ok(arr.shape == (2,) and arr[0] == 0 and abs(arr[1] - 0.5 * q * exp) < 0.5 * q * (6 * 3 * e2), f"{name}:width:array", q=q, values=arr.tolist())
        # distributions against the weighted events
        nb = 12
        ed = f.energy_distributions(q=q, nbins=nb, couplings=c, npts=1 << 15)
        md = f.invariant_mass_distributions(q=q, nbins=nb, couplings=c, npts=1 << 15)
        rec.ok(len(ed) == 4 and len(md) == 6, f"{name}:dists:count", n=len(ed), k=len(md))
        for i, d in enumerate(ed):
            histo(rec, d, P[0, i], val, f"{name}:energy", (m[i], (q * q + m[i] ** 2 - (th - m[i]) ** 2) / (2 * q)), q, i)
        for (i, j), d in md.items():
            pp = P[:, i] + P[:, j]
            mm = np.sqrt(pp[0] ** 2 - (pp[1:] ** 2).sum(axis=0))
            histo(rec, d, mm, val, f"{name}:invariant-mass", (m[i] + m[j], q - (th - m[i] - m[j])), q, (i, j))
        rec.count("events", n)
        rec.count("distributions", 10)


def histo(rec, d, x, w, key, lim, q, which):
    b, p = np.asarray(d.bins, float), np.asarray(d.probabilities, float)
    rec.ok(np.all(np.diff(b) > 0) and abs(b[0] - lim[0]) < 1e-6 * lim[1] and abs(b[-1] - lim[1]) < 1e-6 * lim[1], key + ":support", q=q, which=which, first=b[0], last=b[-1], lim=lim)
    rec.ok(abs(np.sum(p * np.diff(b)) - 1) < 1e-9, key + ":normalised", q=q, which=which)
    h, _ = np.histogram(x, bins=b, weights=w)
    h2, _ = np.histogram(x, bins=b, weights=w * w)
    tot = h.sum()
    got = p * np.diff(b) * tot
    # the code's sample is half the size of ours: variance 2 h2 from it and h2 from ours
    chi = (got - h) ** 2 / (3 * h2 + (2e-3 * tot) ** 2)
    rec.ok(np.max(chi) < 40, key + ":histogram", q=q, which=which, chi=chi.tolist())


def tasks(ck):
    out = [(f"two:{n}", two, n) for n in TWO] + [("two:Pi0Pi0", zero, "Pi0Pi0")]
    out += [(f"three:{n}", three, n) for n in THREE + SHAPES]
    out += [(f"dists:{n}", dists, n) for n in THREE + SHAPES]
    out += [("four:neutral", four, 0), ("four:charged", four, 1)]
    return out
