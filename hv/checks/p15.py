"""Neutrino decay spectra: muon and pion decay, meson tables, flavors, boosts and lepton-number conservation."""
import pathlib
import numpy as np
from . import _recorded
from .p13 import D, band, yields, ROOT
from .p14 import gammas, either, total as positron_total

PROPERTY = "P15"
RULE = ("one judged flavor spectrum, relation or sum per event, for parents from rest to ten thousand times their mass and neutrino "
        "energies across and beyond the kinematic range; oracle = V-A matrix elements boosted exactly (muon, pion) or exact integrals of "
        "the shipped tables, electron-lepton number across the positron and neutrino spectra; non-trivial = non-zero reference value")
NATIVE = "all"
FLAVORS = ("e", "mu", "tau")


def energies(rng, lo, top, n):
    a = np.exp(rng.uniform(np.log(lo), np.log(top), n))
    b = top * rng.uniform(0.3, 1.0, n // 2)
    return np.sort(np.concatenate([a, b, top * np.array([1 + 1e-4, 1.5, 20.0])]))


def contract(rec, fn, m, e, E, got, key):
    """Shape, flavor selection, scalars, order, unknown flavors, parents below their mass."""
    rng = rec.rng
    rec.ok(np.shape(got) == (3, len(e)) and np.all(got[2] == 0) and np.all(np.isfinite(got)), key + ":shape", shape=np.shape(got))
    for i, fl in enumerate(FLAVORS):
        rec.ok(np.array_equal(fn(e, E, fl), got[i]), key + ":flavor", flavor=fl, parent=E)
    j = int(rng.integers(0, len(e)))
    s = np.asarray(fn(float(e[j]), E))
    rec.ok(s.shape == (3,) and np.allclose(s, got[:, j], rtol=1e-12, atol=0), key + ":scalar", value=s, element=got[:, j], e=e[j], parent=E)
    i = int(rng.integers(0, 3))
    one = fn(float(e[j]), E, FLAVORS[i])
    rec.ok(np.ndim(one) == 0 and abs(one - got[i, j]) <= 1e-12 * abs(got[i, j]), key + ":scalar-flavor", value=one, flavor=FLAVORS[i])
    p = rng.permutation(len(e))
    rec.ok(np.allclose(fn(e[p], E), got[:, p], rtol=1e-12, atol=0), key + ":order", parent=E)
    below = float(m * rng.choice([0.0, 0.4, 0.9, 1 - 1e-6]))
    rec.ok(np.all(np.asarray(fn(e, below)) == 0), key + ":below-mass", parent=below)
    rec.raises(lambda: fn(e, E, str(rng.choice(["electron", "x", "", "E", "mu "]))), ValueError, key + ":bad-flavor")


def muon(rec, _):
    d = D()
    from hazma.spectra import dnde_neutrino_muon as fn
    refs = [d.muon_neutrino("e"), d.muon_neutrino("mu")]
    rng, m = rec.rng, d.MMU
    top = (m * m - d.ME**2) / (2 * m)
    for _ in range(rec.n(12, 150)):
        e = energies(rng, 1e-4, top, 50)
        got = np.asarray(fn(e, m))
        for r, v, fl in zip(refs, got, FLAVORS):
            either(rec, v, [r(e)], e, f"muon:rest:{fl}", 1e-10, 1e-18)
        contract(rec, fn, m, e, m, got, "muon:rest")
        for g in gammas(rng, 6):
            E = float(m * g)
            b = np.sqrt((g - 1) * (g + 1)) / g
            e = energies(rng, 1e-4, top * g * (1 + b), 60)
            got = np.asarray(fn(e, E))
            for r, v, fl in zip(refs, got, FLAVORS):
                f = lambda q: r.boosted(q, E, m)
                either(rec, v, [f(e)], e, f"muon:boosted:{fl}", 1e-8 + 1e-12 * g * g, 1e-15 / (g * b) * (1 + 0.01 * g * g) + band(f, e, 1e-13), parent=E)
            contract(rec, fn, m, e, E, got, "muon")


def lost(e, g, b, top):
    """The shipped quadrature runs to E gamma (1+beta) although the spectrum ends at `top`: its 21 nodes may all lie beyond."""
    hi, lo = e * g * (1 + b), e * g * (1 - b)
    first = lo + (hi - lo) * 0.5 * (1 - 0.995657163025808)
    return first > top * (1 - 1e-9)


def pion(rec, _):
    d = D()
    from hazma.spectra import dnde_neutrino_charged_pion as fn
    refs = [d.pion_neutrino("e"), d.pion_neutrino("mu")]
    rng, m = rec.rng, d.MPI
    gm = d.two_body(m, d.MMU, 0) / d.MMU
    top = (d.MMU**2 - d.ME**2) / (2 * d.MMU) * (gm + np.sqrt(gm * gm - 1))
    for _ in range(rec.n(12, 120)):
        e = energies(rng, 1e-3, top, 40)
        got = np.asarray(fn(e, m))
        for r, v, fl in zip(refs, got, FLAVORS):
            either(rec, v, [r(e)], e, f"pion:rest:{fl}", 1e-7, 1e-15)
        contract(rec, fn, m, e, m, got, "pion:rest")
        for g in gammas(rng, 6):
            E = float(m * g)
            b = np.sqrt((g - 1) * (g + 1)) / g
            e = energies(rng, 1e-3, 70 * g * (1 + b), 60)
            got = np.asarray(fn(e, E))
            for r, v, fl in zip(refs, got, FLAVORS):
                cont = d.Dist(lambda q: 0 * q, r.b[:2], 0.0, r.lines)
                f = lambda q: r.boosted(q, E, m)
                want = f(e)
                ln = cont.boosted(e, E, m)
                tol = band(f, e, 3e-7) + 2e-9 / (g * b)
                miss = lost(e, g, b, top)
                good = None
                for extra in ((0, 1) if fl == "e" else (0,)):
                    w = want + extra * ln
                    ok = np.abs(v - w) <= 3e-6 * w + tol
                    ok |= miss & (v >= (1 + extra) * ln * (1 - 1e-6) - tol) & (v <= w * (1 + 3e-6) + tol)
                    loose = ok | (np.abs(v - w) <= 3e-3 * w + 3e-4 * w.max() + tol)
                    # adaptive quadrature over a window reaching beyond the endpoint may stop short
                    reach = ok | ((e * g * (1 + b) > 8 * top) & (v >= (1 + extra) * ln * (1 - 1e-6)) & (v <= w * 1.02 + tol))
                    if good is None or ((loose | reach).sum(), ok.sum()) > (good[0].sum(), good[1].sum()):
                        good = (loose | reach, ok, w)
                acc, ok, w = good
                rec.count("nonzero", int(np.count_nonzero(w)))
                far = e * g * (1 + b) > 8 * top
                near_bad = (~ok & ~far).sum()
                fine = acc.all() and near_bad <= max(1, 0.05 * len(e))
                i = int(np.argmin(acc)) if not acc.all() else int(np.argmin(ok))
                rec.ok(fine, f"pion:boosted:{fl}", energy=e[i], value=v[i], expected=w[i], parent=E, bad=int((~ok).sum()), of=len(e))
            contract(rec, fn, m, e, E, got, "pion")
    ln = d.Dist(lambda q: 0 * q, refs[0].b[:2], 0.0, refs[0].lines)
    q = np.array([90.0])
    rec.close(fn(q, 1.1 * m)[0], refs[0].boosted(q, 1.1 * m, m), "pion:electron-line-twice", rtol=1e-3)
    rec.close(fn(np.array([900.0]), 10 * m)[1], refs[1].boosted(np.array([900.0]), 10 * m, m), "pion:forward-window", rtol=1e-3)


TABLES = {  # name: (csv, mass)
    "charged_kaon": ("charged_kaon", "MK"), "long_kaon": ("long_kaon", "MK0"), "short_kaon": ("short_kaon", "MK0"),
    "eta": ("eta", "META"), "eta_prime": ("eta_prime", "METAP"), "omega": ("omega", "MOMEGA"), "phi": ("phi", "MPHI"),
    # the rho files are named the wrong way around: the one with two charged pions belongs to the neutral rho
    "charged_rho": ("neutral_rho", "MRHO"), "neutral_rho": ("charged_rho", "MRHO")}


def table(rec, name):
    from scipy.interpolate import InterpolatedUnivariateSpline
    from numpy.polynomial.legendre import leggauss
    d = D()
    from hazma import spectra as S
    import hazma
    fn = getattr(S, "dnde_neutrino_" + name)
    csv, mass = TABLES[name]
    m = getattr(d, mass)
    rng = rec.rng
    gx, gw = leggauss(3)
    tabs = []
    for fl in FLAVORS[:2]:
        t = np.loadtxt(pathlib.Path(hazma.__file__).parent / "spectra/_neutrino/data" / f"{csv}_neutrino_{fl}.csv", delimiter=",").T
        x, w = t[0], t[1:].sum(axis=0) / t[0]
        s = InterpolatedUnivariateSpline(x, w, k=2)
        knots = np.unique(np.concatenate([s.get_knots(), x]))
        c = (knots[:-1, None] + knots[1:, None]) / 2 + np.diff(knots)[:, None] / 2 * gx
        cell = np.sum(s(c) * gw, axis=1) * np.diff(knots) / 2
        cum = np.concatenate([[0.0], np.cumsum(cell)])

        def F(q, s=s, knots=knots, cum=cum):
            q = np.clip(q, knots[0], knots[-1])
            i = np.clip(np.searchsorted(knots, q, side="right") - 1, 0, len(knots) - 2)
            a = knots[i]
            u = (a[:, None] + q[:, None]) / 2 + ((q - a) / 2)[:, None] * gx
            return cum[i] + np.sum(s(u) * gw, axis=1) * (q - a) / 2
        tabs.append((x, s, F, cum[-1], np.abs(w).max()))
    x = tabs[0][0]
    for _ in range(rec.n(5, 60)):
        e = energies(rng, x[0], x[-1], 40)
        got = np.asarray(fn(e, m))
        for (x, s, F, tot, peak), v, fl in zip(tabs, got, FLAVORS):
            k = (e >= x[0])
            rec.close(v[k], np.where(e > x[-1], 0.0, s(np.minimum(e, x[-1])) * e)[k], f"{name}:rest:{fl}", rtol=1e-9, atol=1e-14 * peak)
        contract(rec, fn, m, e, m, got, f"{name}:rest")
        for g in gammas(rng, 6):
            E = float(m * g)
            b = np.sqrt((g - 1) * (g + 1)) / g
            e = energies(rng, x[0] / g, x[-1] * g * (1 + b), 40)
            got = np.asarray(fn(e, E))
            for (x, s, F, tot, peak), v, fl in zip(tabs, got, FLAVORS):
                lo, hi = e / (g * (1 + b)), e * g * (1 + b)
                want = (F(hi) - F(lo)) / (2 * g * b)
                sure = np.ones(len(e), bool)
                if name == "charged_kaon" and fl == "mu":          # prompt neutrino of K -> mu nu
                    e0 = (m * m - d.MMU**2) / (2 * m)
                    want = want + np.where((lo < e0) & (e0 < hi), 0.6356 / (2 * g * b * e0), 0.0)
                    sure = (np.abs(lo / e0 - 1) > 1e-9 * g * g) & (np.abs(hi / e0 - 1) > 1e-9 * g * g)
                slack = ((4e-16 * g * e * peak * 4 + 1e-13 * abs(tot)) / (2 * g * b))[sure]
                either(rec, v[sure], [want[sure]], e[sure], f"{name}:boosted:{fl}", 1e-8, slack, parent=E)
            contract(rec, fn, m, e, E, got, name)
        q = int(rng.integers(5, 100))
        rec.close(fn([q, q + 7], 2.0 * m), fn(np.array([q, q + 7.0]), 2.0 * m), f"{name}:list", rtol=1e-15)


def nu_total(fn, E, lo, hi, n=160):
    gx, gw = np.polynomial.legendre.leggauss(8)
    u = np.linspace(np.log(lo), np.log(hi), n)
    e = np.exp(((u[:-1, None] + u[1:, None]) / 2 + np.diff(u)[:, None] / 2 * gx).ravel())
    wt = (np.diff(u)[:, None] / 2 * gw).ravel()
    f = np.asarray(fn(e, float(E)))
    return f @ (wt * e), f @ (wt * e * e)


COUNTS = {"muon": (1, 1), "charged_pion": (1, 2), "charged_rho": (1, 2), "neutral_rho": (2, 4), "short_kaon": (2 * 0.692, 4 * 0.692),
          "charged_kaon": (1.111, 2.121)}
KNOWN_SHORT = ("long_kaon", "eta_prime", "phi")


def totals(rec, _):
    """Neutrino numbers do not depend on the parent's motion; each electron or positron comes with one electron-type neutrino."""
    d = D()
    from hazma import spectra as S
    rng = rec.rng
    mass = {"muon": d.MMU, "charged_pion": d.MPI, **{k: getattr(d, v[1]) for k, v in TABLES.items()}}
    for name, m in mass.items():
        fn, pos = getattr(S, "dnde_neutrino_" + name), getattr(S, "dnde_positron_" + name)
        g1 = float(rng.uniform(1.05, 1.4))
        res = []
        for g in (g1, g1 * float(rng.uniform(1.5, 4))):
            E = m * g
            n, en = nu_total(fn, E, 1e-3 * m, 1.3 * m * g)
            res.append((n, en / E))
            ne, ee = positron_total(pos, E, d.ME, m * g)
            rec.ok(en.sum() + ee <= E * (1 + 2e-3), f"totals:{name}:energy-budget", neutrinos=en.sum(), positrons=ee, parent=E)
            if name not in KNOWN_SHORT:
                rec.close(n[0], ne, f"totals:{name}:electron-number", rtol=5e-3)
            rec.count("sums", 2)
        for j in (0, 1):
            rec.close(res[0][j][:2], res[1][j][:2], f"totals:{name}:boost-invariance", rtol=2e-2 if name == "charged_pion" else 6e-3, g=g1)
        if name in COUNTS:
            rec.close(res[0][0][:2], COUNTS[name], f"totals:{name}:count", rtol=6e-3)
    for name in KNOWN_SHORT:                       # deterministic probes of three incomplete tables
        m = mass[name]
        n, _ = nu_total(getattr(S, "dnde_neutrino_" + name), 1.5 * m, 1e-3 * m, 1.95 * m)
        ne, _ = positron_total(getattr(S, "dnde_positron_" + name), 1.5 * m, d.ME, 1.5 * m)
        rec.close(n[0], ne, f"lepton-number:{name}", rtol=2e-2)


BALANCE = {"muon": 6e-3, "charged_pion": 8e-3, "charged_kaon": 0.02, "long_kaon": 0.03, "short_kaon": 0.03, "eta": 0.04, "omega": 0.03,
           "charged_rho": 0.02, "neutral_rho": 0.02}


def balance(rec, _):
    """Photons, electrons and neutrinos of one decay carry all of the parent's energy."""
    d = D()
    from hazma import spectra as S
    rng = rec.rng
    mass = {"muon": d.MMU, "charged_pion": d.MPI, **{k: getattr(d, v[1]) for k, v in TABLES.items()}}
    gx, gw = np.polynomial.legendre.leggauss(6)
    for name, tol in BALANCE.items():
        for _ in range(rec.n(1, 4)):
            m = mass[name]
            E = m * float(rng.uniform(1.2, 3))
            hi = E / 2 * (1 + np.sqrt(1 - (m / E)**2)) * 1.001
            u = np.linspace(np.log(1e-4 * m), np.log(hi), 60 if "rho" in name else 160)
            e = np.exp(((u[:-1, None] + u[1:, None]) / 2 + np.diff(u)[:, None] / 2 * gx).ravel())
            wt = (np.diff(u)[:, None] / 2 * gw).ravel() * e * e
            ph = float(wt @ getattr(S, "dnde_photon_" + name)(e, E))
            nu = float(nu_total(getattr(S, "dnde_neutrino_" + name), E, 1e-4 * m, 1.3 * E)[1].sum())
            po = float(positron_total(getattr(S, "dnde_positron_" + name), E, d.ME, E)[1])
            rec.close((ph + nu + po) / E, 1.0, "balance:" + name, rtol=tol, photon=ph / E, neutrino=nu / E, positron=po / E, parent=E)


def tasks(ck):
    return [("muon", muon, None), ("charged-pion", pion, None), ("totals", totals, None), ("balance", balance, None), ("yields", yields, "neutrino"), ("published", _recorded.compare, "neutrino")] + \
        [(f"table:{n}", table, n) for n in TABLES]
