"""Positron decay spectra: Michel decay, pion cascade, meson tables, boosts and conservation laws."""
import pathlib
import numpy as np
from . import _recorded
from .p13 import D, in_range, band, common, yields, ROOT

PROPERTY = "P14"
RULE = ("one judged spectrum value set, relation or sum per event, for parents from rest to ten thousand times their mass and positron "
        "energies from threshold across and beyond the kinematic range; oracle = massive Michel spectrum boosted exactly (muon, pion) or exact "
        "integrals of the shipped tables; non-trivial = non-zero reference value")
NATIVE = "all"
NORM = 1 / 1.0001870858234163**2          # documented: the Michel normalisation is divided by instead of multiplied


def gammas(rng, n, top=4):
    return np.concatenate([[1 + 10 ** rng.uniform(-6, -2)], 1 + 10 ** rng.uniform(-2, 1.5, n - 2), [10 ** rng.uniform(1.5, top)]])


def positron_energies(rng, m, top, n):
    """From the electron mass to beyond the endpoint: log in kinetic energy, uniform near the top."""
    a = m + np.exp(rng.uniform(np.log(1e-6), np.log(top - m), n))
    b = top * rng.uniform(0.5, 1.0, n // 2)
    return np.sort(np.concatenate([a, b[b > m], top * np.array([1 + 1e-4, 1.5, 20.0])]))


def either(rec, got, refs, e, key, rtol, atol, lost=None, **d):
    """Every value agrees with the same one of the admissible references."""
    ok = [np.abs(got - r) <= rtol * np.abs(r) + atol for r in refs]
    best = max(ok, key=lambda k: k.sum())
    rec.count("nonzero", int(np.count_nonzero(refs[0])))
    if best.all():
        rec.ok(True, key)
        return
    bad = ~best
    i = int(np.argmax(bad))
    rec.fail(key, energy=e[i], value=got[i], expected=[float(r[i]) for r in refs], bad=int(bad.sum()), of=len(e), **d)


def muon(rec, _):
    d = D()
    from hazma.spectra import dnde_positron_muon as fn
    ref = d.muon_positron()
    rng, m = rec.rng, d.MMU
    W = (m * m + d.ME**2) / (2 * m)
    for _ in range(rec.n(15, 200)):
        e = positron_energies(rng, d.ME, W, 60)
        got = fn(e, m)
        r = ref(e)
        either(rec, got, [r, NORM * r], e, "muon:rest", 1e-9, 1e-16)
        common(rec, fn, m, e, m, got, "muon:rest")
        for g in gammas(rng, 6):
            E = float(m * g)
            b = np.sqrt((g - 1) * (g + 1)) / g
            e = positron_energies(rng, d.ME, W * g * (1 + b), 80)
            got = fn(e, E)
            r = ref.boosted(e, E, m)
            either(rec, got, [r, NORM * r], e, "muon:boosted", 1e-8 + 1e-13 * g * g, 2e-13 * (1 + g * g * 1e-3) / b + band(lambda q: ref.boosted(q, E, m), e, 1e-13), parent=E)
            common(rec, fn, m, e, E, got, "muon")
        below = rng.uniform(0, d.ME, 5)
        rec.ok(np.all(fn(below, float(m * rng.uniform(1, 50))) == 0), "muon:below-electron-mass", e=below)
    # documented normalisation: a deterministic probe
    rec.close(fn(30.0, 300.0), ref.boosted(np.array([30.0]), 300.0, m)[0], "muon:normalisation", rtol=1e-6)


def pion(rec, _):
    d = D()
    from hazma.spectra import dnde_positron_charged_pion as fn
    ref = d.pion_positron()
    rng, m = rec.rng, d.MPI
    cont = d.Dist(lambda q: ref(q), ref.b, d.ME)
    line = d.Dist(lambda q: 0 * q, ref.b, d.ME, ref.lines)
    top = 69.79
    for _ in range(rec.n(12, 120)):
        e = positron_energies(rng, d.ME, top, 20)
        got = fn(e, m)
        r = ref(e)
        either(rec, got, [r, NORM * r, 0 * r], e, "pion:rest", 1e-3, 1e-12)
        for g in gammas(rng, 6):
            E = float(m * g)
            b = np.sqrt((g - 1) * (g + 1)) / g
            e = positron_energies(rng, d.ME, top * g * (1 + b), 60)
            got = fn(e, E)
            for f in (1.0, NORM):
                full = lambda q: f * cont.boosted(q, E, m) + line.boosted(q, E, m)
                want = full(e)
                tol = 2.5e-4 * want + 1e-9 / (g * b) + band(full, e, 1e-6)
                ok = np.abs(got - want) <= tol
                loose = np.abs(got - want) <= 6e-3 * want + 1e-8 / (g * b) + band(full, e, 1e-6)
                if loose.all() and (~ok).sum() <= max(2, 0.08 * len(e)):
                    rec.ok(True, "pion:boosted")
                    rec.count("nonzero", int(np.count_nonzero(want)))
                    break
            else:
                i = int(np.argmin(loose)) if not loose.all() else int(np.argmin(ok))
                rec.fail("pion:boosted", energy=e[i], value=got[i], expected=want[i], parent=E, loose_bad=int((~loose).sum()), bad=int((~ok).sum()), of=len(e))
            common(rec, fn, m, e, E, got, "pion")
        below = rng.uniform(0, d.ME * 0.999, 5)
        rec.ok(np.all(fn(below, float(m * rng.uniform(1, 50))) == 0), "pion:below-electron-mass", e=below)
    rec.close(fn(20.0, m), ref(np.array([20.0]))[0], "pion:rest-zero", rtol=1e-3)


TABLES = {  # name: (csv, mass, factor)
    "charged_kaon": ("charged_kaon", "MK", 1), "long_kaon": ("long_kaon", "MK0", 1), "short_kaon": ("short_kaon", "MK0", 1),
    "eta": ("eta", "META", 1), "eta_prime": ("eta_prime", "METAP", 1), "omega": ("omega", "MOMEGA", 1), "phi": ("phi", "MPHI", 1),
    "charged_rho": ("rho", "MRHO", 1), "neutral_rho": ("rho", "MRHO", 2)}


def table(rec, name):
    d = D()
    from hazma import spectra as S
    import hazma
    from .p08 import lin_int
    fn = getattr(S, "dnde_positron_" + name)
    csv, mass, k = TABLES[name]
    m = getattr(d, mass)
    t = np.loadtxt(pathlib.Path(hazma.__file__).parent / "spectra/_positron/data" / f"{csv}_positron.csv", delimiter=",").T
    x, y = t[0], k * t[1:].sum(axis=0)
    p = np.sqrt(x**2 - d.ME**2)
    w = y / p
    F = lin_int(x, w)
    mom = lambda q: np.sqrt(np.maximum(q * q - d.ME**2, 0))
    rng = rec.rng
    for _ in range(rec.n(6, 80)):
        e = positron_energies(rng, d.ME, x[-1], 40)
        got = np.asarray(fn(e, m))
        want = np.where(e > x[-1], 0.0, np.interp(e, x, w) * mom(e))
        rec.close(got, want, f"{name}:rest", rtol=1e-9, atol=1e-15)
        common(rec, fn, m, e, m, got, f"{name}:rest")
        for g in gammas(rng, 6):
            E = float(m * g)
            b = np.sqrt((g - 1) * (g + 1)) / g
            e = positron_energies(rng, d.ME, (x[-1] + p[-1] * b) * g, 40)
            got = np.asarray(fn(e, E))
            q = mom(e)
            hi = g * (e + b * q)
            lo = np.maximum(d.ME, (e * e / g**2 + b * b * d.ME**2) / (e / g + b * q / g) if g > 10 else g * (e - b * q))
            want = np.array([F(max(u, x[0]), min(v, x[-1])) if u < x[-1] else 0.0 for u, v in zip(lo, hi)]) / (2 * g * b)
            atol = 1e-13 * F(x[0], x[-1]) / (2 * g * b)
            # rounding of the lower end of the window, E (1 - beta), for fast parents
            slack = 4e-16 * g * e * np.interp(lo, x, w) / (2 * g * b) * 4
            either(rec, got, [want], e, f"{name}:boosted", 1e-9, atol + slack, parent=E)
            common(rec, fn, m, e, E, got, name)
        for bad in (int(e[5]) + 1,):
            a, b_ = fn(bad, 2.0 * m), fn(float(bad), 2.0 * m)
            rec.ok(a == b_, f"{name}:integer-energy", a=a, b=b_)
            rec.close(fn([bad, bad + 7], 2.0 * m), fn(np.array([bad, bad + 7.0]), 2.0 * m), f"{name}:list", rtol=1e-15)
            rec.close(fn(np.array([bad, bad + 7]), 2.0 * m), fn(np.array([bad, bad + 7.0]), 2.0 * m), f"{name}:integer-array", rtol=1e-15)


def total(fn, E, lo, hi, n=160):
    """Number and energy of the products, on rapidity panels."""
    gx, gw = np.polynomial.legendre.leggauss(8)
    me = 0.5109989461
    u = np.linspace(np.arccosh(max(lo / me, 1.0)), np.arccosh(hi / me), n)
    w = ((u[:-1, None] + u[1:, None]) / 2 + np.diff(u)[:, None] / 2 * gx).ravel()
    wt = (np.diff(u)[:, None] / 2 * gw).ravel()
    e, p = me * np.cosh(w), me * np.sinh(w)
    f = np.asarray(fn(e, float(E)))
    return np.sum(wt * f * p), np.sum(wt * f * p * e)


COUNTS = {"muon": 1.0, "charged_pion": 1.0, "charged_kaon": None, "long_kaon": None, "short_kaon": 2 * 0.692, "eta": None, "eta_prime": None,
          "omega": None, "phi": None, "charged_rho": 1.0, "neutral_rho": 2.0}


def totals(rec, _):
    """The number of positrons is the same from slow and fast parents, and their energy scales with the parent's."""
    d = D()
    from hazma import spectra as S
    rng = rec.rng
    mass = {"muon": d.MMU, "charged_pion": d.MPI, **{k: getattr(d, v[1]) for k, v in TABLES.items()}}
    for name, want in COUNTS.items():
        fn = getattr(S, "dnde_positron_" + name)
        m = mass[name]
        g1 = float(rng.uniform(1.05, 1.4))
        res = []
        for g in (g1, g1 * float(rng.uniform(1.5, 4))):
            E = m * g
            n, en = total(fn, E, d.ME, m * g)
            res.append((n, en / E))
            rec.ok(en <= E * (1 + 1e-6) * (2 if want == 2 else 1), f"totals:{name}:energy-budget", energy=en, parent=E)
        rec.close(res[0], res[1], f"totals:{name}:boost-invariance", rtol=5e-3, g=g1)
        if want:
            rec.close(res[0][0], want, f"totals:{name}:count", rtol=5e-3)
        rec.count("sums", 2)


def tasks(ck):
    return [("muon", muon, None), ("charged-pion", pion, None), ("totals", totals, None), ("yields", yields, "positron"), ("published", _recorded.compare, "positron")] + \
        [(f"table:{n}", table, n) for n in TABLES]
