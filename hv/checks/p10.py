"""Detector response, instrument data, background models and spectrum marginalisation."""
import json
import pathlib
import numpy as np
from . import _recorded
from scipy.special import erf

PROPERTY = "P10"
NATIVE = "all"
RULE = ("one judged convolved value, conserved photon count, table value, background derivative, flux conversion or marginal per event over "
        "random spectra, lines, resolutions (constant, tabulated, scalar-only, zero) and energy windows; oracle = independent log-grid quadrature "
        "of the Gaussian response, the shipped tables read afresh, closed-form backgrounds; non-trivial = non-zero expectation")
G = "/repo/hazma/gamma_ray_data/"
REF = pathlib.Path(__file__).resolve().parents[2] / "ref" / "targets.json"


def gauss(ep, e, s):
    return np.exp(-((ep - e) / s) ** 2 / 2) / (np.sqrt(2 * np.pi) * s)


TWO = ("g g", "a a", "photon photon")


def conv_oracle(e, f, res, lo, hi):
    """int f(e') N(e; e', e' res(e')) de' with Gauss-Legendre panels in units of the width."""
    from numpy.polynomial.legendre import leggauss
    t, w = leggauss(8)
    n = int(np.clip(2.0 * np.log(hi / lo) / np.min(res(np.geomspace(lo, hi, 400))), 300, 20000))
    l = np.linspace(np.log(lo), np.log(hi), n)
    x = np.exp(((l[1:] + l[:-1]) / 2)[:, None] + ((l[1:] - l[:-1]) / 2)[:, None] * t).ravel()
    ww = (((l[1:] - l[:-1]) / 2)[:, None] * w).ravel() * x
    y = f(x) * ww
    s = x * res(x)
    return np.array([np.sum(y * gauss(q, x, s)) for q in e])


def rand_res(rng):
    k = int(rng.integers(0, 5))
    a = float(10 ** rng.uniform(-2.3, -0.4))
    b = float(rng.uniform(-0.2, 0.2))
    if k == 0:
        return "constant-scalar", (lambda e: a), (lambda e: np.full(np.shape(e), a))
    if k == 1:
        return "array", (lambda e: a * np.asarray(e, float) ** b), (lambda e: a * np.asarray(e, float) ** b)
    if k == 2:
        c = float(10 ** rng.uniform(-1, 3))
        return ("branching-scalar-only", (lambda e: a if e < c else a * (1 + b)),
                lambda e: np.where(np.asarray(e) < c, a, a * (1 + b)))
    if k == 3:
        def only_scalar(e):
            import math
            return a * math.exp(b * math.atan(float(e)))
        return "math-only", only_scalar, (lambda e: a * np.exp(b * np.arctan(e)))
    x = np.geomspace(1e-4, 1e6, 40)
    y = a * (1 + 0.5 * rng.random(40))
    return "interp", (lambda e: np.interp(e, x, y)), (lambda e: np.interp(e, x, y))


def response(rec, _):
    from hazma.parameters import spec_res_fn, convolved_spectrum_fn, _eval_energy_res
    rng = rec.rng
    for k in range(rec.n(120, 1200)):
        name, res, ref = rand_res(rng)
        e = float(10 ** rng.uniform(-2, 4))
        s = e * float(ref(np.array([e]))[0])
        ep = e + s * rng.uniform(-6, 6, 9)
        rec.close(spec_res_fn(ep, e, res), gauss(ep, e, s), "response", rtol=1e-10, res=name, e=e)
        rec.close(spec_res_fn(float(ep[3]), e, res), gauss(ep[3], e, s), "response:scalar", rtol=1e-10, res=name, e=e)
        # arrays of true energies use each energy's own width
        es = np.sort(10 ** rng.uniform(-2, 4, 7))
        rec.close(spec_res_fn(e, es, res), gauss(e, es, es * ref(es)), "response:array-true", rtol=1e-10, atol=1e-290, res=name, e=e)
        rec.close(_eval_energy_res(res, es), ref(es), "callback", rtol=1e-12, res=name, e=es)
        # unit probability over reconstructed energy
        g = np.linspace(e - 9 * s, e + 9 * s, 4001)
        rec.close(np.trapezoid(spec_res_fn(g, e, res), g), 1.0, "response:normalised", rtol=1e-8, res=name, e=e)
        rec.close(spec_res_fn(np.append(ep, e), e, lambda q: 0.0 * np.asarray(q)), np.zeros(10), "zero-width", e=e)
        rec.count("response", 5)


def conv(rec, arg):
    from hazma.parameters import convolved_spectrum_fn
    rng = rec.rng
    for k in range(rec.n(8, 60)):
        name, res, ref = rand_res(rng)
        lo = float(10 ** rng.uniform(-2, 2))
        hi = lo * float(10 ** rng.uniform(0.3, 2.5))
        if arg == "fine":     # narrow response: the true-energy grid has to refine itself
            a = float(10 ** rng.uniform(-3.2, -2.3))
            hi = lo * 3
            if k % 2:
                name, res, ref = "fine", (lambda e: a), (lambda e: np.full(np.shape(e), a))
            else:       # much sharper at some energies than at others
                cut, b = float(rng.uniform(lo, hi)), float(rng.uniform(0.05, 0.5))
                up = bool(rng.random() < 0.5)
                ref = lambda e: np.where((np.asarray(e) > cut) == up, a, b)
                name, res = "fine-step", ref
        if arg != "fine" and k % 4 == 3:      # a response so wide that photons from well below the window reach it
            a = float(rng.uniform(0.3, 0.5))
            name, res, ref = "wide", (lambda e: a), (lambda e: np.full(np.shape(e), a))
        amp, p, m = float(10 ** rng.uniform(-3, 3)), float(rng.uniform(-1, 2)), float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
        width = float(rng.uniform(0.2, 1))
        f = lambda e: amp * (np.asarray(e) / m) ** (-p) * np.exp(-np.log(np.asarray(e) / m) ** 2 / (2 * width**2))
        if name == "wide":
            m, width = lo * float(rng.uniform(0.2, 0.5)), 0.25
        n = int(rng.choice([200, 500, 1000]))
        tag = dict(k=k, res=name, lo=lo, hi=hi, n=n)
        fn = convolved_spectrum_fn(lo, hi, res, f, None, n)
        q = np.geomspace(lo, hi, n)[rng.integers(0, n, 6)]
        q = np.clip(q, lo * (1 + 1e-12), hi * (1 - 1e-12))
        if name == "fine-step":         # the half cell at the step itself is resolved by neither side
            q = q[np.abs(np.log(q / cut)) > 8 * a]
            if not q.size:
                continue
        w = conv_oracle(q, f, ref, lo / 10, hi * 10)
        rec.close(fn(q), w, "convolved", rtol=4e-3, atol=1e-4 * np.max(np.abs(w)), **tag)
        # a spectrum that ends inside the window, and one that starts there
        end = float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
        for cl, fc in (("ends", lambda e: f(e) * np.maximum(1 - np.asarray(e) / end, 0)), ("starts", lambda e: f(e) * np.maximum(1 - end / np.asarray(e), 0))):
            w2 = conv_oracle(q, fc, ref, lo / 10, hi * 10)
            rec.close(convolved_spectrum_fn(lo, hi, res, fc, None, n)(q), w2, "convolved:" + cl, rtol=1e-2, atol=3e-4 * np.max(np.abs(w)), end=end, **tag)
        # a detector blind on one side of some energy: photons of a vanishing response width are lost
        side, wd = bool(rng.random() < 0.5), float(rng.uniform(0.05, 0.3))
        blind = lambda e: np.where((np.asarray(e) > end) == side, wd, 0.0)
        good, v = rec.guard("blind side", lambda: convolved_spectrum_fn(lo, hi, blind, f, None, n)(q), cut=end, up=side, **tag)
        if good:
            edge = 0.1 * f(end) * end * wd * gauss(q, end, end * wd) * np.sqrt(2 * np.pi)       # half a grid cell at the cut
            w2 = conv_oracle(q, lambda e: f(e) * ((np.asarray(e) > end) == side), lambda e: np.full(np.shape(e), wd), lo / 10, hi * 10)
            rec.close(v, w2, "blind", rtol=0.03, atol=0.01 * np.max(np.abs(w)) + edge, cut=end, up=side, **tag)
        rec.close(convolved_spectrum_fn(lo, hi, lambda e: 0.0 * np.asarray(e), f, None, n)(q), 0 * q, "blind everywhere", **tag)
        # linear in the spectrum
        c = float(rng.uniform(0.1, 9))
        rec.close(convolved_spectrum_fn(lo, hi, res, lambda e: c * f(e), None, n)(q), c * fn(q), "linear", rtol=1e-10, **tag)
        # lines
        lines = {}
        for ch in rng.permutation(["g g", "pi0 g", "x y", "g", "g g g", "a a", "photon photon"])[: int(rng.integers(1, 4))]:
            lines[str(ch)] = dict(energy=float(np.exp(rng.uniform(np.log(lo / 2), np.log(2 * hi)))), bf=float(rng.random()))
        want = sum(l["bf"] * (2 if ch in TWO else 1) * gauss(q, l["energy"], l["energy"] * float(ref(np.array([l["energy"]]))[0]))
                   for ch, l in lines.items())
        ln = convolved_spectrum_fn(lo, hi, res, None, lines, n)
        rec.close(ln(q), want, "lines", rtol=1e-9, atol=1e-14, **tag)
        both = convolved_spectrum_fn(lo, hi, res, f, lines, n)
        rec.close(both(q), fn(q) + ln(q), "continuum+lines", rtol=1e-9, atol=1e-14, **tag)
        rec.close(convolved_spectrum_fn(lo, hi, res, lambda e: 0 * e, {}, n)(q), 0 * q, "zero", **tag)
        rec.close(convolved_spectrum_fn(lo, hi, res)(q), 0 * q, "nothing", **tag)
        for bad in (lo * 0.99, hi * 1.01):
            rec.raises(lambda: fn(bad), ValueError, "outside-window", bad=bad, **tag)
        # between nodes the result is linear interpolation and the nodes are geometric
        nodes = np.geomspace(lo, hi, n)
        i = int(rng.integers(0, n - 1))
        t = float(rng.random())
        rec.close(fn(nodes[i] * (1 - t) + nodes[i + 1] * t), (1 - t) * fn(nodes[i]) + t * fn(nodes[i + 1]), "nodes", rtol=1e-7,
                  atol=1e-12 * np.max(w), **tag)
        # photon number: a narrow feature well inside a wide window keeps its photons
        a = float(ref(np.array([m]))[0])
        if name in ("constant-scalar", "interp") and 0.01 < a < 0.15:
            f2 = lambda e: np.exp(-np.log(np.asarray(e) / m) ** 2 / (2 * 0.3**2)) / np.asarray(e)
            wide = convolved_spectrum_fn(m / 9, m * 9, res, f2, {"x": dict(energy=m, bf=0.7)}, 1500)
            rec.close(wide.integral(m / 8.99, m * 8.99), 0.3 * np.sqrt(2 * np.pi) + 0.7, "photon-number", rtol=5e-3, **tag)
        rec.count("convolutions", 7)


def tables(rec, _):
    import hazma.gamma_ray_parameters as g
    rng = rec.rng
    for nm in "adept amego comptel all_sky_astrogam e_astrogam egret fermi gecco grams grams_upgrade mast pangu".split():
        x, y = np.genfromtxt(f"{G}A_eff/{nm}.dat", delimiter=",", unpack=True)
        o = np.argsort(x, kind="stable")
        x, y = x[o], y[o]
        q = np.concatenate([np.exp(rng.uniform(np.log(x[0] if x[0] > 0 else 1e-6), np.log(x[-1]), rec.n(300, 5000))), x[1:-1], [x[0] * 0.5, x[0] * 0.999, x[-1] * 1.001, x[-1] * 50]])
        for fn in (getattr(g, f"effective_area_{nm}"), getattr(g, f"A_eff_{nm}")):
            v = fn(q)
            # repeated abscissae are steps: skip points sitting exactly on one
            dup = np.isin(q, x[1:][np.diff(x) == 0])
            w = np.where((q < x[0]) | (q > x[-1]), 0.0, np.interp(q, x, y))
            rec.close(np.where(dup, 0, v), np.where(dup, 0, w), "effective-area", rtol=1e-9, atol=1e-9, inst=nm, fn=getattr(fn, "__name__", "A"))
            rec.ok(np.all(v >= 0), "effective-area:non-negative", inst=nm)
            rec.close(float(fn(float(q[0]))), w[0], "effective-area:scalar", rtol=1e-9, inst=nm)
        xa = getattr(g, f"A_eff_{nm}").x
        rec.ok(xa[0] == x[0] and xa[-1] == x[-1], "effective-area:range", inst=nm)
    fw = 1 / (2 * np.sqrt(2 * np.log(2)))
    q = 10 ** rng.uniform(-2, 5, rec.n(200, 2000))
    for nm, c in dict(adept=0.3 * fw, comptel=0.05 * fw, egret=0.18 * fw, fermi=0.075, grams=0.05, grams_upgrade=0.05, pangu=0.4).items():
        f = getattr(g, f"energy_res_{nm}")
        rec.close(f(q), np.full(q.shape, c), "energy-res:constant", rtol=1e-12, inst=nm)
        rec.close(float(f(3.0)), c, "energy-res:constant-scalar", rtol=1e-12, inst=nm)
    for nm, (fl, c) in dict(amego=("amego", 1), all_sky_astrogam=("e_astrogam", 1), e_astrogam=("e_astrogam", 1), gecco=("gecco", fw),
                            gecco_large=("gecco_large", 1), integral=("integral", 1), mast=("mast", 1)).items():
        x, y = np.genfromtxt(f"{G}energy_res/{fl}.dat", delimiter=",", unpack=True)
        o = np.argsort(x, kind="stable")
        x, y = x[o], y[o]
        f = getattr(g, f"energy_res_{nm}")
        qq = np.exp(rng.uniform(np.log(max(x[0], 1e-9)), np.log(x[-1]), rec.n(200, 2000)))
        rec.close(f(qq), c * np.interp(qq, x, y), "energy-res:table", rtol=1e-9, inst=nm)
        for e, (i, j) in ((x[0] * 0.6, (0, 1)), (x[-1] * 1.7, (-2, -1))):
            rec.close(float(f(e)), c * (y[i] + (e - x[i]) * (y[j] - y[i]) / (x[j] - x[i])), "energy-res:extrapolated", rtol=1e-8, inst=nm)
    ref = json.loads(REF.read_text())

    def walk(o):
        return {k: walk(v) for k, v in o.items()} if isinstance(o, dict) else [o.J, o.D, o.dOmega, o.vx]

    def flat(a, b, path):
        rec.ok((set(a) == set(b)) if isinstance(b, dict) else True, "targets:names", path=path)
        if isinstance(b, dict):
            for k in b:
                if k in a:
                    flat(a[k], b[k], path + "/" + k)
        else:
            rec.close(np.array(a), np.array(b), "targets", rtol=1e-12, path=path)
    for nm, w in ref.items():
        flat(walk(getattr(g, nm)), w, nm) if isinstance(getattr(g, nm), dict) else flat(walk(getattr(g, nm)), w, nm)
    for a in np.concatenate([rng.uniform(0, 180, 40), [1 / 60, 5, 10]]):
        rec.close(g.solid_angle_cone(float(a)), 2 * np.pi * (1 - np.cos(np.radians(a))), "solid-angle", rtol=1e-6 if a > 1 else 1e-4, a=a)
    for grp in (g.gc_targets, g.gc_targets_optimistic, g.draco_targets, g.m31_targets):
        for prof in grp:
            for reg, t in grp[prof].items():
                if "cone" in reg:
                    ang = float(reg.split()[0]) / (60 if "arcmin" in reg else 1)
                    rec.close(t.dOmega, g.solid_angle_cone(ang), "targets:solid-angle", rtol=5e-3, reg=reg)


def flux(rec, _):
    import hazma.gamma_ray_parameters as g
    from hazma.flux_measurement import FluxMeasurement
    import tempfile, os
    rng = rec.rng
    for nm in ("comptel", "egret", "fermi", "integral"):
        d = np.loadtxt(f"{G}obs/{nm}_diffuse.dat", delimiter=",").T
        m = getattr(g, f"{nm}_diffuse")
        c = 0.5 * (d[0] + d[1])
        rec.close(m.e_lows, d[0], "obs:e_lows", inst=nm)
        rec.close(m.e_highs, d[1], "obs:e_highs", inst=nm)
        rec.close(m.fluxes, d[2] / c**2, "obs:flux", rtol=1e-11, inst=nm)
        rec.close(m.upper_errors, (d[3] - d[2]) / c**2, "obs:upper", rtol=1e-9, atol=1e-14, inst=nm)
        rec.close(m.lower_errors, (d[2] - d[4]) / c**2, "obs:lower", rtol=1e-9, atol=1e-14, inst=nm)
        rec.ok(m.target is getattr(g, f"{nm}_diffuse_target"), "obs:target", inst=nm)
        rec.close(np.ravel(m.energy_res(np.array([1.0, 30.0]))), np.ravel(getattr(g, f"energy_res_{nm}")(np.array([1.0, 30.0]))), "obs:res", inst=nm)
    for k in range(rec.n(60, 600)):
        n = int(rng.integers(1, 12))
        ed = np.sort(10 ** rng.uniform(-1, 4, n + 1))
        p = [2, 0, 1, 3, 2.5][k % 5]
        fl = 10 ** rng.uniform(-5, 0, n)
        up, dn = fl * rng.uniform(1, 2, n), fl * rng.uniform(0.1, 1, n)
        args = [ed[:-1].copy(), ed[1:].copy(), fl.copy(), up.copy(), dn.copy()]
        keep = [a.copy() for a in args]
        res, tgt = (lambda e: 0.1), object()
        c = 0.5 * (ed[1:] + ed[:-1])
        if k % 2:
            m = FluxMeasurement(*args, res, tgt, p)
        else:
            fd, path = tempfile.mkstemp()
            os.close(fd)
            np.savetxt(path, np.array(args).T, delimiter=",", fmt="%.17g")
            if n == 1:
                os.unlink(path)
                continue
            m = FluxMeasurement.from_file(path, res, tgt, power=p)
            os.unlink(path)
        rec.close(m.fluxes, fl / c**p, "flux", rtol=1e-12, k=k)
        rec.close(m.upper_errors, (up - fl) / c**p, "upper", rtol=1e-9, atol=1e-12 * np.max(fl / c**p), k=k)
        rec.close(m.lower_errors, (fl - dn) / c**p, "lower", rtol=1e-9, atol=1e-12 * np.max(fl / c**p), k=k)
        rec.ok(np.all(m.upper_errors >= 0) and np.all(m.lower_errors >= 0), "errors-non-negative", k=k)
        rec.ok(all(np.array_equal(a, b) for a, b in zip(args, keep)), "caller-arrays-untouched", k=k)
        rec.ok(m.energy_res is res and m.target is tgt, "kept", k=k)
        if p == 2 and k % 2:
            rec.close(FluxMeasurement(*args, res, tgt).fluxes, m.fluxes, "default-power", k=k)


def backgrounds(rec, _):
    import hazma.gamma_ray_parameters as g
    from hazma.background_model import BackgroundModel
    rng = rec.rng
    x, y = np.genfromtxt(f"{G}bg_model/gc.dat", delimiter=",", unpack=True)
    q = np.exp(rng.uniform(np.log(x[0]), np.log(x[-1]), 300))
    rec.close(g.gc_bg_model.dPhi_dEdOmega(q), np.interp(q, x, y), "gc-table", rtol=1e-9)
    rec.close(float(g.gc_bg_model.dPhi_dEdOmega(float(q[0]))), np.interp(q[0], x, y), "gc-table:scalar", rtol=1e-9)
    rec.close(np.array(g.gc_bg_model.e_range), x[[0, -1]], "gc-range")
    for e in (x[0] * 0.9, x[-1] * 1.1):
        rec.raises(lambda: g.gc_bg_model.dPhi_dEdOmega(e), ValueError, "gc-outside", e=e)
        rec.raises(lambda: g.gc_bg_model.dPhi_dEdOmega(np.array([1.0, e])), ValueError, "gc-outside-array", e=e)
    e = 10 ** rng.uniform(-2, 4, 300)
    rec.close(g.gecco_bg_model.dPhi_dEdOmega(e), 8e-3 / e**2, "gecco", rtol=1e-12)
    rec.close(g.default_bg_model.dPhi_dEdOmega(e), 2.74e-3 / e**2, "default", rtol=1e-12)
    rec.ok(list(g.gecco_bg_model.e_range) == [0.2, 4e3] and list(g.default_bg_model.e_range) == [0.0, 1e4], "ranges")
    import warnings
    for k in range(20):
        lo, hi = np.sort(10 ** rng.uniform(-2, 3, 2))
        m = BackgroundModel([lo, hi], lambda e: 1 / e)
        for ee, out in ((np.array([lo * 1.01]), hi < lo * 1.01), (np.array([lo * 0.9, hi]), True), (float(hi * 1.2), True), (float(lo), False), (float(hi), False),
                        (np.array([lo, hi]), False), (np.array([hi]), False), (np.array([lo]), False), (float(lo * 0.8), True), (np.array([lo, 1.1 * hi]), True)):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                v = m.dPhi_dEdOmega(ee)
            rec.ok((len(ws) > 0) == bool(out), "range-warning", k=k, e=ee)
            rec.close(v, 1 / np.asarray(ee), "value", rtol=1e-13, k=k, e=ee)
    for k in range(rec.n(60, 600)):
        p = dict(galactic_amplitude=float(10 ** rng.uniform(-4, 0)), galactic_power_law_index=float(rng.uniform(0.5, 3)),
                 galactic_exponential_cutoff=float(10 ** rng.uniform(-0.5, 1.5)), galactic_exponential_index=float(rng.uniform(0.3, 3)),
                 extra_galactic_amplitude=float(10 ** rng.uniform(-5, -1)), extra_galactic_power_law_index=float(rng.uniform(0.5, 4)))
        if k == 0:
            m = g.GalacticCenterBackgroundModel()
            p = dict(galactic_amplitude=0.013, galactic_power_law_index=1.8, galactic_exponential_cutoff=2.0, galactic_exponential_index=2.0,
                     extra_galactic_amplitude=0.004135, extra_galactic_power_law_index=2.8956)
        else:
            m = g.GalacticCenterBackgroundModel(**p)
        e = 10 ** rng.uniform(-1, 1.3, 8)

        def f(q):
            return (q["galactic_amplitude"] * e ** -q["galactic_power_law_index"]
                    * np.exp(-((e / q["galactic_exponential_cutoff"]) ** q["galactic_exponential_index"]))
                    + q["extra_galactic_amplitude"] * e ** -q["extra_galactic_power_law_index"])
        judge(rec, m, p, e, f, "gc", k, g.GalacticCenterBackgroundModel, (0.15, 5.0))
        p = dict(amplitude=float(10 ** rng.uniform(-4, 0)), power_law_index=float(rng.uniform(0.5, 3)))
        m = g.GeccoBackgroundModel(**p)
        if k == 0:
            p = dict(amplitude=8e-3, power_law_index=2.0)
            m = g.GeccoBackgroundModel()
        judge(rec, m, p, e, lambda q: q["amplitude"] * e ** -q["power_law_index"], "gecco", k, g.GeccoBackgroundModel, (0.2, 4e3))


def judge(rec, m, p, e, f, nm, k, cls, bounds):
    rec.close(m.dPhi_dEdOmega(e), f(p), f"{nm}:value", rtol=1e-11, k=k)
    rec.close(m.dPhi_dEdOmega(float(e[0])), f(p)[0], f"{nm}:scalar", rtol=1e-11, k=k)
    rec.ok(m.params == p, f"{nm}:params", k=k, params=m.params)
    rec.ok(tuple(m.e_bounds) == bounds and tuple(m.energy_bounds) == bounds, f"{nm}:bounds", k=k)
    rec.ok(cls(**m.params).params == m.params, f"{nm}:roundtrip", k=k)
    for a, v in p.items():
        rec.ok(getattr(m, a) == v, f"{nm}:attr", k=k, a=a)
    d = m.derivatives(e)
    rec.ok(set(d) == set(p), f"{nm}:derivative-names", k=k)
    for a in p:
        h = 1e-3 * p[a]
        def df(s):
            return (f({**p, a: p[a] + s * h}) - f({**p, a: p[a] - s * h})) / (2 * s * h)
        want = (4 * df(1) - df(2)) / 3
        rec.close(d[a], want, f"{nm}:derivative", rtol=1e-6, atol=1e-10 * np.max(f(p)) / abs(p[a]), k=k, a=a)


def marginal(rec, _):
    from hazma.spectra.convolve import make_marginal_fn, marginalize
    from scipy.integrate import simpson
    rng = rec.rng
    for k in range(rec.n(60, 600)):
        n = int(rng.integers(3, 40))
        cm = np.sort(10 ** rng.uniform(0, 3, n))
        pr = rng.random(n)
        es = 10 ** rng.uniform(-1, 3, int(rng.integers(1, 12)))
        a, b = float(rng.random()), float(rng.uniform(0.5, 2))
        args = [(), (a,), (a, b)][k % 3]

        def scal(e, c, *ar):
            q = (ar[0] if ar else 0.3) * (ar[1] if len(ar) > 1 else 1.0)
            return q * np.exp(-e / c) if e < c else 0.0

        def vec(e, c, *ar):
            q = (ar[0] if ar else 0.3) * (ar[1] if len(ar) > 1 else 1.0)
            return np.where(e < c, q * np.exp(-np.asarray(e) / c), 0.0)
        for method in ("trapz", "trapezoid", "simpson"):
            M = np.array([[scal(e, c, *args) for e in es] for c in cm]) * pr[:, None]
            w = np.trapezoid(M, cm, axis=0) if method != "simpson" else simpson(M, x=cm, axis=0)
            for vd, fn in ((False, scal), (True, vec)):
                tag = dict(k=k, method=method, vectorized=vd)
                ok, f = rec.guard("marginal:raises", lambda: make_marginal_fn(fn, cm, pr, method=method, vectorized=vd, args=args), **tag)
                if not ok:
                    continue
                ok, v = rec.guard("marginal:raises", lambda: f(es), **tag)
                if ok:
                    rec.close(v, w, "marginal", rtol=1e-10, atol=1e-300, **tag)
                ok, v = rec.guard("marginalize:raises", lambda: marginalize(fn, es, cm, pr, method=method, vectorized=vd, args=args), **tag)
                if ok:
                    rec.close(v, w, "marginalize", rtol=1e-10, atol=1e-300, **tag)
        rec.close(marginalize(vec, es, cm, pr, args=args), np.trapezoid(np.array([[scal(e, c, *args) for e in es] for c in cm]) * pr[:, None], cm, axis=0),
                  "marginalize:defaults", rtol=1e-10, atol=1e-300, k=k)


def tasks(ck):
    return [("response", response, None), ("tables", tables, None), ("published", _recorded.compare, "instruments"), ("flux", flux, None), ("backgrounds", backgrounds, None),
            ("marginal", marginal, None), ("conv-0", conv, 0), ("conv-1", conv, 1), ("conv-fine", conv, "fine")]
