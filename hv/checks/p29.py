"""Single-channel models and the black-hole model."""
import csv
import numpy as np
from . import _recorded

PROPERTY = "P29"
NATIVE = "all"
RULE = ("one observable (cross section, width, fraction, spectrum, line, efficiency, table value) of a single-channel or black-hole model per event, freshly built or after "
        "a random history of attribute changes; oracle = the stated cross section, the channel's own many-body spectrum, two-body kinematics and the shipped tables")

FS = ["e e", "mu mu", "pi pi", "pi0 pi0", "k k", "kl ks", "a a", "photon photon", "pi0 a", "a pi0", "eta photon", "ve ve", "vm vm", "e mu", "pi e", "ve a", "mu pi",
      "eta eta", "rho pi", "omega pi0", "phi a", "etap a", "pi0 ve", "k mu", "e k"]


def masses():
    from hazma.parameters import standard_model_masses as m
    return m


def photons(fs):
    return sum(p in ("a", "photon") for p in fs.split())


def expected(kind, mx, fs, strength, e_cm, xg, xp):
    """Every observable, from the definition of the model."""
    from hazma import spectra as S
    M = masses()
    ms = [M[p] for p in fs.split()]
    cme = e_cm if kind == "ann" else mx
    open_ = cme >= sum(ms) and (kind == "dec" or cme >= 2 * mx)
    out = {"strength": strength if (open_ or kind == "dec") else 0.0, "fraction": 1.0 if (open_ or kind == "dec") else 0.0}
    f = fs.split()
    out["photon"] = np.asarray(S.dnde_photon(xg, cme, f), float) if open_ else np.zeros_like(xg)
    out["positron"] = np.asarray(S.dnde_positron(xp, cme, f), float) if open_ else np.zeros_like(xp)
    lg, lp = {}, {}
    for want, lines in ((("a", "photon"), lg), (("e",), lp)):
        for i, p in enumerate(f):
            if p in want:
                lines[fs] = (cme**2 + ms[i]**2 - ms[1 - i]**2) / (2 * cme)
                break
    out["lines"], out["positron lines"] = lg, lp
    return out, open_


def observe(kind, o, e_cm, xg, xp):
    out = {}
    if kind == "ann":
        cs = o.annihilation_cross_sections(e_cm)
        fn = o.annihilation_cross_section_funcs()
        bf = o.annihilation_branching_fractions(e_cm)
        lst = o.list_annihilation_final_states()
        out["photon"], out["positron"] = o.total_spectrum(xg, e_cm), o.total_positron_spectrum(xp, e_cm)
        out["each"] = o.spectra(xg, e_cm), o.positron_spectra(xp, e_cm)
        gl, pl = o.gamma_ray_lines(e_cm), o.positron_lines(e_cm)
        out["single"] = fn[o.fs](e_cm)
    else:
        cs, bf, lst = o.decay_widths(), o.decay_branching_fractions(), o.list_decay_final_states()
        out["photon"], out["positron"] = o.total_spectrum(xg), o.total_positron_spectrum(xp)
        out["each"] = o.spectra(xg), o.positron_spectra(xp)
        gl, pl = o.gamma_ray_lines(), o.positron_lines()
        out["single"] = cs[o.fs]
    out["strength"], out["total"], out["fraction"] = cs[o.fs], cs["total"], bf[o.fs]
    out["names"] = (set(cs) - {"total"}, set(bf) - {"total"}, set(lst))
    out["lines"], out["positron lines"] = gl, pl
    return out


def judge(rec, kind, o, st, e_cm, xg, xp, tag):
    mx, fs, strength = st
    good, w = rec.guard((tag, "oracle"), lambda: expected(kind, mx, fs, strength, e_cm, xg, xp))
    if not good:
        return
    want, open_ = w
    if kind == "dec" and not open_:             # a width was given for a decay that cannot happen: refused, or no spectrum
        try:
            z = o.total_spectrum(xg), o.total_positron_spectrum(xp)
        except ValueError:
            rec.count("closed decays refused")
        else:
            rec.ok(not any(np.any(v) for v in z), (tag, "spectrum of a closed decay"), state=st)
        return
    good, got = rec.guard((tag, "raises"), lambda: observe(kind, o, e_cm, xg, xp), state=st, e_cm=e_cm)
    if not good:
        return
    d = dict(state=st, e_cm=e_cm)
    for k in ("strength", "fraction"):
        rec.ok(got[k] == want[k], (tag, k), value=got[k], expected=want[k], **d)
    rec.ok(got["single"] == got["strength"] == got["total"], (tag, "one channel is the total"), **d)
    rec.ok(all(s == {fs} for s in got["names"]), (tag, "channel names"), names=[sorted(s) for s in got["names"]], **d)
    rec.ok(o.fs == fs and o.mx == mx and abs(o.fs_mass - sum(masses()[p] for p in fs.split())) < 1e-9, (tag, "attributes"), **d)
    for k, x in (("photon", xg), ("positron", xp)):
        rec.close(np.asarray(got[k]), want[k], (tag, k), rtol=1e-12, atol=1e-300, **d)
    for spec, k in zip(got["each"], ("photon", "positron")):
        rec.ok(set(spec) == {fs, "total"} and np.array_equal(spec[fs], spec["total"]), (tag, "per-channel " + k), **d)
    for k in ("lines", "positron lines"):
        rec.ok(set(got[k]) == set(want[k]), (tag, k, "channels"), value=sorted(got[k]), expected=sorted(want[k]), **d)
        for c in set(got[k]) & set(want[k]):
            rec.close(got[k][c]["energy"], want[k][c], (tag, k, "energy"), rtol=1e-12, **d)
            rec.ok(got[k][c]["bf"] == want["fraction"], (tag, k, "fraction"), value=got[k][c]["bf"], **d)
    rec.seen((tag, st, e_cm), nontrivial=open_)
    rec.count("open" if open_ else "closed")


def draw(rng, kind):
    fs = str(rng.choice(FS))
    thr = sum(masses()[p] for p in fs.split())
    scale = max(thr, 0.3) * (float(1 + 10 ** rng.uniform(-4, 1)) if rng.random() < 0.75 else float(rng.uniform(0.3, 1)))
    mx = float(scale / 2 if kind == "ann" else scale)
    if rng.random() < 0.15:                     # within a hair of the threshold, on either side
        mx = float(thr * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -2))) / (2 if kind == "ann" else 1)
        mx = max(mx, 0.05)
    return mx, fs, float(10 ** rng.uniform(-28, -2))


def grids(rng, kind, mx):
    e = mx if kind == "ann" else mx / 2
    return np.sort(rng.uniform(1e-3, 1.3, 7)) * e, np.sort(rng.uniform(1e-3, 1.3, 7)) * e


def make(kind, st):
    from hazma.single_channel import SingleChannelAnn, SingleChannelDec
    return (SingleChannelAnn if kind == "ann" else SingleChannelDec)(*st)


def models(rec, kind):
    rng = rec.rng
    for _ in range(rec.n(70, 900)):
        st = draw(rng, kind)
        o = make(kind, st)
        e_cm = 2 * st[0] * (1 + float(10 ** rng.uniform(-8, -0.3))) if rng.random() < 0.8 else 2 * st[0] * float(rng.uniform(0.5, 1))
        judge(rec, kind, o, st, e_cm, *grids(rng, kind, st[0]), kind)
        if kind == "ann" and o.fs_mass > 1:     # light annihilating particles, energies straddling the final state's threshold
            light = (0.4 * o.fs_mass, st[1], st[2])
            lo = make(kind, light)
            for s in (-1, 1):
                judge(rec, kind, lo, light, float(o.fs_mass * (1 + s * 10 ** rng.uniform(-9, -1.5))), *grids(rng, kind, light[0]), "ann near threshold")
        # a history of changes leaves no trace
        for step in range(int(rng.integers(1, 5))):
            new = list(draw(rng, kind))
            for i, (attr, val) in enumerate(zip(("mx", "fs", "sigma" if kind == "ann" else "width"), new)):
                if rng.random() < 0.6:
                    setattr(o, attr, val)
                    st = st[:i] + (val,) + st[i + 1:]
                    if rng.random() < 0.3:
                        (o.annihilation_cross_sections(2 * o.mx + 1) if kind == "ann" else o.decay_widths())
                    rec.count("attribute changes")
            e_cm = 2 * st[0] * (1 + float(10 ** rng.uniform(-8, -0.3)))
            judge(rec, kind, o, st, e_cm, *grids(rng, kind, st[0]), kind + " after changes")


def monochromatic(rec, _):
    """Two photons per annihilation are two photons for the detector and the CMB, whatever the photon is called."""
    from hazma.single_channel import SingleChannelAnn, SingleChannelDec
    from hazma.cmb import f_eff_g as fg, f_eff_ep as fe, vx_cmb
    from hazma.limits import CMBLimit
    rng = rec.rng
    res = lambda e: 0.05
    for _ in range(rec.n(12, 150)):
        mx = float(10 ** rng.uniform(1.2, 3.4))
        fs = str(rng.choice(["a a", "photon photon", "a photon", "pi0 a", "a eta", "ve a"]))
        m = [masses()[p] for p in fs.split()]
        if sum(m) > 1.8 * mx:
            continue
        n = photons(fs)
        o = SingleChannelAnn(mx, fs, 1e-20)
        e_cm = 2 * mx * (1 + 1e-6)
        i = [k for k, p in enumerate(fs.split()) if p in ("a", "photon")][0]
        e = (e_cm**2 + m[i]**2 - m[1 - i]**2) / (2 * e_cm)
        lo, hi = e * 0.6, e * 1.5
        x = np.geomspace(lo, hi, 4001)
        from scipy.integrate import trapezoid, quad
        f = o.total_conv_spectrum_fn(lo, hi, e_cm, res, 1500)
        d = SingleChannelDec(e_cm, fs, 1e-20).total_conv_spectrum_fn(lo, hi, res, 1500)
        cont = o.total_spectrum(x, e_cm) if n == 1 else 0 * x
        lim = 0.012 * n + 0.02 * float(trapezoid(cont, x)) + 0.05 * float(np.max(cont)) * e * 0.2
        inside = float(trapezoid(cont, x))
        for nm, g in (("annihilation", f), ("decay", d)):
            k = float(trapezoid(g(x), x))
            rec.ok(abs(k - n - inside) <= lim, ("photons in the line", nm, n), value=k, expected=n + inside, fs=fs, mx=mx)
        if n == 2 and e < 5e3:
            for xk in (1e-6, 1e-4):
                cm = 2 * mx * (1 + 0.5 * vx_cmb(mx, xk)**2)
                want = float(fg(cm / 2))
                rec.close(float(o.f_eff_g(xk)), want, "two-photon efficiency", rtol=1e-6, fs=fs, mx=mx)
                rec.close(float(o.f_eff(xk)), want, "two-photon efficiency, total", rtol=1e-6, fs=fs, mx=mx)
                rec.close(float(CMBLimit(x_kd=xk).f_eff(o)) if hasattr(CMBLimit(x_kd=xk), "f_eff") else want, want, "two-photon efficiency, CMBLimit", rtol=1e-6, fs=fs, mx=mx)
        o.fs = "e e"
        if 0.6 < mx < 3e3:
            cm = 2 * mx * (1 + 0.5 * vx_cmb(mx, 1e-4)**2)
            rec.close(float(o.f_eff_ep(1e-4)), float(fe(cm / 2)), "e e efficiency", rtol=1e-6, mx=mx)
        rec.seen((fs, mx))


def table(kind, bh):
    name = {"primary": "pbh_primary_spectra_bh.csv", "secondary": "pbh_secondary_spectra_bh.csv" if bh else "pbh_secondary_spectra.csv"}[kind]
    from .. import build
    with open(build.REPO / "hazma/pbh_data" / name) as f:
        rows = list(csv.reader(f))
    num = lambda s: float(s) if s.count("e") < 2 else float("nan")
    m = []
    for s in rows[0][2:]:
        try:
            m.append(float(s))
        except ValueError:
            a, b = s.split("e")
            m.append(float(a) * 10 ** float(b))
    d = np.array([[num(v) for v in r[1:]] for r in rows[1:]])
    return np.array(m), d[:, 0] * 1e3, d[:, 1:] / 1e3


def blackholes(rec, _):
    from hazma.pbh import PBH
    from hazma.parameters import g_to_MeV, MeV_to_g
    rng = rec.rng
    g2 = 5.609588603e26                        # MeV per gram
    rec.close(g_to_MeV, g2, "gram", rtol=1e-6)
    rec.close(g_to_MeV * MeV_to_g, 1.0, "gram round trip", rtol=1e-9)
    for kind, bh in (("primary", False), ("secondary", False), ("secondary", True), ("primary", True)):
        m, e, rate = table(kind, bh)
        pick = rng.permutation(len(m))[:rec.n(8, len(m))]
        o = None
        for i in pick:
            mx = m[i] * g_to_MeV
            f = float(10 ** rng.uniform(-10, 0))
            if o is None or rng.random() < 0.5:
                good, o = rec.guard("pbh:build", lambda: PBH(mx, f_pbh_dummy=f, spectrum_kind=kind, bh_secondary=bh), mass=m[i])
                if not good:
                    o = None
                    continue
            else:
                o.mx = mx                       # the mass of an existing object
                o.f_pbh_dummy = f
                rec.count("mass changes")
            rec.ok(o.mx == mx and o.spectrum_kind == kind and o.bh_secondary == bh, "pbh:attributes")
            x = np.sort(np.concatenate([e[rng.integers(0, len(e), 5)], np.exp(rng.uniform(np.log(e[0]), np.log(e[-1]), 10))]))
            want = np.interp(x, e, rate[:, i])
            rec.close(o.total_spectrum(x), want, "pbh:spectrum", rtol=1e-9, atol=1e-12 * np.max(rate[:, i]), kind=kind, mass=m[i])
            rec.close(o.spectra(x)["all"], want, "pbh:channel", rtol=1e-9, atol=1e-12 * np.max(rate[:, i]))
            rec.ok(not np.any(o.total_spectrum(np.array([e[0] * 0.99, e[-1] * 1.01, 0.0]))), "pbh:outside the table")
            rec.close(float(o.total_spectrum(float(x[3]))[0]), want[3], "pbh:scalar energy", rtol=1e-9)
            w = o.decay_widths()
            rec.ok(w == {"all": f, "total": f}, "pbh:width is the dummy fraction", widths=w)
            rec.ok(o.decay_branching_fractions()["all"] == 1.0, "pbh:fraction")
            rec.ok(o.gamma_ray_lines() == {}, "pbh:lines")
            rec.ok(o.list_decay_final_states() == ["all"], "pbh:final states", value=repr(o.list_decay_final_states()))
            rec.seen((kind, bh, int(i)))
            if kind == "primary":               # geometric optics well above the temperature
                gm = m[i] * 1e-3 * 6.674e-11 / 2.99792458e8**2        # metres
                hc = 197.3269804e-15                                   # MeV m
                T = hc / (8 * np.pi * gm)
                s = (e > 5 * T) & (e < 9 * T)
                if np.any(s):
                    geo = 2 / (2 * np.pi * 6.582119569e-22) * 27 * (gm * e[s] / hc)**2 / np.expm1(e[s] / T)
                    r = np.median(rate[s, i] / geo)
                    rec.ok(0.8 < r < 1.25, "pbh:geometric optics", ratio=r, mass=m[i])
        for bad in (1e15 * g_to_MeV * 1.01, 1.0, -1.0, float("nan")):
            rec.raises(lambda: PBH(bad, spectrum_kind=kind, bh_secondary=bh), Exception, "pbh:mass without a table")
        if o is not None:
            rec.raises(lambda: setattr(o, "spectrum_kind", "primary"), RuntimeError, "pbh:kind is fixed")
            rec.raises(lambda: setattr(o, "bh_secondary", True), RuntimeError, "pbh:secondary is fixed")
    rec.raises(lambda: PBH(1e15 * g_to_MeV, spectrum_kind="tertiary"), ValueError, "pbh:unknown kind")


def fluxlimits(rec, _):
    """The bound on the black-hole fraction: inverse in the emitted rate, from the binned data."""
    from hazma.pbh import PBH
    from hazma.parameters import g_to_MeV
    from hazma.gamma_ray_parameters import egret_diffuse, comptel_diffuse
    rng = rec.rng
    m, e, rate = table("secondary", False)
    for i in rng.permutation(len(m))[:rec.n(4, 20)]:
        a, b = PBH(m[i] * g_to_MeV), PBH(m[i] * g_to_MeV, f_pbh_dummy=0.1)
        for data in (egret_diffuse, comptel_diffuse):
            good, r = rec.guard("pbh:limit", lambda: (a.binned_limit(data), b.binned_limit(data)))
            if good:
                rec.close(r[0], r[1], "pbh:limit does not depend on the dummy", rtol=1e-9, mass=m[i])
                rec.seen(("limit", int(i), data.__hash__()), nontrivial=np.isfinite(r[0]) and r[0] > 0)


def tasks(ck):
    return [("ann", models, "ann"), ("dec", models, "dec"), ("ann-2", models, "ann"), ("dec-2", models, "dec"), ("monochromatic", monochromatic, None),
            ("blackholes", blackholes, None), ("published", _recorded.compare, "black holes"), ("fluxlimits", fluxlimits, None)]
