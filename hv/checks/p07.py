"""Aggregation of channels into totals, branching fractions, spectra and lines."""
import numpy as np
from . import _toy

PROPERTY = "P07"
NATIVE = "all"
RULE = ("one judged aggregate (branching-fraction set, weighted spectrum, total, line table, smeared total) per event, on random "
        "toy annihilating/decaying theories with open, closed and line channels and on every shipped model at random parameters; "
        "oracle = direct sums over the theory's own per-channel functions, wrapped to log their calls; non-trivial = non-zero total")


def theory(rec, kind):
    from hazma.parameters import convolved_spectrum_fn
    rng = rec.rng
    ann = kind == "ann"
    for k in range(rec.n(60, 600)):
        mx = float(10 ** rng.uniform(0, 3.5))
        cs = _toy.chans(rng, mx, ann)
        if k % 17 == 0:
            for c in cs:
                c.thr = 1e9
        m = (_toy.make_ann if ann else _toy.make_dec)(mx, cs)
        scale = 1.0
        for step in range(3):
            m.scale = scale
            e_cm = mx * float(2 + 10 ** rng.uniform(-6, -0.5)) if ann else mx
            a = (e_cm,) if ann else ()
            sig = {c.name: scale * c.sigma(e_cm) for c in cs}
            tot = sum(sig.values())
            if ann:
                got, bf = m.annihilation_cross_sections(e_cm), m.annihilation_branching_fractions(e_cm)
            else:
                got, bf = m.decay_widths(), m.decay_branching_fractions()
            tag = dict(kind=kind, mx=mx, k=k, step=step)
            rec.ok(set(got) == set(sig) | {"total"} and set(bf) == set(sig), "keys", **tag)
            rec.close([got[c] for c in sig], list(sig.values()), "rates", rtol=1e-14, **tag)
            rec.close(got["total"], tot, "total-rate", rtol=1e-13, **tag)
            want_bf = {c: (s / tot if tot else 0.0) for c, s in sig.items()}
            rec.close([bf[c] for c in sig], list(want_bf.values()), "branching-fractions", rtol=1e-13, **tag)
            rec.close(sum(bf.values()), 1.0 if tot else 0.0, "branching-sum", rtol=1e-12, **tag)
            es = np.geomspace(e_cm * 1e-4, e_cm, int(rng.integers(1, 40)))
            for which in ("photon", "positron"):
                before = {c.name: c.calls for c in cs}
                if which == "photon":
                    sp, totf, fac = m.spectra(es, *a), m.total_spectrum, lambda c: 1.0
                else:
                    sp, totf, fac = m.positron_spectra(es, *a), m.total_positron_spectrum, lambda c: c.pos
                rec.ok(set(sp) == set(sig) | {"total"}, "spectra-keys", which=which, **tag)
                closed_called = [c.name for c in cs if sig[c.name] == 0 and c.calls != before[c.name]]
                rec.ok(not closed_called, "closed-channel-evaluated", channels=closed_called, which=which, **tag)
                acc = np.zeros(len(es))
                for c in cs:
                    w = want_bf[c.name] * fac(c) * c.dnde(es, e_cm / 2)
                    acc = acc + w
                    rec.close(np.asarray(sp[c.name], float), w, "weighted-spectrum", rtol=1e-12, which=which, ch=c.name, **tag)
                rec.close(np.asarray(sp["total"], float), acc, "total-spectrum", rtol=1e-11, which=which, **tag)
                rec.close(np.asarray(totf(es, *a), float), acc, "total-spectrum-fn", rtol=1e-11, which=which, **tag)
                j = int(rng.integers(len(es)))
                for e in (float(es[j]), es[j]):
                    o = np.asarray(totf(e, *a), float)
                    rec.ok(o.size == 1, "scalar-size", which=which, **tag)
                    rec.close(o.ravel()[0], acc[j], "scalar-total", rtol=1e-11, which=which, e=e, **tag)
                s1 = (m.spectra if which == "photon" else m.positron_spectra)(float(es[j]), *a)
                rec.close(np.asarray(s1["total"], float).ravel()[0], acc[j], "scalar-spectra", rtol=1e-11, which=which, **tag)
                rec.ok(np.ndim(s1["total"]) == 0 or np.size(s1["total"]) == 1, "scalar-shape", which=which, **tag)
                ei = int(max(1, es[j]))
                oi = (m.spectra if which == "photon" else m.positron_spectra)(ei, *a)["total"]
                rec.close(float(np.ravel(oi)[0]), sum(want_bf[c.name] * fac(c) * float(c.dnde(ei, e_cm / 2)) for c in cs),
                          "integer-energy", rtol=1e-11, which=which, **tag)
            # wrapped per-channel functions
            for fns, fac in ((m.spectrum_funcs(), lambda c: 1.0), (m.positron_spectrum_funcs(), lambda c: c.pos)):
                for c in cs:
                    w = fac(c) * c.dnde(es, e_cm / 2) if sig[c.name] > 0 else np.zeros(len(es))
                    rec.close(np.asarray(fns[c.name](es, *a), float), w, "channel-function", rtol=1e-13, ch=c.name, **tag)
            gl, pl = m.gamma_ray_lines(*a), m.positron_lines(*a)
            rec.ok(set(gl) == {c.name for c in cs if c.line is not None}, "line-keys", **tag)
            for c in cs:
                if c.line is not None:
                    rec.ok(gl[c.name]["energy"] == c.line, "line-energy", ch=c.name, **tag)
                    rec.close(gl[c.name]["bf"], want_bf[c.name], "line-bf", rtol=1e-13, ch=c.name, **tag)
                if c.name == "e e":
                    rec.close(pl["e e"]["energy"], e_cm / 2, "positron-line-energy", **tag)
                    rec.close(pl["e e"]["bf"], want_bf["e e"], "positron-line-bf", rtol=1e-13, **tag)
            if k % 6 == 0 and step == 0:
                res = lambda e: 0.05 + 0.0 * np.asarray(e)
                lo, hi = e_cm / 300, e_cm
                for which in ("photon", "positron"):
                    n = 60
                    if which == "photon":
                        s = m.total_conv_spectrum_fn(lo, hi, *a, res, n_pts=n)
                        w = convolved_spectrum_fn(lo, hi, res, lambda e: m.total_spectrum(e, *a), gl, n)
                    else:
                        s = m.total_conv_positron_spectrum_fn(lo, hi, *a, res, n_pts=n)
                        w = convolved_spectrum_fn(lo, hi, res, lambda e: m.total_positron_spectrum(e, *a), pl, n)
                    x = np.geomspace(lo * 1.001, hi * 0.999, 31)
                    rec.close(s(x), w(x), "smeared-total", rtol=1e-12, which=which, **tag)
            scale = float(10 ** rng.uniform(-3, 3))
        rec.count("theories")


def line_masses(which, channel):
    """(mass of the monochromatic particle, mass of what recoils against it) for a two-particle channel name."""
    from hazma import parameters as P
    mass = {"e": P.electron_mass, "mu": P.muon_mass, "tau": P.tau_mass, "pi": P.charged_pion_mass, "pi0": P.neutral_pion_mass, "k": P.charged_kaon_mass,
            "eta": P.eta_mass, "g": 0.0, "a": 0.0, "gamma": 0.0, "photon": 0.0, "ve": 0.0, "vm": 0.0, "vt": 0.0}
    names = channel.split()
    assert len(names) == 2, channel
    mine = [i for i, n in enumerate(names) if n in (("g", "a", "gamma", "photon") if which == "photon" else ("e",))]
    return mass[names[mine[0]]], mass[names[1 - mine[0]]]


def models(rec, name):
    from . import _models
    rng = rec.rng
    _models.pin_mc()
    for k in range(rec.n(6, 60)):
        m, info = _models.build(name, rng)
        dec = m.kind == "dec"
        if not dec:
            # the GeV models' cross sections are unseeded Monte Carlo: pin one value per (channel, energy)
            orig, memo = m.annihilation_cross_section_funcs, {}

            def pinned(orig=orig, memo=memo):
                def mk(c, f):
                    def g(e):
                        if (c, e) not in memo:
                            memo[c, e] = f(e)
                        return memo[c, e]
                    return g
                return {c: mk(c, f) for c, f in orig().items()}
            m.annihilation_cross_section_funcs = pinned
        mx = m.mx
        e_cm = mx if dec else 2 * mx * float(1 + 10 ** rng.uniform(-8, -0.3))
        a = () if dec else (e_cm,)
        tag = dict(model=name, k=k, mx=mx)
        if dec:
            rates, bfs, states = m.decay_widths(), m.decay_branching_fractions(), m.list_decay_final_states()
            fns = {c: (lambda v=v: v) for c, v in m._decay_widths().items()}
        else:
            rates, bfs = m.annihilation_cross_sections(e_cm), m.annihilation_branching_fractions(e_cm)
            states = m.list_annihilation_final_states()
            fns = {c: (lambda f=f: f(e_cm)) for c, f in m.annihilation_cross_section_funcs().items()}
        chans = [c for c in rates if c != "total"]
        v = np.array([float(rates[c]) for c in chans])
        rec.ok(np.all(np.isfinite(v)) and np.all(v >= 0), "model:rates-finite-nonnegative", rates=rates, **tag)
        rec.close(float(rates["total"]), v.sum(), "model:total", rtol=1e-12, **tag)
        rec.ok(set(chans) == set(fns), "model:channels", **tag)
        rec.ok(set(states) <= set(chans) and all(c in states for c, r in zip(chans, v) if r > 0), "model:listed-states", states=sorted(states), chans=sorted(chans), **tag)
        rec.close(v, [float(fns[c]()) for c in chans], "model:per-channel", rtol=1e-12, **tag)
        rec.close(sum(bfs.values()), 1.0 if v.sum() else 0.0, "model:branching-sum", rtol=1e-10, **tag)
        rec.ok(all(0 <= b <= 1 + 1e-12 for b in bfs.values()), "model:branching-range", **tag)
        for which, lines in (("photon", m.gamma_ray_lines(*a)), ("positron", m.positron_lines(*a))):
            for c, l in lines.items():
                m1, m2 = line_masses(which, c)
                if bfs[c] > 0:
                    rec.close(float(l["energy"]), (e_cm**2 + m1**2 - m2**2) / (2 * e_cm), "model:line-kinematics", rtol=1e-9, ch=c, which=which, **tag)
                rec.ok(c in bfs and abs(float(l["bf"]) - bfs[c]) <= 1e-12, "model:line-bf", ch=c, **tag)
                rec.ok(bfs[c] == 0 or 0 < float(l["energy"]) <= e_cm / 2 * (1 + 1e-12), "model:line-energy", ch=c, e=l["energy"], **tag)
        if name in _models.SLOW and k >= rec.n(1, 4):
            continue
        es = np.geomspace(max(1e-3, 1e-4 * e_cm), 0.49 * e_cm, 4 if name in _models.SLOW else 9)
        for which, sf, ff, tf in (("photon", m.spectra, m.spectrum_funcs, m.total_spectrum),
                                  ("positron", m.positron_spectra, m.positron_spectrum_funcs, m.total_positron_spectrum)):
            s = sf(es, *a)
            f = ff()
            rec.ok(set(s) == set(f) | {"total"}, "model:spectra-keys", which=which, **tag)
            acc = np.zeros(len(es))
            for c in s:
                if c == "total":
                    continue
                acc = acc + s[c]
                w = bfs[c] * np.asarray(f[c](es, *a), float)
                rec.close(np.asarray(s[c], float) + 0 * es, w + 0 * es, "model:weighted-spectrum", rtol=1e-9, which=which, ch=c, **tag)
            rec.close(np.asarray(s["total"], float) + 0 * es, acc, "model:total-spectrum", rtol=1e-11, which=which, **tag)
            rec.close(np.asarray(tf(es, *a), float) + 0 * es, acc, "model:total-spectrum-fn", rtol=1e-9, which=which, **tag)
        if name.endswith("GeV"):
            for fl in ("e", "mu", "tau"):
                s, f = m.neutrino_spectra(es, *a, flavor=fl), m.neutrino_spectrum_funcs(fl)
                rec.ok(set(s) == set(f) | {"total"} == set(bfs) | {"total"}, "model:neutrino-keys", fl=fl, **tag)
                acc = np.zeros(len(es))
                for c in f:
                    w = bfs[c] * np.asarray(f[c](es, *a), float)
                    acc = acc + w
                    rec.close(np.asarray(s[c], float) + 0 * es, w + 0 * es, "model:neutrino-weighted", rtol=1e-9, fl=fl, ch=c, **tag)
                rec.close(np.asarray(s["total"], float) + 0 * es, acc, "model:neutrino-total", rtol=1e-11, fl=fl, **tag)
                ok, t = rec.guard("model:neutrino-total-fn", lambda: np.asarray(m.total_neutrino_spectrum(es, *a, flavor=fl), float), fl=fl, **tag)
                if ok:
                    rec.close(t + 0 * es, acc, "model:neutrino-total-fn", rtol=1e-9, fl=fl, **tag)
                vv = {"e": "ve ve", "mu": "vm vm", "tau": "vt vt"}[fl]
                ln = m.neutrino_lines(*a, flavor=fl)
                rec.ok(set(ln) == {vv} and ln[vv]["energy"] == e_cm / 2 and ln[vv]["bf"] == bfs[vv], "model:neutrino-lines", fl=fl, **tag)
        rec.count("model-points")


def tasks(ck):
    from . import _models
    out = [(f"{k}-{i}", theory, k) for k in ("ann", "dec") for i in range(2)]
    out += [(f"model-{n}", models, n) for n in _models.NAMES]
    return out
