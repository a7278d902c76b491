"""CMB energy-injection efficiencies and limits."""
import numpy as np
from . import _recorded
from . import _toy

PROPERTY = "P09"
NATIVE = "all"
RULE = ("one judged efficiency, velocity or limit per event, for random toy theories (closed-form continuum and lines) and shipped models, "
        "through both interfaces (Theory.cmb_limit and limits.CMBLimit) and both integration modes; oracle = direct log-grid quadrature "
        "of E dN/dE f_eff over the published tables; non-trivial = open channels")


def tables():
    out = {}
    for k in ("g", "ep"):
        d = np.loadtxt(f"/repo/hazma/cmb_data/f_eff_{k}.dat", delimiter=",")
        out[k] = (d[:, 0] / 1e6, d[:, 1])
    return out


def integ(f, a, b, knots):
    """Composite Gauss-Legendre in log E between table knots."""
    from numpy.polynomial.legendre import leggauss
    t, w = leggauss(24)
    ed = np.unique(np.concatenate([np.geomspace(a, b, 60), [k for k in knots if a < k < b]]))
    l0, l1 = np.log(ed[:-1]), np.log(ed[1:])
    x = np.exp(0.5 * (l0 + l1)[:, None] + 0.5 * (l1 - l0)[:, None] * t)
    return float(np.sum(0.5 * (l1 - l0)[:, None] * w * x * f(x.ravel()).reshape(x.shape)))


def oracle(e_cm, T, spec_g, spec_p, lines_g, lines_p):
    r = {}
    for k, f, ln, own in (("g", spec_g, lines_g, "g g"), ("ep", spec_p, lines_p, "e e")):
        xs, ys = T[k]
        mult = 1.0 if k == "g" else 2.0
        v = integ(lambda e: e * mult * f(e) * np.interp(e, xs, ys), xs[0], e_cm / 2, xs) / e_cm
        for ch, l in ln.items():
            if l["energy"] > xs[0]:
                v += l["energy"] * l["bf"] * np.interp(l["energy"], xs, ys) * (2.0 if ch == own else 1.0) / e_cm
        r[k] = v
    return r


def toy(rec, _):
    import hazma.cmb as hc
    from hazma.limits import CMBLimit
    import hazma.limits._cmb as lc
    rng = rec.rng
    T = tables()
    for mod in (hc, lc):
        for k in ("g", "ep"):
            f = getattr(mod, f"f_eff_{k}")
            xs, ys = T[k]
            rec.close(np.array(f.x), xs, "table-x", rtol=1e-12, mod=mod.__name__, k=k)
            q = np.exp(rng.uniform(np.log(xs[0]), np.log(xs[-1]), 200))
            rec.close(f(q), np.interp(q, xs, ys), "table-interp", rtol=1e-10, mod=mod.__name__, k=k)
        rec.close(np.array([mod.p_ann_planck_temp_pol, mod.p_ann_planck_temp_pol_lensing, mod.p_ann_planck_temp_pol_lensing_bao]),
                  np.array([3.5e-31, 3.3e-31, 3.2e-31]), "planck", rtol=1e-12, mod=mod.__name__)
    for i in range(rec.n(40, 300)):
        mx, xk = float(10 ** rng.uniform(-1, 4)), float(10 ** rng.uniform(-8, 0))
        w = 2e-4 * 0.235 / mx * np.sqrt(1e-4 / xk)
        rec.close(hc.vx_cmb(mx, xk), w, "velocity", rtol=1e-10, mx=mx, xk=xk)
        rec.close(CMBLimit.vx_cmb(mx, xk), w, "velocity-limit-class", rtol=1e-10, mx=mx, xk=xk)
    prev = None
    lim_shared = CMBLimit()
    batch, want_batch = [], []
    for k in range(rec.n(30, 300)):
        mx = float(10 ** rng.uniform(0, 3.5))
        cs = _toy.chans(rng, mx, True)
        for c in cs:
            c.k = min(c.k, 1.2)
        if not any(c.thr == 0 for c in cs):
            continue
        m = _toy.make_ann(mx, cs)
        xk = 1e-4 if k % 3 else float(mx**-2 * 10 ** rng.uniform(-11, -7))
        v = 2e-4 * 0.235 / mx * np.sqrt(1e-4 / xk)
        e_cm = 2 * mx * (1 + 0.5 * v * v)
        sig = {c.name: c.sigma(e_cm) for c in cs}
        tot = sum(sig.values())
        bf = {c: s / tot for c, s in sig.items()}
        sg = lambda e: sum(bf[c.name] * c.dnde(e, e_cm / 2) for c in cs)
        sp = lambda e: sum(bf[c.name] * c.pos * c.dnde(e, e_cm / 2) for c in cs)
        lg = {c.name: dict(energy=c.line, bf=bf[c.name]) for c in cs if c.line is not None}
        lp = {c.name: dict(energy=e_cm / 2, bf=bf[c.name]) for c in cs if c.name == "e e"}
        w = oracle(e_cm, T, sg, sp, lg, lp)
        p = 3.5e-31 if k % 2 else float(10 ** rng.uniform(-32, -29))
        tag = dict(k=k, mx=mx, v=v)
        L = CMBLimit(x_kd=xk, p_ann=p)
        rec.close(m.f_eff_g(xk), w["g"], "f_eff_g", rtol=3e-3, **tag)
        rec.close(m.f_eff_ep(xk), w["ep"], "f_eff_ep", rtol=3e-3, **tag)
        rec.close(m.f_eff(xk), w["g"] + w["ep"], "f_eff", rtol=3e-3, **tag)
        rec.close(L.f_eff_g(m), w["g"], "limit:f_eff_g", rtol=3e-3, **tag)
        rec.close(L.f_eff_ep(m), w["ep"], "limit:f_eff_ep", rtol=3e-3, **tag)
        lim = p * mx / (w["g"] + w["ep"]) if w["g"] + w["ep"] else np.inf
        if np.isfinite(lim):
            rec.close(m.cmb_limit(xk, p), lim, "cmb_limit", rtol=3e-3, **tag)
            rec.close(m.cmb_limit(x_kd=xk, p_ann=7 * p), 7 * lim, "cmb_limit:p_ann", rtol=3e-3, **tag)
            rec.close(L.constrain([m])[0], m.cmb_limit(xk, p), "interfaces-agree", rtol=3e-3, **tag)
            if xk == 1e-4 and p == 3.5e-31:
                rec.close(m.cmb_limit(), lim, "cmb_limit:defaults", rtol=3e-3, **tag)
                batch.append(m)
                want_batch.append(lim)
            m.scale = float(10 ** rng.uniform(-3, 3))
            rec.close(m.cmb_limit(xk, p), lim, "rate-independent", rtol=3e-3, **tag)
            m.scale = 1.0
        for fs, key in (("g g", "g"), ("e e", "ep")):
            for mode in ("interp", "quad"):
                rec.close(m._f_eff_helper(fs, xk, mode), w[key], "mode", rtol=2e-2 if mode == "interp" else 3e-3, fs=fs, mode=mode, **tag)
                rec.close(L._f_eff_helper(m, fs, mode), w[key], "limit:mode", rtol=2e-2 if mode == "interp" else 3e-3, fs=fs, mode=mode, **tag)
        rec.count("theories")
    # trace monitor: every spectrum and line request carries the centre-of-mass energy of the CMB velocity
    for k in range(rec.n(40, 400)):
        mx = float(10 ** rng.uniform(0, 3.5))
        cs = _toy.chans(rng, mx, True)
        if not any(c.thr == 0 for c in cs):
            continue
        m = _toy.make_ann(mx, cs)
        v = float(10 ** rng.uniform(-3, -0.5))
        xk = 1e-4 * (2e-4 * 0.235 / mx / v) ** 2
        e_cm = 2 * mx * (1 + 0.5 * v * v)
        seen = []
        for name in ("total_spectrum", "total_positron_spectrum"):
            setattr(m, name, lambda e, q: (seen.append(q), 0.0 * np.asarray(e))[1])
        for name in ("gamma_ray_lines", "positron_lines"):
            setattr(m, name, lambda q: (seen.append(q), {})[1])
        L = CMBLimit(x_kd=xk)
        for who, call in (("theory", lambda mode, fs: m._f_eff_helper(fs, xk, mode)), ("limit", lambda mode, fs: L._f_eff_helper(m, fs, mode))):
            for fs in ("g g", "e e"):
                for mode in ("quad", "interp"):
                    seen.clear()
                    call(mode, fs)
                    rec.ok(len(seen) >= 2 and np.allclose(np.array(seen, float), e_cm, rtol=1e-12), f"trace:e_cm:{who}",
                           fs=fs, mode=mode, mx=mx, v=v, seen=seen[:3], expected=e_cm)
                    rec.count("spectrum requests traced", len(seen))
        for call in (lambda: m.cmb_limit(xk), lambda: m.cmb_limit(x_kd=xk, p_ann=1e-30), lambda: m.f_eff(xk), lambda: m.f_eff_g(xk),
                     lambda: m.f_eff_ep(xk), lambda: L.f_eff(m), lambda: L.f_eff_g(m), lambda: L.f_eff_ep(m), lambda: L.constrain([m])):
            seen.clear()
            try:
                call()
            except ZeroDivisionError:  # these spectra are empty
                pass
            rec.ok(len(seen) >= 2 and np.allclose(np.array(seen, float), e_cm, rtol=1e-12), "trace:e_cm:public", mx=mx, v=v, seen=seen[:3], expected=e_cm)
    got = lim_shared.constrain(batch)
    rec.close(got, np.array(want_batch), "one-limit-many-models", rtol=3e-3, n=len(batch))
    rec.ok(lim_shared.name == "cmb" and lim_shared.x_kd == 1e-4 and lim_shared.p_ann == 3.5e-31, "limit-attributes")


def shipped(rec, name):
    from . import _models
    from hazma.limits import CMBLimit
    rng = rec.rng
    T = tables()
    for k in range(rec.n(3, 16)):
        p = _models.params(name, rng)
        p["mx"] = float(np.exp(rng.uniform(np.log(1.0), np.log(400.0))))
        m = _models.cls(name)(**p)
        mx = m.mx
        v = 2e-4 * 0.235 / mx
        e_cm = 2 * mx * (1 + 0.5 * v * v)
        vis = {c: b for c, b in m.annihilation_branching_fractions(e_cm).items() if c not in ("v v", "s s")}
        if not sum(vis.values()):
            continue
        arr = lambda f: (lambda e: np.nan_to_num(np.asarray(f(e, e_cm), float)) + 0 * e)
        w = oracle(e_cm, T, arr(m.total_spectrum), arr(m.total_positron_spectrum), m.gamma_ray_lines(e_cm), m.positron_lines(e_cm))
        tag = dict(model=name, k=k, mx=mx)
        tot = w["g"] + w["ep"]
        # per-energy efficiencies are at most about one: injected energy never exceeds the available energy
        rec.ok(0 <= tot < 1.3, "model:efficiency-range", eff=tot, **tag)
        if tot == 0:
            continue
        rec.close(m.f_eff(), tot, "model:f_eff", rtol=2e-2, **tag)
        rec.close(m.cmb_limit(), 3.5e-31 * mx / tot, "model:cmb_limit", rtol=2e-2, **tag)
        rec.close(CMBLimit().constrain([m])[0], 3.5e-31 * mx / tot, "model:CMBLimit", rtol=2e-2, **tag)
        rec.count("model-points")


def tasks(ck):
    return [("toy", toy, None), ("published", _recorded.compare, "cmb")] + [(f"model-{n}", shipped, n) for n in
                                   ("ScalarMediator", "HiggsPortal", "HeavyQuark", "VectorMediator", "KineticMixing", "QuarksOnly")]
