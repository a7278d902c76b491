"""Gamma-ray limits: binned (one bin, chi-squared), unbinned and Fisher, for annihilating and decaying theories."""
import numpy as np
from scipy import stats
from . import _toy

PROPERTY = "P08"
NATIVE = "all"
RULE = ("one judged limit or Fisher matrix element per event: random toy theories (closed-form spectra and lines) against random and "
        "shipped measurements, instruments, backgrounds and targets; oracle = the defining formulas evaluated with an independent "
        "piecewise-linear integrator on the smeared spectrum; non-trivial = finite limit")


def lin_int(x, y):
    """Exact integral of the piecewise-linear interpolant between arbitrary points inside [x0, xn]."""
    c = np.concatenate([[0.0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(x))])

    def F(t):
        i = int(np.clip(np.searchsorted(x, t) - 1, 0, len(x) - 2))
        dt = t - x[i]
        s = (y[i + 1] - y[i]) / (x[i + 1] - x[i])
        return c[i] + dt * (y[i] + 0.5 * s * dt)
    return lambda a, b: F(b) - F(a)


def make(rec, kind, mx=None, lines=True):
    rng = rec.rng
    mx = float(10 ** rng.uniform(0, 3.5)) if mx is None else mx
    while True:
        cs = _toy.chans(rng, mx, kind == "ann", lines=lines)
        if any(c.thr == 0 for c in cs):
            break
    m = (_toy.make_ann if kind == "ann" else _toy.make_dec)(mx, cs)
    orig, memo = m.total_conv_spectrum_fn, {}

    def conv(*a, **kw):     # the smearing is the expensive step: one evaluation per distinct request
        key = (a, tuple(sorted(kw.items())))
        if key not in memo:
            memo[key] = orig(*a, **kw)
        return memo[key]
    m.total_conv_spectrum_fn = conv
    m.memo = memo
    return m, mx, cs


def total(cs, e_cm):
    sig = {c.name: c.sigma(e_cm) for c in cs}
    tot = sum(sig.values())
    bf = {c: s / tot for c, s in sig.items()}

    def f(es):
        return sum(bf[c.name] * c.dnde(np.asarray(es, float), e_cm / 2) for c in cs)
    return f, {c.name: dict(energy=c.line, bf=bf[c.name]) for c in cs if c.line is not None}


def smeared(kind, mx, cs, vx, lo, hi, res):
    from hazma.parameters import convolved_spectrum_fn
    e_cm = 2 * mx * (1 + 0.5 * vx**2) if kind == "ann" else mx
    f, lines = total(cs, e_cm)
    s = convolved_spectrum_fn(lo, hi, res, f, lines)
    x = np.geomspace(lo, hi, 1000)
    x[0], x[-1] = lo, hi
    return s, x, np.asarray(s(np.clip(x, lo, hi)), float)


def factor(kind, mx, t):
    return t.dOmega * t.J / (4 * np.pi * 4 * mx**2) if kind == "ann" else t.dOmega * t.D / (4 * np.pi * mx)


def target(rng):
    from hazma.target_params import TargetParams
    return TargetParams(J=float(10 ** rng.uniform(26, 33)), D=float(10 ** rng.uniform(24, 27)), dOmega=float(10 ** rng.uniform(-6, 1)),
                        vx=float(10 ** rng.uniform(-4, -1)))


def measurement(rng, t, res):
    from hazma.flux_measurement import FluxMeasurement
    n = int(rng.integers(1, 12))
    edges = np.geomspace(10 ** rng.uniform(-1, 1.5), 10 ** rng.uniform(2, 4), n + 1)
    lo, hi = edges[:-1].copy(), edges[1:].copy()
    flux = 10 ** rng.uniform(-3, -1, n)
    up = flux * (1 + 10 ** rng.uniform(-2, 0.3, n))
    dn = flux * rng.uniform(0.2, 0.99, n)
    return FluxMeasurement(lo, hi, flux, up, dn, res, t), dict(lo=lo, hi=hi, flux=flux, up=up)


def binned(rec, arg):
    kind, part = arg
    import hazma.gamma_ray_parameters as grp
    from hazma.limits import EgretLimit, ComptelLimit, FermiLimit, IntegralLimit
    rng = rec.rng
    shipped = [("comptel", grp.comptel_diffuse, ComptelLimit), ("egret", grp.egret_diffuse, EgretLimit),
               ("fermi", grp.fermi_diffuse, FermiLimit), ("integral", grp.integral_diffuse, IntegralLimit)]
    targets = dict(comptel=grp.comptel_diffuse_target, egret=grp.egret_diffuse_target, fermi=grp.fermi_diffuse_target,
                   integral=grp.integral_diffuse_target)
    for k in range(rec.n(8, 60)):
        m, mx, cs = make(rec, kind)
        cls = None
        if k % 2:
            t = target(rng)
            r = float(rng.uniform(0.02, 0.3))
            res = (lambda e, r=r: r + 0 * np.asarray(e)) if rng.random() < 0.5 else (lambda e, r=r: r * (np.asarray(e) / 10.0) ** -0.1)
            ms, raw = measurement(rng, t, res)
            eb = 0.5 * (raw["lo"] + raw["hi"])
            phi_o, err = raw["flux"] / eb**2, (raw["up"] - raw["flux"]) / eb**2
            name = "toy"
        else:
            name, ms, cls = shipped[(k // 2 + 2 * part) % 4]
            t, res = ms.target, ms.energy_res
            d = np.loadtxt(f"/repo/hazma/gamma_ray_data/obs/{name}_diffuse.dat", delimiter=",").T
            eb = 0.5 * (d[0] + d[1])
            phi_o, err = d[2] / eb**2, (d[3] - d[2]) / eb**2
            rec.ok(t is targets[name], "measurement-target", name=name)
        dE, lo, hi = ms.e_highs - ms.e_lows, ms.e_lows[0], ms.e_highs[-1]
        s, x, y = smeared(kind, mx, cs, t.vx, lo, hi, res)
        integ = lin_int(x, y)
        phi = np.array([factor(kind, mx, t) * integ(a, b) for a, b in zip(ms.e_lows, ms.e_highs)])
        tag = dict(kind=kind, k=k, mx=mx, name=name)
        for ns in (2.0, float(rng.uniform(0.1, 6))):
            with np.errstate(all="ignore"):
                per = np.where(phi > 0, t.dOmega * dE * (phi_o + ns * err) / phi, np.inf)
            want = float(np.min(per))
            rec.close(m.binned_limit(ms, ns), want, "binned:1bin", rtol=1e-6, ns=ns, **tag)
            rec.close(m.binned_limit(ms, n_sigma=ns, method="1bin"), want, "binned:1bin-kw", rtol=1e-6, ns=ns, **tag)
            # the excess statistic: flux amplified so that it does exceed the data somewhere
            chi = float(np.sum(np.maximum(phi - t.dOmega * dE * phi_o, 0) ** 2 / (t.dOmega * dE * err) ** 2))
            crit = stats.chi2.ppf(stats.norm.cdf(ns), df=len(phi))
            want2 = np.sqrt(crit / chi) if chi > 0 else np.inf
            rec.close(m.binned_limit(ms, ns, method="chi2"), want2, "binned:chi2", rtol=1e-5, ns=ns, **tag)
            if cls is not None:
                for meth, w in (("1bin", want), ("chi2", want2)):
                    L = cls(sigma=ns, method=meth)
                    rec.close(L.constrain([m])[0], w, "limit-class", rtol=1e-5, ns=ns, meth=meth, **tag)
                rec.ok(L.name == name, "limit-class-name", name=L.name, expected=name)
        rec.raises(lambda: m.binned_limit(ms, method="nope"), NotImplementedError, "binned:unknown-method", k=k)
        # physical scaling: limits are inversely proportional to the J/D factor, independent of the total rate
        from hazma.target_params import TargetParams
        a = m.binned_limit(ms)
        m.scale = float(10 ** rng.uniform(-3, 3))
        if name == "toy":
            m.memo.clear()
        rec.close(m.binned_limit(ms), a, "binned:rate-independent", rtol=1e-10, **tag)
        m.scale = 1.0
        lam = float(10 ** rng.uniform(-3, 3))
        old = ms.target
        ms.target = TargetParams(J=t.J * lam, D=t.D * lam, dOmega=t.dOmega, vx=t.vx)
        rec.close(m.binned_limit(ms) * lam, a, "binned:J-scaling", rtol=1e-9, lam=lam, **tag)
        ms.target = old
        if kind == "dec":
            m.kind = "other"
            rec.raises(lambda: m.binned_limit(ms), ValueError, "binned:unknown-kind", k=k)
            m.kind = "dec"
        if k % 5 == 0:       # nothing to see: no limit
            for c in cs:
                c.amp = 0.0
                c.line = None
            m.memo.clear()
            rec.ok(m.binned_limit(ms) == np.inf and m.binned_limit(ms, method="chi2") == np.inf, "binned:no-signal", **tag)
        rec.count("binned-theories")


INSTR = ["adept", "amego", "comptel", "all_sky_astrogam", "e_astrogam", "egret", "fermi", "gecco", "grams", "grams_upgrade", "mast", "pangu"]


def unbinned(rec, arg):
    import hazma.gamma_ray_parameters as grp
    from hazma.background_model import BackgroundModel
    from scipy.interpolate import interp1d
    kind, _ = arg
    rng = rec.rng
    for k in range(rec.n(12, 100)):
        m, mx, cs = make(rec, kind, mx=float(10 ** rng.uniform(0.3, 3)))
        t = target(rng)
        T = float(10 ** rng.uniform(4, 9))
        if k % 2:
            lo, hi = 10 ** rng.uniform(-1, 0.5), 10 ** rng.uniform(2, 4)
            xs = np.geomspace(lo, hi, 15)
            A = interp1d(xs, 10 ** rng.uniform(1, 4, 15), bounds_error=False, fill_value=0.0)
            r = float(rng.uniform(0.05, 0.4))
            res = lambda e, r=r: r + 0 * np.asarray(e)
            nm = "toy"
        else:
            nm = INSTR[int(rng.integers(len(INSTR)))]
            A, res = getattr(grp, f"effective_area_{nm}"), getattr(grp, f"energy_res_{nm}")
            if np.any(res(np.geomspace(0.1 * A.x[0], 10 * A.x[-1], 300)) <= 0):
                continue
        e0, e1 = A.x[[0, -1]]
        c, p = float(10 ** rng.uniform(-4, -1)), float(rng.uniform(1.2, 3))
        bgf = lambda e: c * np.asarray(e, float) ** -p
        bg = BackgroundModel([e0, e1], bgf)
        s, x, y = smeared(kind, mx, cs, t.vx, e0, e1, res)
        kn = s.get_knots()
        yk, Ak = np.asarray(s(kn), float), np.asarray(A(kn), float)
        iS, iB = lin_int(kn, yk * Ak), lin_int(kn, bgf(kn) * Ak)
        ng = int(rng.integers(3, 25))
        grid = np.geomspace(e0, e1, ng)
        grid[0], grid[-1] = e0, e1
        if k % 3 == 0:
            grid = np.unique(np.concatenate([[e0], np.exp(rng.uniform(np.log(e0), np.log(e1), ng)), [e1]]))
        best = 0.0
        for i in range(len(grid)):
            for j in range(i + 1, len(grid)):
                b = iB(grid[i], grid[j])
                if b > 0 and iS(grid[i], grid[j]) / np.sqrt(b) > best:
                    best, window = iS(grid[i], grid[j]) / np.sqrt(b), (grid[i], grid[j])
        ns = float(rng.uniform(0.5, 6)) if k % 4 else 5.0
        if kind == "ann":
            pre = 2 * 2 * mx**2 * 4 * np.pi / (np.sqrt(T * t.dOmega) * t.J)
        else:
            pre = mx * 4 * np.pi / (np.sqrt(T * t.dOmega) * t.D)
        want = pre * ns / best if best > 0 else np.inf
        tag = dict(kind=kind, k=k, mx=mx, instr=nm)
        kw = {} if k % 4 == 0 and ns == 5.0 else dict(n_sigma=ns)
        if k % 3 == 0:
            kw["e_grid"] = grid
        else:
            kw["n_grid"] = ng
        got = m.unbinned_limit(A, res, T, t, bg, **kw)
        # splines lose a little absolute accuracy to cancellation in narrow windows
        rec.close(got, want, "unbinned", rtol=1e-5, **tag)
        if np.isfinite(want):
            rec.close(m.unbinned_limit(A, res, 100 * T, t, bg, **kw), got / 10, "unbinned:sqrt-time", rtol=1e-9, **tag)
            bg4 = BackgroundModel([e0, e1], lambda e: 4 * bgf(e))
            rec.close(m.unbinned_limit(A, res, T, t, bg4, **kw), got * 2, "unbinned:sqrt-background", rtol=1e-7, **tag)
            kw2 = dict(kw, n_sigma=2 * ns)
            rec.close(m.unbinned_limit(A, res, T, t, bg, **kw2), got * 2, "unbinned:n-sigma", rtol=1e-9, **tag)
        if k % 5 == 0 and best > 0:
            # a grid with many more points inside the best window has every window of the coarse one
            mid = np.sqrt(window[0] * window[1])
            gf = np.unique(np.concatenate([mid + (window[1] - mid) * np.linspace(0.1, 0.3, 120), grid]))
            fine = m.unbinned_limit(A, res, T, t, bg, **{**{q: v for q, v in kw.items() if q != "n_grid"}, "e_grid": gf})
            rec.ok(fine <= got * (1 + 1e-6), "unbinned:refined-grid-not-weaker", fine=fine, got=got, **tag)
            rec.ok(fine <= m.unbinned_limit(A, res, T, t, bg, **{**kw, "e_grid": gf[[0, -1]]}) * (1 + 1e-6), "unbinned:whole-range-window", fine=fine, **tag)
        rec.count("unbinned-theories")


def fisher(rec, kind):
    import hazma.gamma_ray_parameters as grp
    from hazma.background_model import ParametricBackgroundModel
    from hazma.theory._theory_gamma_ray_limits import fisher as ffun
    from scipy.interpolate import interp1d
    rng = rec.rng

    class PL(ParametricBackgroundModel):
        def __init__(self, a, p, b):
            self.a, self.p, self.b = a, p, b

        @property
        def params(self):
            return {"amp": self.a, "idx": self.p, "flat": self.b}

        def dPhi_dEdOmega(self, e):
            return self.a * e ** -self.p + self.b

        def derivatives(self, e):
            return {"amp": e ** -self.p, "idx": -self.a * np.log(e) * e ** -self.p, "flat": 1.0 + 0 * e}

    for k in range(rec.n(8, 80)):
        m, mx, cs = make(rec, kind, mx=float(10 ** rng.uniform(0.3, 3)))
        t, T = target(rng), float(10 ** rng.uniform(4, 9))
        vx = float(10 ** rng.uniform(-4, -1))
        which = k % 3
        if which == 0:
            bg = PL(float(10 ** rng.uniform(-4, -1)), float(rng.uniform(1.2, 3)), float(10 ** rng.uniform(-8, -5)))
        elif which == 1:
            bg = grp.GalacticCenterBackgroundModel()
        else:
            bg = grp.GeccoBackgroundModel(float(10 ** rng.uniform(-4, -1)), float(rng.uniform(1.2, 3)))
        e0, e1 = (0.2, 5.0) if which else (float(10 ** rng.uniform(-1, 0.5)), float(10 ** rng.uniform(2, 3.5)))
        xs = np.geomspace(e0, e1, 15)
        xs[0], xs[-1] = e0, e1
        A = interp1d(xs, 10 ** rng.uniform(1, 4, 15), bounds_error=False, fill_value="extrapolate")
        r = float(rng.uniform(0.05, 0.4))
        res = lambda e, r=r: r + 0 * np.asarray(e)
        n = int(rng.integers(15, 60))
        grid = np.geomspace(e0, e1, n)
        grid[0], grid[-1] = e0, e1
        s, x, y = smeared(kind, mx, cs, vx, e0, e1, res)
        pref = t.J / (4 * np.pi * mx**2 * 4) * t.dOmega if kind == "ann" else t.D / (4 * np.pi * mx) * t.dOmega
        d = {"rate": pref * np.asarray(s(grid), float)}
        if not np.any(d["rate"] > 0):
            continue
        # background derivatives by central differences of the flux itself
        base = dict(bg.params)
        keys = ["rate"] + list(base)
        for key in base:
            def shifted(h):
                q = dict(base)
                q[key] = base[key] * (1 + h)
                if which == 0:
                    return PL(q["amp"], q["idx"], q["flat"]).dPhi_dEdOmega(grid)
                if which == 1:
                    return grp.GalacticCenterBackgroundModel(**q).dPhi_dEdOmega(grid)
                return grp.GeccoBackgroundModel(**q).dPhi_dEdOmega(grid)
            h = 1e-3
            f1 = (shifted(h) - shifted(-h)) / (2 * h * base[key])
            f2 = (shifted(2 * h) - shifted(-2 * h)) / (4 * h * base[key])
            d[key] = t.dOmega * (4 * f1 - f2) / 3
        phib = t.dOmega * bg.dPhi_dEdOmega(grid)
        out = ffun(m, A, res, t, bg, T, vx=vx, **(dict(e_grid=grid) if k % 2 else dict(n_grid=n)))
        F = np.asarray(out.fisher_matrix)
        rec.ok(list(out.params) == keys, "fisher:param-order", kind=kind, k=k, params=list(out.params))
        W = np.array([[np.sum(0.5 * np.diff(grid) * (lambda z: z[1:] + z[:-1])(d[a] * d[b] / phib * A(grid) * T)) for a in keys] for b in keys])
        sc = np.sqrt(np.outer(np.diag(W), np.diag(W)))
        tag = dict(kind=kind, k=k, mx=mx, bg=which)
        rec.close(F / sc, W / sc, "fisher:matrix", rtol=1e-6, atol=1e-8, **tag)
        rec.close(F, F.T, "fisher:symmetric", rtol=1e-12, **tag)
        for c, p in base.items():
            rec.ok(out.params[c] == p, "fisher:fiducial", param=c, **tag)
        Fn = F / sc
        if np.linalg.cond(Fn) < 1e9:
            inv = np.linalg.inv(Fn) / sc
            for sg in (1.0, 2.0, 5.0, 9.0, float(rng.uniform(0.2, 6))):
                w = sg * np.sqrt(inv[0, 0])
                rec.close(out.limit(sg), w, "fisher:rate-limit", rtol=1e-5, sg=sg, **tag)
                for i, key in enumerate(keys):
                    rec.close(out.limit(sg, key=key), sg * np.sqrt(inv[i, i]), "fisher:param-limit", rtol=1e-5, sg=sg, par=key, **tag)
                lim = m.fisher_limit(A, res, t, bg, T, vx=vx, sigma_levels=[sg, 2.0], **(dict(e_grid=grid) if k % 2 else dict(n_grid=n)))
                rec.close(np.array(lim), np.array([w, 2.0 * np.sqrt(inv[0, 0])]), "fisher_limit", rtol=1e-5, sg=sg, **tag)
            # marginalising over the background can only weaken the limit
            rec.ok(out.limit(1.0) >= 1 / np.sqrt(F[0, 0]) * (1 - 1e-6), "fisher:marginal-weaker", **tag)
        rec.count("fisher-theories")


def tasks(ck):
    out = []
    n = ck.n(2, 4)
    for kind in ("ann", "dec"):
        out += [(f"binned-{kind}-{i}", binned, (kind, i)) for i in range(n)]
        out += [(f"unbinned-{kind}-0", unbinned, (kind, 0)), (f"fisher-{kind}", fisher, kind)]
    return out
