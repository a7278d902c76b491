"""Parameter-plane constraint images, level sets, limit iteration and rare-meson-decay/beam-dump constraints."""
import numpy as np
from . import _toy, p08

PROPERTY = "P11"
NATIVE = "all"
RULE = ("one judged image pixel set, contour, limit list or constraint value per event: toy theories with analytic constraints and Higgs-portal "
        "scalars on random non-square grids; oracle = constraint evaluated on a freshly built model at that point, and closed-form meson "
        "widths from particle momenta; non-trivial = pixels of both signs or contributing decays")


def toy_model(rng, log):
    from hazma.theory import TheoryAnn

    class Toy(TheoryAnn):
        def __init__(self, a, b, c=1.0):
            self._a, self._b, self.c = a, b, c
            self.kind = "ann"

        a = property(lambda s: s._a, lambda s, v: (log.append(("a", v)), setattr(s, "_a", v))[0])
        b = property(lambda s: s._b, lambda s, v: (log.append(("b", v)), setattr(s, "_b", v))[0])

        def f(self):
            return self._a**2 - 3 * self._b + self.c

        def g(self):
            return np.sin(self._a) * self._b - 0.1 * self.c

        def constraints(self):
            return {"f": self.f, "g": self.g}

        list_annihilation_final_states = annihilation_cross_section_funcs = partial_widths = lambda self: None
        _spectrum_funcs = _gamma_ray_line_energies = _positron_spectrum_funcs = _positron_line_energies = lambda self, *a: None
    return Toy


def grids(rec, _):
    rng = rec.rng
    for k in range(rec.n(60, 600)):
        log = []
        Toy = toy_model(rng, log)
        a0, b0, c0 = rng.uniform(-2, 2, 3)
        m = Toy(a0, b0, c0)
        na, nb = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        av, bv, cv = np.sort(rng.uniform(-3, 3, na)), np.sort(rng.uniform(-3, 3, nb)), np.sort(rng.uniform(-3, 3, nb))
        combos = [("a", av, "b", bv), ("b", bv, "a", av), ("a", av, "c", cv), ("c", cv, "b", bv)]
        p1, v1, p2, v2 = combos[k % 4]
        if k % 3 == 1:
            v1 = rng.permutation(v1)
        if k % 3 == 2:
            v1, v2 = v1[::-1], rng.permutation(v2)
        start = dict(a=m.a, b=m.b, c=m.c)
        kw = {} if k % 2 else dict(ls_or_img="image")
        img = m.constrain(p1, v1, p2, v2, **kw)
        rec.ok(set(img) == {"f", "g"}, "names", k=k)
        for nm in ("f", "g"):
            want = np.array([[getattr(Toy(**{**start, p1: x, p2: y}), nm)() for x in v1] for y in v2])
            rec.close(img[nm], want, "image", rtol=1e-13, atol=1e-13, k=k, nm=nm, p1=p1, p2=p2, shape=want.shape)
        other = ({"a", "b", "c"} - {p1, p2}).pop()
        rec.ok(getattr(m, other) == start[other], "other-parameter-untouched", k=k)
        rec.raises(lambda: m.constrain(p1, v1, p1, v1), ValueError, "same-parameter", p=p1)
        rec.raises(lambda: m.constrain(p1, v1, p2, v2, ls_or_img="ls"), NotImplementedError, "ls", k=k)
        # explicit grids of models
        gr = np.array([[Toy(x, y, rng.uniform(-2, 2)) for x in av] for y in bv], dtype=object).reshape(nb, na)
        got = Toy(a0, b0, c0).custom_constrain(gr)
        for nm in ("f", "g"):
            rec.close(got[nm], np.array([[getattr(q, nm)() for q in row] for row in gr]), "custom-grid", rtol=1e-13, atol=1e-13, k=k, nm=nm, shape=gr.shape)
        rec.ok(all(gr[i, j].a == av[j] and gr[i, j].b == bv[i] for i in range(nb) for j in range(na)), "custom-grid:models-untouched", k=k)
        # level sets: vertices lie on the zero of the bilinear image and inside the plane
        if na > 1 and nb > 1:
            la, lb = np.linspace(av[0], av[-1] + 1, na), np.linspace(bv[0], bv[-1] + 1, nb)
            c1, c2, c3 = rng.uniform(-1, 1, 3)
            fn = lambda x, y: c1 * (x - la.mean()) + c2 * (y - lb.mean()) + 0.05 * c3
            im = np.array([[fn(x, y) for x in la] for y in lb])
            cs = m._img_to_ls(la, lb, im)
            if (im > 0).any() and (im < 0).any():
                rec.ok(len(cs) >= 1, "contour:found", k=k)
            for c in cs:
                rec.close(fn(c[0], c[1]), np.zeros(c.shape[1]), "contour:on-level-set", atol=1e-9, k=k)
                rec.ok(np.all((c[0] >= la[0] - 1e-9) & (c[0] <= la[-1] + 1e-9) & (c[1] >= lb[0] - 1e-9) & (c[1] <= lb[-1] + 1e-9)), "contour:inside", k=k)
                on = lambda v, e: np.any(np.abs(v - e) < 1e-9)
                ends = [c[:, 0], c[:, -1]]
                rec.ok(all(min(abs(p[0] - la[0]), abs(p[0] - la[-1]), abs(p[1] - lb[0]), abs(p[1] - lb[-1])) < 1e-9 for p in ends),
                       "contour:reaches-border", k=k)
        rec.count("pixels", 4 * na * nb)


def iteration(rec, _):
    from hazma.limits._abstract import AbstractLimit, CompositeConstrainer
    from hazma.limits import EgretLimit, ComptelLimit, FermiLimit, IntegralLimit
    import hazma.gamma_ray_parameters as grp
    rng = rec.rng

    def lim(name, fac):
        class L(AbstractLimit):
            description = property(lambda s: name)
            name = property(lambda s: s._n)

            def __init__(self):
                super().__init__()
                self._n = nm

            def _constrain(self, model):
                self.seen.append(model)
                return fac * model
        nm = name
        o = L()
        o.seen = []
        return o

    class Comp(CompositeConstrainer):
        description = property(lambda s: "c")
    for k in range(rec.n(40, 400)):
        ms = [float(x) for x in rng.normal(size=int(rng.integers(0, 9)))]
        fs = rng.normal(size=int(rng.integers(1, 5)))
        ls = [lim(f"l{i}", f) for i, f in enumerate(fs)]
        for l, f in zip(ls, fs):
            rec.close(l.constrain(ms), f * np.array(ms), "limit:per-model", rtol=1e-14, k=k)
            rec.ok(l.seen == ms, "limit:each-model-once-in-order", k=k)
        c1, c2 = Comp(), Comp()
        for l in ls:
            c1.add_constrainer(l)
        rec.ok(len(c1) == len(ls) and len(c2) == 0, "composite:independent", k=k)
        out = c1._constrain(ms)
        rec.ok(list(out) == [l.name for l in ls], "composite:names", k=k)
        for i, f in enumerate(fs):
            rec.close(out[f"l{i}"], f * np.array(ms), "composite:values", rtol=1e-14, k=k)
        src = list(ls)
        c3 = Comp(src)
        c3.add_constrainer(ls[0])
        rec.ok(len(src) == len(ls) and len(c3) == len(ls) + 1, "composite:own-list", k=k)
        c3.reset_constrainers()
        rec.ok(len(c3) == 0 and c3._constrain(ms) == {} and len(c1) == len(ls), "composite:reset", k=k)

    class Fake:
        def __init__(self, r):
            self.r, self.calls = r, []

        def binned_limit(self, *a):
            self.calls.append(a)
            return self.r
    for cls, name, ms in ((ComptelLimit, "comptel", grp.comptel_diffuse), (EgretLimit, "egret", grp.egret_diffuse),
                          (FermiLimit, "fermi", grp.fermi_diffuse), (IntegralLimit, "integral", grp.integral_diffuse)):
        for args in ((), (3.0,), (1.5, "1bin")):
            l = cls(*args)
            fs = [Fake(float(x)) for x in rng.random(4)]
            rec.close(l.constrain(fs), np.array([f.r for f in fs]), "telescope", name=name, args=args)
            w = (ms, args[0] if args else 2.0, args[1] if len(args) > 1 else "chi2")
            rec.ok(all(len(f.calls) == 1 and f.calls[0][0] is ms and f.calls[0][1:] == w[1:] for f in fs), "telescope:arguments", name=name, args=args)
            rec.ok(l.name == name, "telescope:name", name=name)


def binned(rec, _):
    rng = rec.rng
    for k in range(rec.n(10, 80)):
        m, mx, cs = p08.make(rec, "ann")
        m.kind = "ann"
        t = p08.target(rng)
        r = float(rng.uniform(0.02, 0.3))
        ms, raw = p08.measurement(rng, t, lambda e, r=r: r + 0 * np.asarray(e))
        lo, hi = ms.e_lows[0], ms.e_highs[-1]
        s, x, y = p08.smeared("ann", mx, cs, t.vx, lo, hi, ms.energy_res)
        integ = p08.lin_int(x, y)
        e_cm = 2 * mx * (1 + 0.5 * t.vx**2)
        # cross sections are in MeV^-2, fluxes and <sigma v> in cm and s: 1 MeV^-2 = (hbar c)^2
        sv = sum(c.sigma(e_cm) for c in cs) * t.vx * (197.3269804e-13) ** 2 * 2.99792458e10
        phi1 = np.array([integ(a, b) for a, b in zip(ms.e_lows, ms.e_highs)]) * t.J * t.dOmega / (16 * np.pi * mx**2) * sv
        eb = 0.5 * (raw["lo"] + raw["hi"])
        obs, err = raw["flux"] / eb**2, (raw["up"] - raw["flux"]) / eb**2
        own = np.array([s.integral(a, b) for a, b in zip(ms.e_lows, ms.e_highs)])
        if np.any((phi1 != 0) & (np.abs(phi1) < 1e-9 * np.max(phi1))) or np.any((own > 0) != (phi1 > 0)):
            rec.count("skipped:flux-at-rounding-level")
            continue
        # rates around the one whose flux saturates the measurement
        sat = float(np.min(np.where(phi1 > 0, t.dOmega * (raw["hi"] - raw["lo"]) * (2 * err + obs) / np.where(phi1 > 0, phi1, 1), np.inf)))
        scales = np.sort(10 ** rng.uniform(-4, 4, int(rng.integers(1, 5)))) * (sat if np.isfinite(sat) else 1.0)
        dummy = np.sort(rng.random(int(rng.integers(1, 4))))
        for ns in (2, float(rng.uniform(0, 5))):
            mxv = t.dOmega * (raw["hi"] - raw["lo"]) * (ns * err + obs)
            with np.errstate(all="ignore"):
                w1 = np.array([np.min(np.where(c * phi1 > 0, mxv - c * phi1, np.inf)) for c in scales])
            kw = {} if ns == 2 else dict(n_sigma=ns)
            img = m.constrain_binned_gamma("scale", scales, "dummy", dummy, ms, **kw)
            rec.close(img, np.tile(w1, (len(dummy), 1)), "binned-image", rtol=1e-6, atol=1e-6 * np.max(mxv), k=k, ns=ns, mx=mx)
            img = m.constrain_binned_gamma("dummy", dummy, "scale", scales, ms, **kw)
            rec.close(img, np.tile(w1[:, None], (1, len(dummy))), "binned-image-T", rtol=1e-6, atol=1e-6 * np.max(mxv), k=k, ns=ns, mx=mx)
        # the sign flips exactly where the single-bin limit on <sigma v> is saturated
        m.scale = 1.0
        lim = m.binned_limit(ms, 2.0, "1bin")
        if np.isfinite(lim) and lim > 0:
            for f in (0.99, 1.01):
                v = m.constrain_binned_gamma("scale", np.array([f * lim / sv]), "dummy", dummy[:1], ms)[0, 0]
                rec.ok((v > 0) == (f < 1), "binned-sign-vs-limit", k=k, f=f, lim=lim)
        rec.raises(lambda: m.constrain_binned_gamma("scale", scales, "dummy", dummy, ms, method="chi2"), NotImplementedError, "method", k=k)


def portal(rec, part):
    """Rare meson decays, invisible Higgs width and CHARM for the Higgs-portal scalar."""
    import hazma.parameters as P
    import hazma.constraint_parameters as C
    from hazma.scalar_mediator import HiggsPortal, ScalarMediator
    rng = rec.rng
    mB, mk, mpi, mkl, mpi0 = P.charged_B_mass, P.charged_kaon_mass, P.charged_pion_mass, P.long_kaon_mass, P.neutral_pion_mass
    mb, ms_, md, mt, vh, GF = P.bottom_quark_mass, P.strange_quark_mass, P.down_quark_mass, P.top_quark_mass, P.vh, P.GF

    def mom(M, a, b):
        return np.sqrt(max((M - a - b) * (M + a - b) * (M - a + b) * (M + a + b), 0.0)) / (2 * M)

    def penguin(q1, q2, c):
        return 3 * np.sqrt(2) * (q1 + q2) * GF * mt**2 * c / (32 * np.pi**2 * vh)
    hsb, hsd = penguin(ms_, mb, np.conj(P.Vts) * P.Vtb), penguin(ms_, md, np.conj(P.Vts) * P.Vtd)

    def widths(m, g):
        w = {}
        w["bk"] = mom(mB, mk, m) / (8 * np.pi * mB**2) * ((mB**2 - mk**2) / (mb - ms_) * 0.33 / (1 - m**2 / 38e3**2)) ** 2 * abs(hsb) ** 2 * g**2 if m <= mB - mk else 0.0
        w["kpi"] = mom(mk, mpi, m) / (8 * np.pi * mk**2) * ((mk**2 - mpi**2) / (ms_ - md)) ** 2 * abs(hsd) ** 2 * g**2 if m < mk - mpi else 0.0
        w["klpi0"] = mom(mkl, mpi0, m) / (8 * np.pi * mkl**2) * ((mkl**2 - mpi0**2) / (ms_ - md)) ** 2 * hsd.imag**2 * g**2 if m < mkl - mpi0 else 0.0
        w["bxs"] = (mb**2 - m**2) ** 2 / mb**3 / (8 * np.pi) * abs(hsb) ** 2 * g**2 if m <= mB - mk else 0.0
        return w
    # experimental inputs, frozen as published
    frozen = [C.B_k_invis_obs.width_bound / P.B_width, 1.6e-5 - 3.8e-6, C.k_pi_invis_obs.width_bound / P.k_width, 2.88e-10 - 0.78e-10,
              C.B_k_mu_mu_obs.width_bound / P.B_width, 5.4e-7 - 2.3e-7, C.kl_pi0_mu_mu_obs.width_bound / P.kl_width, 3.8e-10 - 1.2e-11,
              C.kl_pi0_e_e_obs.width_bound / P.kl_width, 2.8e-10 - 2.4e-11, C.B_k_e_e_obs.width_bound / P.B_width, 5.4e-7 / 1.03 - 2.3e-7]
    rec.close(np.array(frozen[0::2]), np.array(frozen[1::2]), "inputs:width-bounds", rtol=1e-9)
    kp = lambda p: mk**2 + mpi**2 - 2 * mk * np.sqrt(mpi**2 + p**2)
    mmu = P.muon_mass
    obs = dict(bki=(C.B_k_invis_obs, 320.0, [[0, 0.3 * mB**2]]),
               kpi=(C.k_pi_invis_obs, 145.0, [[max(kp(229.0), 0), kp(211.0)], [kp(195.0), kp(140.0)]]),
               bmm=(C.B_k_mu_mu_obs, 0.5, [[4 * mmu**2, 8.68e6], [10.09e6, 12.86e6], [14.18e6, (mB - mk) ** 2]]),
               bee=(C.B_k_e_e_obs, 0.5, [[8.11e6, 10.03e6], [12.15e6, 14.11e6]]),
               kmm=(C.kl_pi0_mu_mu_obs, 0.1, [[0, 350.0**2]]), kee=(C.kl_pi0_e_e_obs, 0.1, [[140.0**2, 362.7**2]]))
    for nm, (o, r, s) in obs.items():
        rec.close(o.r_max, r, "inputs:r_max", nm=nm)
        rec.close(np.array(o.s_bounds), np.array(s), "inputs:windows", rtol=1e-9, nm=nm)
    rec.ok(C.bd_charm == (0.25, 3.6e-6 / 40, 10e3, 480.0, 35.0, ["g g", "e e", "mu mu"], 2.9e17, 2.3), "inputs:charm")
    rec.ok(C.bd_ship[:7] == (0.25, 3.6e-3 / 40, 25e3, 70.0, 55.0, ["g g", "e e", "mu mu", "pi pi", "pi0 pi0", "k k", "k0 k0"], 2e20)
           and C.bd_ship.n_dec == 3.0, "inputs:ship")
    cm = 1 / 1.973269804e-11
    for k in range(rec.n(120, 1500)):
        mode = k % 6
        ms = float({0: 10 ** rng.uniform(0.1, 3.7), 1: rng.uniform(1, mk - mpi + 5), 2: rng.uniform(200, 500), 3: rng.uniform(1000, mB - mk + 50),
                    4: np.sqrt(obs[list(obs)[k % 4]][2][0][1]) * rng.uniform(0.99, 1.01), 5: 10 ** rng.uniform(3.6, 5)}[mode])
        mx = float(10 ** rng.uniform(-1, 3.5)) if k % 3 else ms * float(rng.uniform(0.1, 0.9))
        st, gx = float(10 ** rng.uniform(-7, -0.3)), float(10 ** rng.uniform(-6, 0.5))
        m = HiggsPortal(mx=mx, ms=ms, gsxx=gx, stheta=st)
        w = widths(ms, st)
        tag = dict(k=k, ms=ms, mx=mx, st=st, gx=gx)
        for nm, fn in (("bk", m.width_B_k_s), ("kpi", m.width_k_pi_s), ("klpi0", m.width_kl_pi0_s), ("bxs", m.width_B_xs_s)):
            rec.close(fn(), w[nm], "meson-width", rtol=1e-7, which=nm, **tag)
        pw = m.partial_widths()
        tot = pw["total"]

        def inside(o):
            return any(a <= ms**2 <= b for a, b in obs[o][2])

        def decay(o, M, d):
            p = mom(M, d, ms)
            return np.exp(-obs[o][1] * cm * tot * ms / p) if p else 0.0
        inv = lambda o, M, d, wd: wd * (pw["x x"] + decay(o, M, d) * (tot - pw["x x"])) / tot if inside(o) else 0.0
        vis = lambda o, M, d, wd, f: wd * pw[f] / tot * -np.expm1(np.log(max(decay(o, M, d), 1e-323))) if inside(o) else 0.0
        want = {"B -> k invis": (obs["bki"][0].width_bound, inv("bki", mB, mk, w["bk"])),
                "k -> pi invis": (obs["kpi"][0].width_bound, inv("kpi", mk, mpi, w["kpi"])),
                "B -> k mu mu": (obs["bmm"][0].width_bound, vis("bmm", mB, mk, w["bk"], "mu mu")),
                "B -> k e e": (obs["bee"][0].width_bound, vis("bee", mB, mk, w["bk"], "e e")),
                "kl -> pi0 mu mu": (obs["kmm"][0].width_bound, vis("kmm", mkl, mpi0, w["klpi0"], "mu mu")),
                "kl -> pi0 e e": (obs["kee"][0].width_bound, vis("kee", mkl, mpi0, w["klpi0"], "e e"))}
        hw = 0.0
        if 125.0e3 > 2 * mx:
            y = gx * st / np.sqrt(1 - st**2)
            hw = y**2 * 125.1e3 / (8 * np.pi) * max(1 - 4 * mx**2 / P.higgs_mass**2, 0) ** 1.5 * P.higgs_mass / 125.1e3
        want["higgs -> invis"] = (3.2 * 0.19, hw)
        E = 10e3
        n = 0.0
        if ms < E:
            gb = np.sqrt((E / ms) ** 2 - 1)
            d, L = 480e2 * cm * tot / gb, 35e2 * cm * tot / gb
            pr = np.exp(-d) * -np.expm1(-L)
            prod = 0.25 * (0.5 * w["kpi"] / P.k_width + 0.25 * w["klpi0"] / P.kl_width) + 3.6e-6 / 40 * w["bxs"] / P.B_width
            n = 2.9e17 * prod * pr * (pw["g g"] + pw["e e"] + pw["mu mu"]) / tot
        want["CHARM"] = (2.3, n)
        fns = m.constraints()
        rec.ok(set(fns) == set(want) - {"B -> k e e"}, "constraint-names", k=k)
        fns["B -> k e e"] = m.constraint_B_k_e_e
        for nm, (bound, contr) in want.items():
            ok, v = rec.guard("constraint:raises:" + nm, fns[nm], **tag)
            if ok:
                # lifetimes enter exponentially: allow the exponent's own rounding, and the 1-exp cancellation
                rec.close(v, bound - contr, "constraint", rtol=1e-7, atol=1e-4 * abs(contr) + 1e-9 * bound, nm=nm, **tag)
                if contr > 0:
                    rec.count("contributing:" + nm)
        ok, v = rec.guard("ship:raises", lambda: m.constrain_beam_dump(C.bd_ship), **tag)
        if ok:
            n = 0.0
            if ms < 25e3:
                gb = np.sqrt((25e3 / ms) ** 2 - 1)
                prod = 0.25 * (0.5 * w["kpi"] / P.k_width + 0.25 * w["klpi0"] / P.kl_width) + 3.6e-3 / 40 * w["bxs"] / P.B_width
                n = 2e20 * prod * np.exp(-70e2 * cm * tot / gb) * -np.expm1(-55e2 * cm * tot / gb) * (tot - pw["x x"]) / tot
            rec.close(v, 3.0 - n, "ship", rtol=1e-7, atol=1e-4 * n + 1e-9, **tag)
        if k % 20 == 0:
            v1, v2 = np.geomspace(1, 3000, int(rng.integers(1, 5))), np.geomspace(1e-6, 1e-1, int(rng.integers(1, 5)))
            img = HiggsPortal(mx, ms, gx, st).constrain("ms", v1, "stheta", v2)
            for nm in img:
                rec.close(img[nm], np.array([[HiggsPortal(mx, a, gx, b).constraints()[nm]() for a in v1] for b in v2]), "portal-image", rtol=1e-12, nm=nm, **tag)


def tasks(ck):
    return [("grids", grids, None), ("iteration", iteration, None), ("binned", binned, None)] + [(f"portal-{i}", portal, i) for i in range(3)]
