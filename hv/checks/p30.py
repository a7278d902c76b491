"""A changed object is the object built with the changed parameters: MeV mediators, phase-space integrators, copies."""
import copy
import pickle
import numpy as np

from . import _models, p20, p21

PROPERTY = "P30"
NATIVE = "all"
RULE = ("one observable of an object after a random history of attribute changes and interleaved queries (or of its copy) per event; oracle = the same observable of an object "
        "freshly built from the tracked parameters, and the documented couplings of the named models")
MEV = ["ScalarMediator", "HiggsPortal", "HeavyQuark", "VectorMediator", "KineticMixing", "QuarksOnly"]
HIDDEN = {"HiggsPortal": ("gsff", "gsGG", "gsFF"), "HeavyQuark": ("gsff", "gsGG", "gsFF"), "KineticMixing": ("gvuu", "gvdd", "gvss", "gvee", "gvmumu"),
          "QuarksOnly": ("gvee", "gvmumu")}
RAW = {True: ("mx", "ms", "gsxx", "gsff", "gsGG", "gsFF", "lam"), False: ("mx", "mv", "gvxx", "gvuu", "gvdd", "gvss", "gvee", "gvmumu")}


def couplings(name, p):
    """The raw couplings a named model documents."""
    from hazma.parameters import vh, alpha_em
    e = np.sqrt(4 * np.pi * alpha_em)
    if name == "HiggsPortal":
        s = p["stheta"]
        return dict(gsff=s, gsGG=3 * s, gsFF=-5 * s / 6, lam=vh)
    if name == "HeavyQuark":
        return dict(gsff=0.0, gsGG=p["gsQ"], gsFF=2 * p["gsQ"] * p["QQ"]**2, lam=p["mQ"])
    if name == "KineticMixing":
        k = p["eps"] * e
        return dict(gvuu=-2 / 3 * k, gvdd=k / 3, gvss=k / 3, gvee=k, gvmumu=k)
    if name == "QuarksOnly":
        return dict(gvee=0.0, gvmumu=0.0)
    return {}


def views(m, scalar, e_cm, x, heavy):
    """Named observables of a model, cheap ones first."""
    out = {"width": getattr(m, "width_s" if scalar else "width_v"), "partial widths": m.partial_widths(), "channels": sorted(m.list_annihilation_final_states()),
           "cross sections": m.annihilation_cross_sections(e_cm), "fractions": m.annihilation_branching_fractions(e_cm),
           "functions": {k: f(e_cm) for k, f in m.annihilation_cross_section_funcs().items()},
           "lines": m.gamma_ray_lines(e_cm), "positron lines": m.positron_lines(e_cm)}
    if scalar:
        out["vev"] = m.vs
        out["elastic"] = {k: f(e_cm) if callable(f) else f for k, f in m.elastic_scattering_cross_sections(1.3 * e_cm + 2000.0).items()}
        out["pair"] = (m.sigma_ss_to_xx(2 * m.ms + e_cm), m.sigma_xx_to_ss(e_cm))
    if heavy:
        out["spectra"] = {k: np.array(v, float) for k, v in m.spectra(x, e_cm).items()}
        out["positrons"] = {k: np.array(v, float) for k, v in m.positron_spectra(x, e_cm).items()}
    return out


def same(rec, got, want, key, **d):
    if isinstance(want, dict):
        rec.ok(isinstance(got, dict) and set(got) == set(want), key + ("names",), value=sorted(map(str, got)), expected=sorted(map(str, want)), **d)
        for k in want:
            if k in got:
                same(rec, got[k], want[k], key + (str(k),), **d)
        return
    if isinstance(want, (list, tuple)) and want and isinstance(want[0], str):
        rec.ok(list(got) == list(want), key, value=got, expected=want, **d)
        return
    a, b = np.asarray(got, float), np.asarray(want, float)
    rec.ok(a.shape == b.shape and np.allclose(a, b, rtol=1e-10, atol=0, equal_nan=True), key, value=got, expected=want, **d)


def observe(rec, build, scalar, e_cm, x, heavy):
    """The views, or the kind of failure they end in."""
    try:
        return views(build(), scalar, e_cm, x, heavy)
    except (ZeroDivisionError, ValueError, AttributeError) as e:
        return type(e).__name__


def histories(rec, name):
    rng = rec.rng
    C = _models.cls(name)
    scalar = name in MEV[:3]
    for _ in range(rec.n(14, 300)):
        m, p = _models.build(name, rng)
        trail = []
        for step in range(int(rng.integers(2, 8))):
            q = _models.params(name, rng)
            for n in rng.permutation(list(p))[: int(rng.integers(1, 4))]:
                n = str(n)
                p[n] = q[n]
                if rng.random() < 0.1 and n[0] in "gse":
                    p[n] = 0.0 if n not in ("gsxx", "gvxx") else p[n]
                setattr(m, n, p[n])
                trail.append(n)
            if name in HIDDEN and rng.random() < 0.5:
                n = str(rng.choice(HIDDEN[name]))
                old = getattr(m, n)
                rec.raises(lambda: setattr(m, n, old + 0.5), AttributeError, (name, "forbidden", n))
                rec.ok(getattr(m, n) == old, (name, "forbidden attribute moved", n))
                trail.append("!" + n)
            e_cm = 2 * p["mx"] * float(rng.choice([1 + 10 ** rng.uniform(-6, 0), rng.uniform(1, 6), rng.uniform(0.5, 1)]))
            x = np.sort(e_cm * 10 ** rng.uniform(-3, 0, 4))
            heavy = rng.random() < 0.2
            d = dict(params=p, e_cm=e_cm, trail=trail[-8:])
            for n, v in p.items():
                rec.ok(getattr(m, n) == v, (name, "attribute", n), value=getattr(m, n), expected=v, **d)
            for n, v in couplings(name, p).items():
                rec.close(getattr(m, n), v, (name, "documented coupling", n), rtol=1e-12, atol=0, **d)
            a = observe(rec, lambda: m, scalar, e_cm, x, heavy)
            b = observe(rec, lambda: C(**p), scalar, e_cm, x, heavy)
            if isinstance(a, str) or isinstance(b, str):
                rec.ok(a == b, (name, "failure"), value=str(a)[:80], expected=str(b)[:80], **d)
                rec.count("refused by both: " + str(b)[:20])
                continue
            same(rec, a, b, (name,), **d)
            # a named model is the general model with its couplings
            if name not in ("ScalarMediator", "VectorMediator"):
                G = _models.cls("ScalarMediator" if scalar else "VectorMediator")
                g = observe(rec, lambda: G(**{n: getattr(m, n) for n in RAW[scalar]}), scalar, e_cm, x, False)
                if not isinstance(g, str):
                    same(rec, {k: v for k, v in a.items() if k in ("width", "partial widths")}, {k: v for k, v in g.items() if k in ("width", "partial widths")}, (name, "general"), **d)
                    for k in a["cross sections"]:
                        if k in g["cross sections"] and k != "total":
                            same(rec, a["cross sections"][k], g["cross sections"][k], (name, "general", k), **d)
            rec.seen((name, tuple(trail), e_cm), nontrivial=a["cross sections"].get("total", 0) > 0)
            rec.count(name)
            r = repr(m)
            rec.ok(name in r and all(str(p[n]) in r for n in p), (name, "repr"), text=r, **d)
            # copies: equal, and independent in both directions
            if rng.random() < 0.25:
                how = str(rng.choice(["copy", "deepcopy", "pickle"]))
                k = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda o: pickle.loads(pickle.dumps(o))}[how](m)
                c = observe(rec, lambda: k, scalar, e_cm, x, heavy)
                same(rec, c if isinstance(c, dict) else {}, a, (name, how), **d)
                n = str(rng.choice(list(p)))
                if n != "lam":
                    setattr(k, n, p[n] * 1.7 + 0.01)
                    after = observe(rec, lambda: m, scalar, e_cm, x, False)
                    if isinstance(after, dict):
                        same(rec, after, {q: v for q, v in a.items() if q in after}, (name, how, "independent"), **d)
                rec.count("copies")


def thermal(rec, name):
    """Relic-side observables and constraint bundles follow the changes too."""
    rng = rec.rng
    C = _models.cls(name)
    for _ in range(rec.n(4, 40)):
        m, p = _models.build(name, rng)
        q = _models.params(name, rng)
        for n in rng.permutation(list(p))[:3]:
            p[str(n)] = q[str(n)]
            setattr(m, str(n), q[str(n)])
        f = C(**p)
        x = float(rng.uniform(5, 40))
        try:
            a, b = m.thermal_cross_section(x), f.thermal_cross_section(x)
        except ZeroDivisionError:
            continue
        rec.close(a, b, (name, "thermal cross section"), rtol=1e-10, atol=0, params=p, x=x)
        if name in ("HiggsPortal",) or name == "ScalarMediator":
            for fn in ("constraint_B_k_invis", "constraint_B_k_mu_mu", "constraint_B_k_e_e", "constraint_k_pi_invis", "constraint_kl_pi0_mu_mu", "constraint_kl_pi0_e_e", "constrain_beam_dump"):
                if fn.startswith("constraint_h") or not hasattr(m, fn):
                    continue
                try:
                    u = getattr(m, fn)()
                except (ZeroDivisionError, AttributeError) as e:
                    u = type(e).__name__
                try:
                    v = getattr(f, fn)()
                except (ZeroDivisionError, AttributeError) as e:
                    v = type(e).__name__
                rec.ok(u == v or (not isinstance(u, str) and np.allclose(u, v, rtol=1e-10, atol=0, equal_nan=True)), (name, fn), value=u, expected=v, params=p)
        rec.seen((name, "thermal", p["mx"], x), nontrivial=b > 0)


def integrators(rec, _):
    """Two- and three-body integrators: energies, masses and matrix elements replaced in any order."""
    from hazma.phase_space import ThreeBody, Rambo
    from hazma.phase_space._two_body import TwoBody
    rng = rec.rng

    def two(c):
        return (lambda z: 1.0 + c * z**2), (lambda ps: 1.0 + c * (ps[3, 0] / np.sqrt(np.sum(ps[1:, 0]**2)))**2)

    def three(c):
        def inv(ps, i, j):
            k = ps[:, i] + ps[:, j]
            return k[0]**2 - k[1]**2 - k[2]**2 - k[3]**2
        return (lambda s, t: 1.0 + c * s + c**2 * t), (lambda ps: 1.0 + c * inv(ps, 1, 2) + c**2 * inv(ps, 0, 2))
    for _ in range(rec.n(14, 200)):
        for n, C, form, sig in ((2, TwoBody, two, "z"), (3, ThreeBody, three, "st")):
            draw = lambda: (float(10 ** rng.uniform(1.5, 3.5)), rng.dirichlet(np.ones(n + 1))[:n] * 0.95)
            cme, frac = draw()
            ms = tuple(map(float, frac * cme))
            c = float(10 ** rng.uniform(-6, -4)) if n == 3 else float(rng.uniform(0, 3))
            mom = rng.random() < (0.15 if n == 3 else 0.5)
            f = form(c)
            o = C(cme, ms, msqrd=f[mom], msqrd_signature="momenta" if mom else sig)
            if rng.random() < 0.7:
                o.integrate()
            for _ in range(int(rng.integers(1, 4))):
                what = str(rng.choice(["cme", "masses", "msqrd"]))
                if what == "msqrd":
                    c = float(10 ** rng.uniform(-6, -4)) if n == 3 else float(rng.uniform(0, 3))
                    o.msqrd = form(c)[mom]
                elif what == "masses":
                    ms = tuple(map(float, rng.dirichlet(np.ones(n + 1))[:n] * 0.95 * cme))
                    o.masses = list(ms) if rng.random() < 0.5 else np.array(ms)
                else:
                    cme = float(max(sum(ms) * 1.02, 10 ** rng.uniform(1.5, 3.5)))
                    o.cme = cme
                rec.count(f"{n}-body {what}")
            fresh = C(cme, ms, msqrd=form(c)[0], msqrd_signature=sig)
            rec.ok(o.cme == cme and tuple(o.masses) == ms, (n, "attributes"))
            a, b = o.integrate(), fresh.integrate()
            d = dict(cme=cme, ms=ms, mom=mom)
            rec.close(a[0], b[0], (n, "integral"), rtol=2e-3 if mom else 1e-10, **d)
            if not mom and n == 3:
                for fn in ("energy_distributions", "invariant_mass_distributions"):
                    u, v = getattr(o, fn)(12), getattr(fresh, fn)(12)
                    rec.ok(set(map(str, u)) == set(map(str, v)) if isinstance(u, dict) else len(u) == len(v), (fn, "names"))
                    for i in (u if isinstance(u, dict) else range(len(u))):
                        rec.close(u[i].bins, v[i].bins, (fn, "bins"), rtol=1e-12, **d)
                        rec.close(u[i].probabilities, v[i].probabilities, (fn, "probabilities"), rtol=1e-9, atol=1e-300, **d)
            rec.seen((n, cme, ms, c), nontrivial=b[0] > 0)
        # the generator
        n = int(rng.integers(2, 6))
        cme = float(10 ** rng.uniform(1, 4))
        r = Rambo(cme, rng.dirichlet(np.ones(n + 1))[:n] * cme)
        for _ in range(int(rng.integers(1, 4))):
            n = int(rng.integers(2, 6))
            new = float(10 ** rng.uniform(1, 4))
            ms = rng.dirichlet(np.ones(n + 1))[:n] * min(new, cme) * 0.99
            if rng.random() < 0.5:
                r.masses, r.cme = ms, new
            else:
                r.masses, r.cme = list(ms), new
            cme = new
        f = Rambo(cme, ms)
        s = int(rng.integers(2**31))
        a, b = r.generate(200, seed=s), f.generate(200, seed=s)
        rec.ok(all(np.array_equal(u, v) for u, v in zip(a, b)), ("rambo", "events"), n=n, cme=cme)
        rec.ok(np.array_equal(np.atleast_1d(r.masses), np.asarray(ms)) and r.cme == cme, ("rambo", "attributes"))


def tasks(ck):
    return [("history:" + n, histories, n) for n in MEV] + [("thermal:" + n, thermal, n) for n in MEV] + [("integrators", integrators, None), ("history:GeV", p20.histories, None), ("history:RHNeutrino", p21.histories, None)]
