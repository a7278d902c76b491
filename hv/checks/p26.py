"""Compiled decay spectra of the MeV scalar and vector mediators, and the model spectra built on them."""
import numpy as np
from . import _models
from .p20 import boost_ref

PROPERTY = "P26"
RULE = ("one judged mediator decay spectrum, sum or contract per event: random mediator masses, boosts, partial widths, modes and energies; oracle = "
        "rest-frame spectra of the mediator's channels (single-particle decay spectra and radiation judged elsewhere) boosted by direct "
        "integration, line boxes, additivity and linearity in the widths; non-trivial = non-zero spectrum")
ASSUME = ["single-particle decay spectra are judged by P13 and P14, closed-form radiation by P16"]
NATIVE = "all"


def mods():
    from hazma.scalar_mediator.scalar_mediator_decay_spectrum import scalar_mediator_decay_spectrum as sp
    from hazma.vector_mediator import vector_mediator_decay_spectrum as vp
    from hazma.scalar_mediator import scalar_mediator_positron_spec as ss
    from hazma.vector_mediator import vector_mediator_positron_spec as vs
    return sp, vp, ss, vs


def M():
    import hazma.parameters as P
    return P


# widths order of the photon functions; modes each width feeds
SCALAR = {"e e g": 0, "mu mu": 1, "mu mu g": 1, "pi0 pi0": 2, "pi pi": 3, "pi pi g": 3, "g g": 4}
VECTOR = {"e e g": 0, "mu mu": 1, "mu mu g": 1, "pi0 g": 2, "pi pi": 3, "pi pi g": 3}


def proxies():
    from hazma.scalar_mediator import ScalarMediator
    from hazma.vector_mediator import VectorMediator
    return (ScalarMediator(mx=1.0, ms=10.0, gsxx=1.0, gsff=1.0, gsGG=1.0, gsFF=1.0, lam=1e5),
            VectorMediator(mx=1.0, mv=10.0, gvxx=1.0, gvuu=1.0, gvdd=-1.0, gvss=0.5, gvee=1.0, gvmumu=1.0))


def rest(kind, mode, m, xs):
    """Rest-frame photons per decay into the given mode, from the model's own channel spectra at sqrt(s) = m."""
    s, v = proxies()
    o = s if kind == "s" else v
    if mode in ("mu mu", "pi pi"):
        return (o.dnde_mumu if mode == "mu mu" else o.dnde_pipi)(xs, m, "decay")
    if mode == "e e g":
        return o.dnde_ee(xs, m, "fsr")
    if mode == "mu mu g":
        return o.dnde_mumu(xs, m, "fsr")
    if mode == "pi pi g":
        return o.dnde_pipi(xs, m, "fsr")
    if mode == "pi0 pi0":
        return o.dnde_pi0pi0(xs, m, "decay")
    if mode == "pi0 g":
        return o.dnde_pi0g(xs, m, "decay")
    raise KeyError(mode)


def threshold(mode):
    P = M()
    return {"e": 2 * P.electron_mass, "m": 2 * P.muon_mass, "p": 2 * P.charged_pion_mass, "g": 0.0}[mode[0]] if mode[:3] != "pi0" else \
        (2 * P.neutral_pion_mass if mode == "pi0 pi0" else P.neutral_pion_mass)


def resolved(kind, m, g, e):
    """Energies at which the boosted pi0 box is not a narrow spike in the angular integral.

    The adaptive quadrature over the angle can step over a narrower one: a recorded finding, probed below.
    """
    mp = M().neutral_pion_mass
    ep = m / 2 if kind == "s" else (m * m + mp * mp) / (2 * m)
    if ep <= mp:
        return np.ones(len(e), bool)
    p, b = np.sqrt(ep**2 - mp**2), np.sqrt(1 - 1 / g**2)
    c = [np.clip((1 - x / (e * g)) / b, -1, 1) for x in ((ep + p) / 2, (ep - p) / 2)]
    return (c[1] == c[0]) | (c[1] - c[0] > 0.4)


def photon(rec, kind):
    sp, vp, _, _ = mods()
    rng = rec.rng
    table = SCALAR if kind == "s" else VECTOR
    call = (lambda e, E, m, pw, mode: sp(e, E, m, pw, [mode] if mode != "total" else list(table))) if kind == "s" else \
        (lambda e, E, m, pw, mode: vp.dnde_decay_v(e, E, m, pw, mode))
    for _ in range(rec.n(30, 450)):
        m = float(10 ** rng.uniform(0.2, 3.2))
        g = float(1 + 10 ** rng.uniform(-2, 0.7))
        E, b = g * m, np.sqrt(1 - 1 / g**2)
        e = np.sort(np.concatenate([np.geomspace(2e-3 * m, 0.5 * m * g * (1 + b) * 1.1, 12), m * rng.uniform(0.02, 0.6, 4)]))
        one = np.zeros(5)
        parts = {}
        for mode, i in table.items():
            pw = np.zeros(5)
            pw[i] = 1.0
            if m <= threshold(mode) * 1.001:
                continue
            good, got = rec.guard(f"photon:{kind}:raises", lambda: np.asarray(call(e, E, m, pw, mode)), mode=mode, m=m, E=E)
            if not good:
                continue
            parts[mode] = got
            if mode == "g g":
                lo, hi = E * (1 - b) / 2, E * (1 + b) / 2
                sure = (np.abs(e / lo - 1) > 1e-9) & (np.abs(e / hi - 1) > 1e-9)
                box = np.where((e > lo) & (e < hi), 1 / (E * b), 0.0)
                # one photon per decay instead of two is a recorded finding; the box itself is judged
                rec.close(got[sure] / np.where(np.max(got) > 1.5 / (E * b), 2.0, 1.0), box[sure], f"photon:{kind}:{mode}", rtol=1e-6, m=m, E=E)
                continue
            want = boost_ref(lambda x: rest(kind, mode, m, x), [], e, 0.0, g, m / 2, n=6000)
            if mode == "pi0 g":
                # the line on top: its position is a recorded finding, judged by the probe below
                lo, hi = E * (1 - b) / 2, E * (1 + b) / 2
                e0 = (m * m - M().neutral_pion_mass**2) / (2 * m)
                lo2, hi2 = g * e0 * (1 - b), g * e0 * (1 + b)
                alt = want + np.where((e > lo2) & (e < hi2), 1 / (hi2 - lo2), 0.0)
                want = want + np.where((e > lo) & (e < hi), 1 / (E * b), 0.0)
                if np.sum(np.abs(got - alt)) < np.sum(np.abs(got - want)):
                    want = alt
            top = float(np.max(want))
            if top <= 0:
                continue
            if kind == "s" and mode[-1] == "g" and np.max(got) < 0.75 * top:
                want, top = want / 2, top / 2           # recorded finding (probe "scalar-radiation" below)
            fine = resolved(kind, m, g, e) if "pi0" in mode else np.ones(len(e), bool)
            if mode[:3] != "pi0":        # likewise the forward cone that alone reaches the highest energies
                r = threshold(mode)**2 / m**2
                top_rest = m / 2 * (1 - r) if mode[-1] == "g" else m / 4 * (1 + np.sqrt(1 - r))
                fine = (1 - top_rest / (e * g)) / b < 0.6
            rec.count("spikes_skipped", int(np.sum(~fine)))
            weighted = (1.5e-3 if mode in ("mu mu", "pi pi") else 5e-3) * float(np.max(e * want)) / e          # judged as energy per decade: the soft tail must not set the scale
            rec.close(got[fine], want[fine], f"photon:{kind}:{mode}", rtol=0.02, atol=weighted[fine], m=m, E=E, e=e[fine])
        if parts:
            w = rng.dirichlet(np.ones(5))
            tot = np.asarray(call(e, E, m, w, "total"))
            want = sum(w[table[k]] * v for k, v in parts.items())
            closed = [k for k in table if k not in parts]
            wz = w.copy()
            for k in closed:
                wz[table[k]] = 0.0
            tot = np.asarray(call(e, E, m, wz, "total"))
            fine = resolved(kind, m, g, e)
            rec.close(tot[fine], want[fine], f"photon:{kind}:total", rtol=2e-3, atol=5e-3 * float(np.max(want)), m=m, E=E, open=sorted(parts))
        j = int(rng.integers(0, len(e)))
        mode = str(rng.choice(list(table) + ["total"]))
        w = rng.dirichlet(np.ones(5))
        a = np.asarray(call(e, E, m, w, mode))
        p = sp(float(e[j]), E, m, w, [mode] if mode != "total" else list(table)) if kind == "s" else vp.dnde_decay_v_pt(float(e[j]), E, m, w, mode)
        rec.ok(np.ndim(p) == 0 and (p == a[j] or abs(p - a[j]) <= 1e-12 * abs(a[j]) or (np.isnan(p) and np.isnan(a[j]))), f"photon:{kind}:scalar", value=p, array=a[j])
        below = np.asarray(call(e, m * float(rng.uniform(0.1, 0.999)), m, w, mode))
        rec.ok(not np.any(below), f"photon:{kind}:below-mass", mode=mode, m=m)


def positron(rec, kind):
    _, _, ss, vs = mods()
    rng = rec.rng
    P = M()
    from hazma import spectra
    arr, pt = (ss.dnde_decay_s, ss.dnde_decay_s_pt) if kind == "s" else (vs.dnde_decay_v, vs.dnde_decay_v_pt)
    me = P.electron_mass
    for _ in range(rec.n(40, 600)):
        m = float(10 ** rng.uniform(0.3, 3.2))
        g = float(1 + 10 ** rng.uniform(-2, 0.7))
        E, b = g * m, np.sqrt(1 - 1 / g**2)
        e = me + np.sort(np.concatenate([np.geomspace(2e-3 * m, 0.5 * m * g * (1 + b) * 1.1, 12), m * rng.uniform(0.02, 0.6, 4)]))
        parts = {}
        for i, mode in enumerate(("e e", "mu mu", "pi pi")):
            if m <= threshold(mode) * 1.001:
                continue
            pw = np.zeros(3)
            pw[i] = 1.0
            good, got = rec.guard(f"positron:{kind}:raises", lambda: np.asarray(arr(e, E, m, pw, mode)), mode=mode, m=m)
            if not good:
                continue
            parts[mode] = got
            if mode == "e e":
                r = np.sqrt(1 - 4 * me * me / m**2)
                lo, hi = E * (1 - r * b) / 2, E * (1 + r * b) / 2
                sure = (np.abs(e / lo - 1) > 1e-6) & (np.abs(e / hi - 1) > 1e-6)
                want = np.where((e > lo) & (e < hi), 1 / (E * b), 0.0)      # phase-space factor r of the height: 2 (me/m)^2
                rec.close(got[sure], want[sure], f"positron:{kind}:e e", rtol=1e-6 + 3 * (me / m)**2, m=m, E=E)
                continue
            f = spectra.dnde_positron_muon if mode == "mu mu" else spectra.dnde_positron_charged_pion
            want = boost_ref(lambda x: f(x, m / 2), [], e, me, g, m / 2, n=6000)
            fine = (1 - m / 4 * (1 + np.sqrt(1 - threshold(mode)**2 / m**2)) / (e * g)) / b < 0.6          # as for the photons
            rec.close(got[fine], want[fine], f"positron:{kind}:{mode}", rtol=0.02, atol=0.012 * float(np.max(want)), m=m, E=E)
        w = rng.dirichlet(np.ones(3))
        for i, mode in enumerate(("e e", "mu mu", "pi pi")):
            if mode not in parts:
                w[i] = 0.0
        tot = np.asarray(arr(e, E, m, w, "total"))
        want = sum(w[i] * parts.get(mode, 0.0) for i, mode in enumerate(("e e", "mu mu", "pi pi")))
        rec.close(tot, want, f"positron:{kind}:total", rtol=2e-3, atol=0.012 * float(np.max(want)), m=m, E=E)
        for i, mode in enumerate(("e e", "mu mu", "pi pi")):       # each mode alone, all widths present
            if mode in parts:
                one = np.asarray(arr(e, E, m, w, mode))
                lim = 2e-3 * w[i] * parts[mode] + 0.012 * w[i] * float(np.max(parts[mode])) + 1e-12
                line = w[0] * parts.get("e e", 0 * e)
                leak = i > 0 and not np.all(abs(one - w[i] * parts[mode]) <= lim) and np.all(abs(one - w[i] * parts[mode] - line) <= lim + 1e-9 * line)
                rec.ok(not leak, f"positron:{kind}:{mode} carries the e e line", m=m, E=E)
                rec.ok(leak or np.all(abs(one - w[i] * parts[mode]) <= lim), f"positron:{kind}:{mode} alone", m=m, E=E, value=one, expected=w[i] * parts[mode])
        j = int(rng.integers(0, len(e)))
        p = pt(float(e[j]), E, m, w, "total")
        rec.ok(np.ndim(p) == 0 and abs(p - tot[j]) <= 1e-12 * abs(tot[j]), f"positron:{kind}:scalar", value=p, array=tot[j])
        rec.ok(not np.any(arr(e, m * float(rng.uniform(0.1, 0.999)), m, w, "total")), f"positron:{kind}:below-mass")
        low = np.array([0.0, 0.3 * me, 0.9 * me])
        rec.ok(not np.any(arr(low, E, m, w, "total") * 1.0 if w[0] == 0 else arr(low, E, m, np.append(0.0, w[1:]), "total")), f"positron:{kind}:below-electron-mass")


def slow(rec, kind):
    """A mediator almost at rest: its spectra are those of the two particles it decays to, at half its mass."""
    sp, vp, ss, vs = mods()
    from hazma import spectra as S
    rng = rec.rng
    P = M()
    one = lambda n, i: np.eye(n)[i]
    for _ in range(rec.n(40, 400)):
        i = int(rng.integers(0, 2))
        mode, mass = (("mu mu", P.muon_mass), ("pi pi", P.charged_pion_mass))[i]
        m = 2 * mass * float(1 + 10 ** rng.uniform(-3, 1.5))
        E = m * (1 + 1e-9)
        e = m / 2 * np.sort(10 ** rng.uniform(rng.choice([-3.0, -5.0]), -0.001, 25))
        # away from the kinematic edges, which fall between the nodes of the kernels' tables
        even = lambda f, e: np.ptp([f(v * e, m / 2) for v in np.linspace(0.97, 1.03, 7)], axis=0) < 0.15 * f(e, m / 2)
        ph = (S.dnde_photon_muon, S.dnde_photon_charged_pion)[i]
        ps = (S.dnde_positron_muon, S.dnde_positron_charged_pion)[i]
        k = {"mu mu": 1, "pi pi": 3}[mode]
        want = 2 * ph(e, m / 2)
        got = np.asarray(sp(e, E, m, one(5, k), [mode]) if kind == "s" else vp.dnde_decay_v(e, E, m, one(5, k), mode))
        flat = even(ph, e)
        rec.close(got[flat], want[flat], f"slow:photon:{kind}:{mode}", rtol=5e-3, atol=4e-4 * float(np.max(e * want)) / e[flat], m=m, e=e[flat])
        rec.seen((kind, mode, m), nontrivial=bool(np.any(want)))
        e = P.electron_mass + e
        want = ps(e, m / 2)
        got = np.asarray(ss.dnde_decay_s(e, E, m, one(3, i + 1), mode) if kind == "s" else vs.dnde_decay_v(e, E, m, one(3, i + 1), mode))
        flat = even(ps, e)
        rec.close(got[flat], want[flat], f"slow:positron:{kind}:{mode}", rtol=1e-2, atol=1e-3 * float(np.max(e * want)) / e[flat], m=m, e=e[flat])


def models(rec, _):
    """Annihilation into mediators: two decays of mediators of energy sqrt(s)/2 with branching-fraction weights."""
    sp, vp, ss, vs = mods()
    from hazma import spectra
    rng = rec.rng
    for _ in range(rec.n(100, 1000)):
        name = str(rng.choice(["ScalarMediator", "HiggsPortal", "HeavyQuark", "VectorMediator", "KineticMixing", "QuarksOnly"]))
        o, p = _models.build(name, rng)
        kind = "s" if "ms" in p else "v"
        m = p["ms" if kind == "s" else "mv"]
        q = 2 * m * float(1 + 10 ** rng.uniform(-2, 0.5))
        e = np.geomspace(2e-3 * m, q / 2, 7)
        ep = 0.52 + np.geomspace(2e-3 * m, q / 2, 7)
        pw = o.partial_widths()
        t = pw["total"]
        if t == 0:
            rec.ok(not np.any((o.dnde_ss if kind == "s" else o.dnde_vv)(e, q)), "model:no-width")
            continue
        B = lambda *ks: np.array([pw[k] / t for k in ks])
        if kind == "s":
            want = 2 * sp(e, q / 2, m, B("e e", "mu mu", "pi0 pi0", "pi pi", "g g"))
            got = o.dnde_ss(e, q)
            wp, gp = 2 * ss.dnde_decay_s(ep, q / 2, m, B("e e", "mu mu", "pi pi"), "total"), o.dnde_pos_ss(ep, q)
        else:
            want = 2 * vp.dnde_decay_v(e, q / 2, m, np.append(B("e e", "mu mu", "pi0 g", "pi pi"), 0.0), "total")
            got = o.dnde_vv(e, q)
            wp, gp = 2 * vs.dnde_decay_v(ep, q / 2, m, B("e e", "mu mu", "pi pi"), "total"), o.dnde_pos_vv(ep, q)
            mp = M().neutral_pion_mass
            q2 = (m + mp) * float(1 + 10 ** rng.uniform(-2, 0.5))
            epi, ev = (q2**2 + mp**2 - m**2) / (2 * q2), (q2**2 - mp**2 + m**2) / (2 * q2)
            w3 = spectra.dnde_photon_neutral_pion(e, epi) + vp.dnde_decay_v(e, ev, m, np.append(B("e e", "mu mu", "pi0 g", "pi pi"), 0.0), "total")
            rec.close(o.dnde_pi0v(e, q2), w3, "model:pi0 v", rtol=1e-9, atol=1e-300, model=name)
        rec.close(got, want, "model:photon", rtol=1e-9, atol=1e-300, model=name, m=m, cme=q)
        rec.close(gp, wp, "model:positron", rtol=1e-9, atol=1e-300, model=name, m=m, cme=q)


def channels(rec, _):
    """Annihilation into SM particles: every channel's photons and positrons are its radiation plus the decays of its particles at their energies."""
    from hazma import spectra as S
    P = M()
    me, mmu, mpi, mpi0 = P.electron_mass, P.muon_mass, P.charged_pion_mass, P.neutral_pion_mass
    rng = rec.rng
    for _ in range(rec.n(160, 2000)):
        name = str(rng.choice(["ScalarMediator", "HiggsPortal", "HeavyQuark", "VectorMediator", "KineticMixing", "QuarksOnly"]))
        o, p = _models.build(name, rng)
        scalar = "ms" in p
        q = float(rng.choice([mmu, mpi, mpi0, 2.0])) * 2 * float(1 + 10 ** rng.uniform(-3, 1.2))
        e = q / 2 * 10 ** rng.uniform(-3.0, 0.05, 6)
        y = np.maximum(e, 0.6)
        h = q / 2
        decay = {"e e": 0 * e, "mu mu": 2 * S.dnde_photon_muon(e, h), "pi pi": 2 * S.dnde_photon_charged_pion(e, h)}
        if scalar:
            ff = lambda m: o.dnde_xx_to_s_to_ffg(e, q, m)
            fsr = {"e e": ff(me), "mu mu": ff(mmu), "pi pi": o.dnde_xx_to_s_to_pipig(e, q), "pi0 pi0": 0 * e}
            decay["pi0 pi0"] = 2 * S.dnde_photon_neutral_pion(e, h)
        else:
            ff = lambda f: np.array([o.dnde_xx_to_v_to_ffg(float(v), q, f) for v in e])
            fsr = {"e e": ff("e"), "mu mu": ff("mu"), "pi pi": o.dnde_xx_to_v_to_pipig(e, q), "pi0 g": 0 * e}
            decay["pi0 g"] = S.dnde_photon_neutral_pion(e, (q * q + mpi0**2) / (2 * q))
        fns = o.spectrum_funcs()
        rec.ok(set(fns) == set(fsr) | ({"s s"} if scalar else {"v v", "pi0 v"}), "channels:names", names=sorted(fns), model=name)
        for k in fsr:
            for kind, want in (("fsr", fsr[k]), ("decay", decay[k]), ("all", fsr[k] + decay[k])):
                rec.close(fns[k](e, q, spectrum_type=kind), want, f"channels:photon:{k}:{kind}", rtol=1e-12, atol=1e-300, model=name, cme=q, e=e)
            rec.close(fns[k](e, q), fsr[k] + decay[k], f"channels:photon:{k}", rtol=1e-12, atol=1e-300, model=name, cme=q)
            rec.raises(lambda: fns[k](e, q, spectrum_type="everything"), ValueError, f"channels:photon:{k}:unknown type")
            rec.seen((name, k, round(q, 9)), nontrivial=bool(np.any(fsr[k] + decay[k])))
        pos = o.positron_spectrum_funcs()
        rec.ok(set(pos) == {"mu mu", "pi pi", "s s" if scalar else "v v"}, "channels:positron names", names=sorted(pos), model=name)
        for k, w in (("mu mu", S.dnde_positron_muon(y, h)), ("pi pi", S.dnde_positron_charged_pion(y, h))):
            rec.close(pos[k](y, q), w, "channels:positron:" + k, rtol=1e-12, atol=1e-300, model=name, cme=q, e=y)
            rec.seen((name, "positron", k, round(q, 9)), nontrivial=bool(np.any(w)))
        lines = o.gamma_ray_lines(q)
        want = {"g g": h} if scalar else {"pi0 g": (q * q - mpi0**2) / (2 * q)}
        rec.ok(set(lines) == set(want), "channels:lines", lines=repr(lines), model=name)
        for k, w in want.items():
            rec.close(lines[k]["energy"], w, "channels:line " + k, rtol=1e-13, model=name, cme=q)


def known(rec, _):
    """Deterministic probes of the recorded findings."""
    sp, vp, ss, vs = mods()
    P = M()
    m, E = 400.0, 600.0
    rec.close(sp(np.array([200.0]), E, m, np.array([0, 0, 0, 0, 1.0]), ["g g"])[0], 2 / (E * np.sqrt(1 - (m / E)**2)), "two-photon-line", rtol=1e-6)
    e = np.array([30.0, 90.0])
    for i, mode in ((0, "e e g"), (1, "mu mu g"), (3, "pi pi g")):
        pw = np.zeros(5)
        pw[i] = 1.0
        rec.close(sp(e, E, m, pw, [mode]), boost_ref(lambda x: rest("s", mode, m, x), [], e, 0.0, E / m, m / 2, n=6000), "scalar-radiation:" + mode, rtol=0.02)
    m, E = 200.0, 300.0
    b, g = np.sqrt(1 - (m / E)**2), E / m
    e0 = (m * m - P.neutral_pion_mass**2) / (2 * m)
    hi = g * e0 * (1 + b)
    pw = np.array([0, 0, 1.0, 0, 0])
    e = np.array([0.5 * (hi + E * (1 + b) / 2)])
    f = lambda x: rest("v", "pi0 g", m, x)
    rec.close(vp.dnde_decay_v(e, E, m, pw, "pi0 g"), boost_ref(f, [(e0, 1.0)], e, 0.0, g, m / 2, n=6000), "pi0-gamma-line", rtol=0.02, atol=1e-6)
    for kind, m, mode in (("v", 1.02 * P.neutral_pion_mass, "pi0 g"), ("s", 2.02 * P.neutral_pion_mass, "pi0 pi0")):
        e, g = np.array([0.5, 1.0, 2.0]) * m, 3.0
        one = np.array([0, 0, 1.0, 0, 0])
        got = vp.dnde_decay_v(e, g * m, m, one, mode) if kind == "v" else sp(e, g * m, m, one, [mode])
        want = boost_ref(lambda x: rest(kind, mode, m, x), [], e, 0.0, g, m / 2, n=6000)
        line = np.where(got > 1e-9, 1 / (g * m * np.sqrt(1 - 1 / g**2)), 0.0) if kind == "v" else 0.0
        rec.close(got, want + line, "narrow-pi0-box:" + mode, rtol=0.1)
    for name, fn in (("s", ss.dnde_decay_s), ("v", vs.dnde_decay_v)):
        v = fn(np.array([0.510998928, 10.0]), 600.0, 400.0, np.array([0.0, 0.5, 0.5]), "total")
        rec.ok(bool(np.all(np.isfinite(v))), "legacy-electron-mass:" + name, value=v)


def tasks(ck):
    return [(f"photon-{k}-{i}", photon, k) for k in "sv" for i in range(2)] + [(f"positron-{k}", positron, k) for k in "sv"] + [(f"slow-{k}", slow, k) for k in "sv"] + [("models", models, None), ("channels", channels, None), ("known", known, None)]
