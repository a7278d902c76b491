"""One set of published constants everywhere, exact unit conversions, and channels that open exactly at the sum of the published masses."""
import importlib
import pathlib
import numpy as np

from . import _models

PROPERTY = "P28"
NATIVE = "all"
RULE = ("one constant of one module, one unit conversion, or one channel probed on both sides of its threshold per event; oracle = published values with their uncertainties "
        "(Particle Data Group, CODATA), relations between constants, and the sum of the published masses")

# MeV; value, tolerance (five published standard deviations or the spread between review editions, whichever is larger)
MASS = {
    "e": (0.51099895, 1e-6), "mu": (105.658375, 1e-5), "tau": (1776.86, 0.6), "pi0": (134.9768, 2.5e-3), "pi": (139.57039, 1e-3), "eta": (547.862, 0.09),
    "etap": (957.78, 0.3), "k": (493.677, 0.08), "k0": (497.611, 0.065), "kl": (497.611, 0.065), "ks": (497.611, 0.065), "rho": (775.26, 1.2), "rho0": (775.26, 1.2),
    "omega": (782.66, 0.65), "phi": (1019.461, 0.08), "u": (2.16, 0.5), "d": (4.67, 0.5), "s": (95.0, 10.0), "c": (1270.0, 20.0), "b": (4180.0, 30.0),
    "t": (172.9e3, 800.0), "h": (125.1e3, 300.0), "ve": (0.0, 0.0), "vm": (0.0, 0.0), "vt": (0.0, 0.0), "a": (0.0, 0.0), "photon": (0.0, 0.0),
}
LONG = {"electron_mass": "e", "muon_mass": "mu", "tau_mass": "tau", "neutral_pion_mass": "pi0", "charged_pion_mass": "pi", "eta_mass": "eta", "eta_prime_mass": "etap",
        "charged_kaon_mass": "k", "neutral_kaon_mass": "k0", "long_kaon_mass": "kl", "short_kaon_mass": "ks", "rho_mass": "rho", "omega_mass": "omega", "phi_mass": "phi",
        "up_quark_mass": "u", "down_quark_mass": "d", "strange_quark_mass": "s", "charm_quark_mass": "c", "bottom_quark_mass": "b", "top_quark_mass": "t", "higgs_mass": "h"}
# lifetimes in seconds or widths in MeV, relative tolerance
LIFE = {"mu": (2.1969811e-6, 1e-5), "tau": (290.3e-15, 0.01), "pi0": (8.43e-17, 0.03), "pi": (2.6033e-8, 2e-4), "k": (1.2380e-8, 4e-3), "ks": (0.8954e-10, 1e-3), "kl": (5.116e-8, 0.01)}
WIDTH = {"t": (1420.0, 0.3), "z": (2495.2, 2e-3), "w": (2085.0, 0.03), "h": (3.74, 0.2), "eta": (1.31e-3, 0.05), "rho": (147.4, 0.02), "omega": (8.68, 0.02), "eta_prime": (0.188, 0.05), "phi": (4.249, 0.01)}
PDG = {"d": 1, "u": 2, "s": 3, "c": 4, "b": 5, "t": 6, "e": 11, "mu": 13, "tau": 15, "ve": 12, "vm": 14, "vt": 16, "g": 21, "a": 22, "z": 23, "w": 24, "h": 25, "pi0": 111, "pi": 211,
       "k0": 311, "kl": 130, "ks": 310, "k": 321, "eta": 221, "etap": 331, "rho0": 113, "rho": 213, "omega": 223, "phi": 333}
# single values: name, published, relative tolerance
SINGLE = {
    "wboson_mass": (80.385e3, 1e-3), "zboson_mass": (91.1876e3, 1e-4), "charged_B_mass": (5279.3, 1e-4), "rho_width": (147.4, 0.02), "B_width": (6.582119569e-22 / 1.638e-12, 0.1),
    "k_width": (6.582119569e-22 / 1.238e-8, 4e-3), "kl_width": (6.582119569e-22 / 5.116e-8, 0.01), "alpha_em": (1 / 137.035999, 1e-4), "GF": (1.1663787e-11, 1e-6), "vh": (246.22e3, 1e-4),
    "temp_cmb_formation": (0.235e-6, 0.15), "plank_mass": (1.220890e22, 1e-4), "rho_crit": (1.05375e-2, 1e-3), "sm_entropy_density_today": (2891.2, 1e-3), "omega_h2_cdm": (0.1198, 0.01),
    "dimensionless_hubble_constant": (0.6774, 0.01), "sin_theta_weak_sqrd": (0.2229, 2e-3), "fpi0": (91.924, 1e-3), "fpi": (92.2138, 2e-3), "fk": (110.379, 5e-3), "feta": (57.8, 1e-3),
    "G8": (5.47, 1e-3), "G27": (0.392, 1e-3), "gv": (67.0, 1e-3), "fv": (153.0, 1e-3), "Lr1": (0.56e-3, 1e-3), "Lr2": (1.21e-3, 1e-3), "L3": (-2.79e-3, 1e-3), "Lr4": (-0.36e-3, 1e-3),
    "Lr5": (1.4e-3, 1e-3), "Lr6": (0.07e-3, 1e-3), "L7": (-0.44e-3, 1e-3), "Lr8": (0.78e-3, 1e-3), "Er": (0.029, 1e-3), "Gr": (0.0073, 1e-3), "Qu": (2 / 3, 1e-12), "Qd": (-1 / 3, 1e-12),
    "Qe": (-1.0, 1e-12), "Msun_to_g": (1.98841e33, 1e-3), "speed_of_light": (299792458, 0),
}
HBAR_S, HBARC = 6.582119569509067e-22, 197.3269804593025e-13         # MeV s, MeV cm
# names modules of the library use for masses they carry as globals
ALIAS = {"e": "me ME _ME mass_e", "mu": "mmu MMU _MMU", "pi": "mpi MPI _MPI", "pi0": "mpi0 MPI0 _MPI0", "eta": "meta META _META", "etap": "metap METAP", "k": "mk MK", "k0": "mk0 MK0 mkl",
         "omega": "momega MOMEGA", "phi": "mphi MPHI", "rho": "MRHO mrho", "tau": "mtau MTAU"}


def tables(rec, _):
    import hazma.parameters as P
    for k, (v, tol) in MASS.items():
        rec.ok(abs(P.standard_model_masses[k] - v) <= tol, ("mass", k), value=P.standard_model_masses[k], published=v)
    rec.ok(set(MASS) <= set(P.standard_model_masses), "mass:names")
    for n, k in LONG.items():
        rec.ok(getattr(P, n) == P.standard_model_masses[k], ("named mass is the table's", n), value=getattr(P, n), table=P.standard_model_masses[k])
    rec.ok(list(P.lepton_masses) == [P.electron_mass, P.muon_mass], "lepton masses")
    for k, (t, tol) in LIFE.items():
        rec.close(P.SM_WIDTHS[k], HBAR_S / t, ("width", k), rtol=tol)
    for k, (w, tol) in WIDTH.items():
        rec.close(P.SM_WIDTHS[k], w, ("width", k), rtol=tol)
    for k, v in PDG.items():
        rec.ok(P.PDG_CODES[k] == v, ("particle code", k), value=P.PDG_CODES[k], published=v)
    for k, (v, tol) in SINGLE.items():
        rec.close(float(getattr(P, k)), v, ("constant", k), rtol=tol + 1e-15)
    # relations
    rec.close(P.k_width, P.SM_WIDTHS["k"], "two kaon widths", rtol=5e-3)
    rec.close(P.kl_width, P.SM_WIDTHS["kl"], "two long-kaon widths", rtol=5e-3)
    rec.close(P.qe**2, 4 * np.pi * P.alpha_em, "charge", rtol=1e-12)
    rec.close(P.sin_theta_weak**2 + P.cos_theta_weak**2, 1.0, "weak angle", rtol=1e-12)
    rec.close(P.sin_theta_weak**2, P.sin_theta_weak_sqrd, "weak angle", rtol=1e-12)
    rec.close(P.sin_theta_weak_sqrd, 1 - (P.wboson_mass / P.zboson_mass)**2, "on-shell weak angle", rtol=5e-3)
    rec.close(P.GF, 1 / (np.sqrt(2) * P.vh**2), "Fermi constant and vacuum value", rtol=2e-4)
    rec.close(P.b0 * (P.up_quark_mass + P.down_quark_mass), ((P.charged_pion_mass + P.neutral_pion_mass) / 2)**2, "pion mass relation", rtol=1e-9)
    rec.close(P.pion_mass_chiral_limit, (P.charged_pion_mass + P.neutral_pion_mass) / 2, "chiral pion", rtol=1e-12)
    rec.close(P.kaon_mass_chiral_limit, (P.charged_kaon_mass + P.neutral_kaon_mass) / 2, "chiral kaon", rtol=1e-12)
    rec.close(P.nlo_lec_mu, P.rho_mass, "scale of the low-energy constants", rtol=1e-12)
    for k, n in {"1": "Lr1", "2": "Lr2", "3": "L3", "4": "Lr4", "5": "Lr5", "6": "Lr6", "7": "L7", "8": "Lr8", "SU2_Er": "Er", "SU2_Gr": "Gr"}.items():
        rec.ok(P.LECS[k] == getattr(P, n), ("low-energy constant", k))
    V = np.asarray(P.CKM)
    rec.close(np.abs(V @ V.conj().T), np.eye(3), "mixing matrix is unitary", rtol=0, atol=1e-12)
    for i, r in enumerate("uct"):
        for j, c in enumerate("dsb"):
            rec.ok(getattr(P, f"V{r}{c}") == V[i, j], ("mixing element", r + c))
    for n, v, tol in (("ud", 0.97435, 1e-3), ("us", 0.2250, 4e-3), ("ub", 0.00369, 0.05), ("cd", 0.22486, 4e-3), ("cs", 0.97349, 1e-3), ("cb", 0.04182, 0.03), ("td", 0.00857, 0.04), ("ts", 0.04110, 0.03), ("tb", 0.999118, 1e-4)):
        rec.close(abs(getattr(P, "V" + n)), v, ("mixing element, published", n), rtol=tol)
    # the apex of the unitarity triangle and the other two Wolfenstein parameters, phase-convention independent
    rec.close(np.array(-(V[0, 0] * np.conj(V[0, 2])) / (V[1, 0] * np.conj(V[1, 2]))), np.array(0.159 + 0.348j), "unitarity triangle", rtol=1e-12, atol=1e-12)
    rec.close(abs(V[0, 1]) / np.hypot(abs(V[0, 0]), abs(V[0, 1])), 0.225, "Wolfenstein lambda", rtol=1e-12)
    rec.close(abs(V[1, 2] / V[0, 1]) / 0.225, 0.826, "Wolfenstein A", rtol=1e-12)
    # CP violation: the Jarlskog invariant
    rec.close(float(np.imag(V[0, 1] * V[1, 2] * np.conj(V[0, 2]) * np.conj(V[1, 1]))), 3.08e-5, "Jarlskog", rtol=0.06)


def units(rec, _):
    import hazma.parameters as P
    rng = rec.rng
    rec.close(P.s_to_inv_MeV, 1 / HBAR_S, "second", rtol=1e-8)
    rec.close(P.cm_to_inv_MeV, 1 / HBARC, "centimetre", rtol=1e-8)
    rec.close(P.m_to_inv_MeV, 100 / HBARC, "metre", rtol=1e-8)
    rec.close(P.g_to_MeV, 1 / 1.78266192e-27, "gram", rtol=1e-8)
    rec.close(P.MeV_to_g, 1.78266192e-27, "gram back", rtol=1e-8)
    rec.close(P.g_to_Msun * P.Msun_to_g, 1.0, "solar mass", rtol=1e-12)
    rec.close(P.barn_to_inv_MeV2, 1e-24 / HBARC**2, "barn", rtol=1e-5)
    rec.close(P.sv_inv_MeV_to_cm3_per_s, HBARC**2 * 2.99792458e10, "thermal cross section", rtol=1e-8)
    for _ in range(rec.n(200, 3000)):
        x = float(10 ** rng.uniform(-40, 5))
        y = np.array([x, 2 * x])
        for t in ("cm^3/s", "cm^3 / s"):
            rec.close(P.convert_sigmav(x, t), x * HBARC**2 * 2.99792458e10, "convert to cm^3/s", rtol=3e-3, x=x)
            rec.close(P.convert_sigmav(P.convert_sigmav(x, t), "MeV^-2"), x, "round trip", rtol=1e-13, x=x)
        rec.close(P.convert_sigmav(y, "MeV^-2"), y / P.convert_sigmav(1.0, "cm^3/s"), "array", rtol=1e-13, x=x)
        rec.seen(("unit", x))


def carried(rec, _):
    """Masses that modules carry under their own names are the published ones, in MeV (or GeV where so named)."""
    from .. import build
    root = build.REPO
    names = {n: (k, 1.0) for k, v in ALIAS.items() for n in v.split()}
    names.update({n + "_GEV": (k, 1e-3) for n, (k, _) in list(names.items()) if n.isupper()})
    done = 0
    for p in sorted((root / "hazma").rglob("*.py")):
        if "experimental" in p.parts or "test" in p.name:
            continue
        mod = ".".join(p.relative_to(root).with_suffix("").parts).removesuffix(".__init__")
        try:
            m = importlib.import_module(mod)
        except Exception as e:
            rec.count("modules that do not import: " + type(e).__name__)
            continue
        for n, v in vars(m).items():
            if n not in names or not isinstance(v, float):
                continue
            k, unit = names[n]
            want, tol = MASS[k]
            tol = max(tol, 2e-5 * want, 1.0 if k == "rho" else 0)
            if mod.endswith("_pi_pi_pi_pi") and n in ("MPI", "MPI0"):      # that fit is in GeV throughout
                unit = 1e-3
            rec.ok(abs(v / unit - want) <= tol, ("carried", mod, n), value=v, published=want * unit)
            rec.seen(("carried", mod, n))
            done += 1
    rec.count("masses carried by modules", done)


LAST = {"photon": "a", "gamma": "a", "g": "a"}


def total(fs, extra):
    s = 0.0
    for p in fs.split():
        p = LAST.get(p, p)
        s += extra[p] if p in extra else MASS[p][0]
    return s


def probe(rec, f, thr, key, above=1e-3, below=1e-5, **d):
    """Closed just below, open just above."""
    g1, lo = rec.guard(key + ("below",), lambda: float(f(thr * (1 - below))), threshold=thr, **d)
    g2, hi = rec.guard(key + ("above",), lambda: float(f(thr * (1 + above))), threshold=thr, **d)
    if g1:
        rec.ok(lo == 0, key + ("open below threshold",), value=lo, threshold=thr, **d)
    if g2:
        rec.ok(hi > 0, key + ("closed above threshold",), value=hi, threshold=thr, **d)
    rec.seen(key + (thr,), nontrivial=g2 and hi > 0)


def light(rec, _):
    """MeV mediators: widths open in the mediator mass, cross sections in the collision energy."""
    rng = rec.rng
    for name in ("ScalarMediator", "HiggsPortal", "HeavyQuark", "VectorMediator", "KineticMixing", "QuarksOnly"):
        C = _models.cls(name)
        scalar = name in ("ScalarMediator", "HiggsPortal", "HeavyQuark")
        mk = "ms" if scalar else "mv"
        for _ in range(rec.n(6, 60)):
            p = {k: (abs(v) if k not in ("QQ",) else v) for k, v in _models.params(name, rng).items()}
            p = {k: (v if k in ("mx", "ms", "mv", "mQ", "lam", "QQ") else max(v, float(rng.uniform(0.01, 0.02)))) for k, v in p.items()}
            mx = p["mx"] = float(10 ** rng.uniform(-2.5, -1))        # kinematics set by the products alone
            for ch, w in C(**p).partial_widths().items():
                if ch in ("total", "g g") or (name == "HeavyQuark" and ch in ("e e", "mu mu")) or (name == "QuarksOnly" and ch in ("e e", "mu mu")):
                    continue
                thr = total(ch, {"x": mx})
                probe(rec, lambda m: C(**{**p, mk: m}).partial_widths()[ch], thr, (name, "width", ch), params=p)
            o = C(**p)
            for ch, f in o.annihilation_cross_section_funcs().items():
                if name == "HeavyQuark" and ch in ("e e", "mu mu") or name == "QuarksOnly" and ch in ("e e", "mu mu"):
                    continue
                thr = max(total(ch, {"x": mx, "s": p.get("ms", 0), "v": p.get("mv", 0)}), 2 * mx)
                probe(rec, f, thr, (name, "cross section", ch), params=p)
            # heavy dark matter: nothing below its own threshold, every channel that fits above
            q = dict(p, mx=float(rng.uniform(300, 900)))
            h = C(**q)
            for ch, f in h.annihilation_cross_section_funcs().items():
                if total(ch, {"s": p.get("ms", 0), "v": p.get("mv", 0)}) < 1.9 * q["mx"] and not (name in ("HeavyQuark", "QuarksOnly") and ch in ("e e", "mu mu")):
                    probe(rec, f, 2 * q["mx"], (name, "dark matter", ch), params=q)
            if scalar:
                probe(rec, h.sigma_ss_to_xx, max(2 * q["mx"], 2 * q["ms"]), (name, "inverse"), params=q)


def heavy(rec, part):
    """GeV vector mediator and right-handed neutrino channels."""
    _models.pin_mc()
    rng = rec.rng
    for _ in range(rec.n(1, 6)):
        mx = float(10 ** rng.uniform(-2.5, -1))
        if part == "rhn":
            for fl, l in (("e", "e"), ("mu", "mu"), ("tau", "tau")):
                C = _models.cls("RHNeutrino")
                th = float(10 ** rng.uniform(-4, -2))
                keys = [k for k in C(5000.0, th, flavor=fl).decay_widths() if k != "total"]
                for ch in keys:
                    thr = total(ch, {})
                    if thr == 0 or thr > 4000:
                        continue
                    probe(rec, lambda m: C(m, th, flavor=fl).decay_width(ch.split()) if False else C(m, th, flavor=fl).decay_widths().get(ch, 0.0), thr, ("RHNeutrino", fl, ch), above=3e-2)
            continue
        C = _models.cls("VectorMediatorGeV")
        p = dict(gvxx=1.0, gvuu=0.3, gvdd=-0.2, gvss=0.4, gvee=0.2, gvmumu=0.1, gvveve=0.1, gvvmvm=0.2, gvvtvt=0.3)
        p = {k: float(v * rng.uniform(0.5, 1.5)) for k, v in p.items()}
        chans = C.list_annihilation_final_states()
        for ch in chans if part == "widths" else chans[part::5]:
            thr = total(ch, {"v": 1600.0}) if ch != "pi0 pi0 gamma" else total("pi0 omega", {})
            if ch in ("v v",):
                o = C(mx=mx, mv=1600.0, **p)
                probe(rec, o.annihilation_cross_section_funcs()[ch], thr, ("GeV", "cross section", ch))
                continue
            if thr == 0:
                continue
            name = "width_v_to_" + ch.replace(" ", "_")
            kw = {"npts": 2000} if len(ch.split()) == 4 else {}
            if part == "widths":
                probe(rec, lambda m: getattr(C(mx=mx, mv=m, **p), name)(**kw), thr, ("GeV", "width", ch), above=2e-2)
            else:
                o = C(mx=mx, mv=min(0.3 * thr, 100.0), **p)      # a light mediator: its own width costs nothing
                probe(rec, lambda e: o.annihilation_cross_section_funcs()[ch](e), thr, ("GeV", "cross section", ch), above=2e-2)
        if part == "widths":
            m0 = float(rng.uniform(1, 900))
            probe(rec, lambda m: C(mx=m0, mv=m, **p).width_v_to_x_x(), 2 * m0, ("GeV", "width", "x x"))


def many(rec, _):
    """Many-body spectra accept a final state exactly when its masses fit the energy."""
    from hazma import spectra as S
    rng = rec.rng
    pool = ["e", "mu", "pi", "pi0", "k", "kl", "ks", "eta", "etap", "rho", "rho0", "omega", "phi", "ve", "vm", "a"]
    for _ in range(rec.n(60, 900)):
        n = int(rng.integers(2, 4))
        fs = [str(s) for s in rng.choice(pool, n)]
        thr = sum(MASS[s][0] for s in fs)
        if thr == 0:
            continue
        kind = str(rng.choice(["photon", "positron", "ve", "vm"]))
        def run(cme):
            x = np.array([0.11, 0.23]) * cme
            if kind in ("photon", "positron"):
                return getattr(S, "dnde_" + kind)(x, cme, fs, nbins=5)
            return S.dnde_neutrino(x, cme, fs, flavor=kind[1:], nbins=5) if False else S.dnde_neutrino(x, cme, fs, nbins=5)
        try:
            lo = np.asarray(run(thr * (1 - 1e-5)), float)
            rec.ok(not np.any(lo), ("many-body", "closed state has a spectrum"), fs=fs, kind=kind, value=lo)
        except ValueError:
            rec.count("closed final states refused")
        good, hi = rec.guard(("many-body", "open state refused"), lambda: np.asarray(run(thr * (1 + 1e-4)), float), fs=fs, kind=kind)
        if good:
            rec.ok(np.all(np.isfinite(hi)) and np.all(hi >= -1e-5 * np.max(hi)), ("many-body", "values"), fs=fs, kind=kind, value=hi)
        rec.seen(("many", tuple(fs), kind))


def tasks(ck):
    return [("tables", tables, None), ("units", units, None), ("carried", carried, None), ("light", light, None), ("many", many, None)] + \
        [(f"heavy:{p}", heavy, p) for p in ("rhn", "widths", 0, 1, 2, 3, 4)]
