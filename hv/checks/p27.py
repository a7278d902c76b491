"""Calls are pure: inputs untouched, results owned by the caller, history, other objects and other threads irrelevant."""
import threading
import sys
import warnings
import numpy as np
from . import _models
from ._toy import chans, make_ann, make_dec

PROPERTY = "P27"
NATIVE = "all"
LIMIT = {"quick": 300, "thorough": 800}
RULE = ("catalogues of (callable, argument tuple) from every part of the library are first evaluated alone in sequence, then replayed "
        "shuffled and repeated, with read-only, strided and reversed inputs, after scribbling over earlier results, and from several "
        "threads with a 10-microsecond switch interval; every replay must be bit-equal to the first evaluation")
ASSUME = ["CPython threads with the GIL; schedules are whatever a 10-microsecond switch interval produces",
          "Monte-Carlo quantities are excluded except through an explicit seed"]

PH = ["muon", "neutral_pion", "charged_pion", "charged_kaon", "long_kaon", "short_kaon", "eta", "eta_prime", "charged_rho",
      "neutral_rho", "omega", "phi"]
MASS = dict(muon=105.66, neutral_pion=134.98, charged_pion=139.57, charged_kaon=493.7, long_kaon=497.7, short_kaon=497.7, eta=547.9,
            eta_prime=957.8, charged_rho=775.3, neutral_rho=775.3, omega=782.7, phi=1019.5)


class Job:
    """A call; args that are arrays are rebuilt fresh for every evaluation."""

    def __init__(self, name, f, *args):
        self.name, self.f, self.args = name, f, args

    def fresh(self):
        return [a.copy() if isinstance(a, np.ndarray) else a for a in self.args]

    def __call__(self, args=None):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return flat(self.f(*(self.fresh() if args is None else args)))


class Raw(Job):
    """Same, without touching the (process-wide) warning filters; for threads."""

    def __call__(self, args=None):
        return flat(self.f(*(self.fresh() if args is None else args)))


def leaves(r):
    if r is None or isinstance(r, str):
        return []
    if isinstance(r, dict):
        return [x for k in r for x in leaves(r[k])]
    if isinstance(r, (tuple, list)):
        return [x for v in r for x in leaves(v)]
    if hasattr(r, "probabilities"):
        return leaves((r.probabilities, r.bins))
    return [r]


def flat(r):
    return leaves(r)


def equal(a, b):
    return len(a) == len(b) and all(np.array_equal(np.asarray(x, dtype=float), np.asarray(y, dtype=float), equal_nan=True)
                                    and np.shape(x) == np.shape(y) for x, y in zip(a, b))


def snap(r):
    return [np.array(x, dtype=float, copy=True) if not np.isscalar(x) else float(x) for x in r]


def energies(rng, hi, n=None):
    return np.sort(rng.uniform(1e-3, 1.2, int(n or rng.integers(4, 14)))) * hi


# ---------------------------------------------------------------- catalogues

def spectra(rng, k):
    import hazma.spectra as S
    jobs = []
    for _ in range(k):
        for p in PH:
            E = MASS[p] * float(1 + 10 ** rng.uniform(-3, 1))
            x = energies(rng, E)
            jobs.append(Job(f"photon {p}", getattr(S, f"dnde_photon_{p}"), x, E))
            for fam in ("positron", "neutrino"):
                f = getattr(S, f"dnde_{fam}_{p}", None)
                if f is not None:
                    jobs.append(Job(f"{fam} {p}", f, x, E))
        fs = [str(s) for s in rng.choice(["mu", "pi", "pi0", "k", "kl", "ks", "eta", "e", "ve"], int(rng.integers(2, 3)))]
        cme = sum({"mu": 106, "pi": 140, "pi0": 135, "k": 494, "kl": 498, "ks": 498, "eta": 548}.get(s, 1) for s in fs) * float(rng.uniform(1.05, 4))
        x = energies(rng, cme / 2)
        for fam in ("photon", "positron", "neutrino"):
            jobs.append(Job(f"{fam} n-body", getattr(S, f"dnde_{fam}"), x, cme, fs))
        jobs.append(Job("ap fermion", S.dnde_photon_ap_fermion, x, cme**2, 0.511))
        jobs.append(Job("ap scalar", S.dnde_photon_ap_scalar, x, cme**2, 139.57))
        b = float(rng.uniform(0.01, 0.99))
        y = energies(rng, 100.0, 40)
        jobs.append(Job("boost array", S.dnde_boost_array, np.exp(-y / 20), y, b))
        a = float(rng.uniform(5, 50))
        jobs.append(Job("boost function", lambda e, b=b, a=a: S.dnde_boost(lambda t: np.exp(-t / a), e, b, 0.0), y[:6]))
        jobs.append(Job("boost delta", lambda e, b=b, a=a: S.boost_delta_function(e, a, 0.0, b), y))
    return jobs


def mediators(rng, k):
    from hazma.scalar_mediator.scalar_mediator_decay_spectrum import scalar_mediator_decay_spectrum as S
    from hazma.vector_mediator.vector_mediator_decay_spectrum import dnde_decay_v as V
    from hazma.scalar_mediator.scalar_mediator_positron_spec import dnde_decay_s as SP
    from hazma.vector_mediator.vector_mediator_positron_spec import dnde_decay_v as VP
    jobs = []
    for _ in range(k):
        for nm, f, n, tail in (("scalar photon", S, 5, ()), ("vector photon", V, 4, ("total",)), ("scalar positron", SP, 3, ("total",)),
                               ("vector positron", VP, 3, ("total",))):
            m = float(rng.uniform(290, 900))
            E = m * float(1 + 10 ** rng.uniform(-2, 0.5))
            pw = rng.dirichlet(np.ones(n))
            if nm == "scalar photon" and rng.random() < 0.5:
                tail = ([str(s) for s in rng.choice(["mu mu", "pi pi", "g g", "e e g"], 2, replace=False)],)
            if nm == "vector photon" and rng.random() < 0.5:
                tail = (str(rng.choice(["pi pi", "mu mu", "e e g", "pi0 g", "mu mu g", "pi pi g"])),)
            jobs.append(Job(nm, f, energies(rng, E / 2, 8), E, m, pw, *tail))
    return jobs


def models(rng, k):
    jobs = []
    for i in range(k):
        for name in ("ScalarMediator", "HiggsPortal", "HeavyQuark", "VectorMediator", "KineticMixing", "QuarksOnly"):
            o, p = _models.build(name, rng)
            cme = 2 * p["mx"] * float(1 + 10 ** rng.uniform(-4, -0.5))
            x = energies(rng, cme / 2, 6)
            jobs += [Job(f"{name} cs", lambda c, o=o: o.annihilation_cross_sections(c), cme),
                     Job(f"{name} widths", lambda o=o: o.partial_widths()),
                     Job(f"{name} bf", lambda c, o=o: o.annihilation_branching_fractions(c), cme),
                     Job(f"{name} photon", lambda e, c, o=o: o.total_spectrum(e, c), x, cme),
                     Job(f"{name} positron" + (" from mediators" if any(o.annihilation_cross_sections(cme).get(c, 0) for c in ("s s", "v v", "pi0 v")) else ""),
                         lambda e, c, o=o: o.total_positron_spectrum(e, c), x, cme)]
        o, p = _models.build("RHNeutrino", rng)
        x = energies(rng, p["mx"] / 2, 5) if "mx" in p else energies(rng, 100.0, 5)
        jobs += [Job("RHN widths", lambda o=o: {kk: v for kk, v in o.decay_widths().items() if kk in ("e", "ve g", "e k", "e pi", "v pi0")})]
    return jobs


def toys(rng, k):
    from hazma.gamma_ray_parameters import energy_res_egret, egret_diffuse, gc_targets
    from hazma.gamma_ray_parameters import comptel_diffuse
    import hazma.relic_density._thermal_functions as rd
    jobs = []
    tgt = list(gc_targets.values())[0] if isinstance(gc_targets, dict) else gc_targets
    for _ in range(k):
        mx = float(10 ** rng.uniform(0.3, 3))
        o = make_ann(mx, chans(rng, mx, lines=False))
        x = energies(rng, mx, 9)
        jobs += [Job("toy spectra", lambda e, o=o, mx=mx: o.spectra(e, 2.2 * mx), x),
                 Job("toy convolved", lambda e, o=o, mx=mx: o.total_conv_spectrum_fn(1e-2 * mx, mx, 2.1 * mx, energy_res_egret, 300)(e), np.clip(x, 0.011 * mx, 0.99 * mx)),
                 Job("toy cmb", lambda o=o: (o.f_eff(), o.cmb_limit())),
                 Job("toy egret", lambda o=o: o.binned_limit(egret_diffuse)),
                 Job("toy comptel", lambda o=o: o.binned_limit(comptel_diffuse)),
                 Job("dof", lambda T: (rd.sm_dof_entropy(T), rd.sm_sqrt_gstar(T), rd.sm_entropy_density(T), rd.sm_entropy_density_deriv(T)), x)]
        m, g = float(10 ** rng.uniform(0, 3)), float(rng.integers(1, 5))
        for nm in ("neq", "neq_deriv", "yeq", "yeq_deriv"):
            jobs.append(Job(nm, lambda T, nm=nm, m=m, g=g: getattr(rd, nm)(T, m, g, True), m * 10 ** rng.uniform(-2, 1, 6)))
    return jobs


def forms(rng, k):
    from hazma.form_factors import vector as F
    jobs = []
    for _ in range(k):
        for nm in ("PiPi", "Pi0Pi0", "KK", "K0K0", "Pi0Gamma", "EtaGamma", "Pi0Omega", "Pi0Phi", "EtaOmega", "EtaPhi", "PiPiOmega", "Pi0Pi0Omega"):
            ff = getattr(F, "VectorFormFactor" + nm)()
            c = tuple(rng.normal(size=3))
            q = np.sort(rng.uniform(300, 2800, 4))

            def call(a, ff=ff, c=c):
                r = np.asarray(ff.form_factor(q=a, couplings=c), complex)
                return [r.real.copy(), r.imag.copy()]
            jobs.append(Job(nm, call, q))
            if hasattr(ff, "width"):
                jobs.append(Job(nm + " width", lambda m, ff=ff, c=c: ff.width(mv=m, couplings=c), float(q[-1])))
    return jobs


def kinematics(rng, k):
    from hazma import phase_space as P
    from hazma import utils as U
    from hazma.phase_space._two_body import TwoBody
    jobs = []
    for _ in range(k):
        n = int(rng.integers(2, 6))
        ms = list(map(float, rng.uniform(0, 100, n)))
        cme = sum(ms) * float(rng.uniform(1.1, 5)) + 1
        s = int(rng.integers(1, 10**6))
        jobs += [Job("rambo", lambda a, c=cme, s=s: P.Rambo(c, a).generate(200, seed=s), np.array(ms)),
                 Job("rambo list", lambda c=cme, s=s, m=tuple(ms): P.Rambo(c, list(m)).integrate(500, seed=s))]
        j3 = list(map(float, rng.uniform(0, 100, 3)))
        c3 = sum(j3) * 1.7 + 1
        jobs += [Job("3-body", lambda c=c3, m=tuple(j3): P.ThreeBody(c, list(m)).energy_distributions(12)),
                 Job("2-body", lambda c=c3, m=tuple(j3[:2]): TwoBody(c, list(m)).integrate())]
        a, b = rng.normal(size=(4, 9)), rng.normal(size=(4, 9))
        jobs += [Job("ldot", U.ldot, a, b), Job("lnorm_sqr", U.lnorm_sqr, a), Job("kallen", U.kallen_lambda, a[0], b[0], a[1])]
    return jobs


CATALOGUE = dict(spectra=(spectra, 1, 6), mediators=(mediators, 3, 25), models=(models, 1, 8), toys=(toys, 2, 12), forms=(forms, 1, 10),
                 kinematics=(kinematics, 3, 40))


def layouts(rng, a):
    ro = a.copy()
    ro.flags.writeable = False
    wide = np.full(a.shape[:-1] + (2 * a.shape[-1],), np.nan)
    wide[..., ::2] = a
    rev = a[..., ::-1].copy()[..., ::-1]
    return {"readonly": ro, "strided": wide[..., ::2], "reversed view": rev}


def state():
    return (tuple(sorted(np.geterr().items())), len(warnings.filters), tuple(np.get_printoptions()["precision"] for _ in range(1)))


def purity(rec, which):
    rng = rec.rng
    make, q, t = CATALOGUE[which]
    jobs = make(rng, rec.n(q, t))
    g0, s0 = state(), np.random.get_state()[1].copy()
    first = []
    for j in jobs:
        args = j.fresh()
        keep = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        okc, r = rec.guard((j.name, "call"), lambda: j(args))
        if not okc:
            first.append(None)
            continue
        for a, b in zip(args, keep):
            if isinstance(a, np.ndarray):
                rec.ok(np.array_equal(a, b), (j.name, "input changed"), before=b, after=a)
                rec.ok(not any(isinstance(v, np.ndarray) and np.shares_memory(v, a) for v in r), (j.name, "result aliases an input"))
        first.append(snap(r))
        for v in r:                                  # the caller scribbles over what it got
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = -7.0
        rec.count("calls")
    order = list(range(len(jobs))) * 2
    rng.shuffle(order)
    for i in order:                                  # any order, any repetition
        if first[i] is None:
            continue
        r = jobs[i]()
        rec.ok(equal(r, first[i]), (jobs[i].name, "replay differs"), first=first[i], now=r)
        for v in r:
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = np.nan
        rec.count("replays")
    for i, j in enumerate(jobs):
        if first[i] is None:
            continue
        for pos, a in enumerate(j.args):
            if not isinstance(a, np.ndarray):
                continue
            for lay, v in layouts(rng, a).items():
                args = j.fresh()
                args[pos] = v
                okc, r = rec.guard((j.name, lay), lambda: j(args))
                if okc:
                    # other layouts may take other BLAS/SIMD paths: a few ulp
                    same = len(r) == len(first[i]) and all(
                        np.allclose(x, y, rtol=1e-12, atol=1e-13 * (np.max(np.abs(y), initial=0) if np.all(np.isfinite(y)) else 0), equal_nan=True)
                        for x, y in zip(r, first[i]))
                    rec.ok(same, (j.name, lay, "layout changes the result"), first=first[i], now=r)
                    rec.count("layouts")
    rec.ok(state() == g0, ("global numpy/warnings state changed", which), before=g0, after=state())
    if which in ("spectra", "mediators", "forms", "toys"):
        rec.ok(np.array_equal(np.random.get_state()[1], s0), ("global random state consumed by a deterministic call", which))


def threads(rec, which):
    rng = rec.rng
    make, q, t = CATALOGUE["mediators" if which == "positron-tables" else which]
    jobs = make(rng, rec.n(q, t))
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    shared = lambda n: n.endswith("from mediators") or n in ("scalar positron", "vector positron")     # judged by their own task
    jobs = [Raw(j.name, j.f, *j.args) for j in jobs if shared(j.name) == (which == "positron-tables")]
    ref = [snap(j()) for j in jobs]
    sys.setswitchinterval(1e-5)
    nth = 6
    for rnd in range(rec.n(2, 6)):
        got, errs, log = {}, [], []
        start = threading.Barrier(nth)

        def work(w, order):
            start.wait()
            for i in order:
                log.append((w, i))
                try:
                    got[w, i] = snap(jobs[i]())
                except Exception as e:
                    errs.append((w, jobs[i].name, repr(e)))
                log.append((w, ~i))
        ts = []
        for w in range(nth):
            order = list(rng.permutation(len(jobs)))
            ts.append(threading.Thread(target=work, args=(w, order)))
        [x.start() for x in ts]
        [x.join() for x in ts]
        # interleavings observed: calls that began while another thread's call was open
        open_, overlap = {}, 0
        for w, i in log:
            if i >= 0:
                overlap += any(v for u, v in open_.items() if u != w)
                open_[w] = True
            else:
                open_[w] = False
        rec.count("overlapping calls", overlap)
        rec.count("concurrent calls", len(log) // 2)
        rec.ok(not errs, ("threads", "exception"), errors=errs[:5])
        for (w, i), r in got.items():
            rec.ok(equal(r, ref[i]), ("threads", jobs[i].name), serial=ref[i], threaded=r)
    rec.ok(overlap > 0, ("no overlap observed", which))
    sys.setswitchinterval(0.005)


def instances(rec, _):
    """Objects do not share mutable state: changing one leaves its siblings as they were."""
    rng = rec.rng
    for _ in range(rec.n(2, 10)):
        for name in ("ScalarMediator", "HiggsPortal", "HeavyQuark", "VectorMediator", "KineticMixing", "QuarksOnly", "VectorMediatorGeV", "KineticMixingGeV",
                     "BLGeV", "RHNeutrino"):
            p = _models.params(name, rng)
            C = _models.cls(name)
            a = C(**p)

            def probe(o):
                if name == "RHNeutrino":
                    return flat({k: float(getattr(o, f)()) for k, f in (("a", "width_v_g"), ("b", "width_l_pi")) if hasattr(o, f)}) + [o.mx, o.theta]
                f = "partial_widths" if hasattr(o, "partial_widths") else "decay_widths"
                if name in _models.SLOW:
                    return flat({k: getattr(o, k)() for k in ("width_v_to_e_e", "width_v_to_pi_pi", "width_v_to_x_x") if hasattr(o, k)}) + [o.mx, o.mv]
                return flat(getattr(o, f)()) + flat(o.annihilation_cross_sections(3.0 * o.mx))
            base = snap(probe(a))
            b = C(**p)
            q = _models.params(name, rng)
            c = C(**q)
            qc = snap(probe(c))
            probe(b)
            for k in ("mx", "ms", "mv", "theta", "eps"):
                if k in p and hasattr(b, k):
                    try:
                        setattr(b, k, p[k] * float(rng.uniform(1.05, 1.6)))
                    except Exception:
                        pass
            for k in ("gsxx", "gvxx"):
                if k in p:
                    setattr(b, k, -p[k])
            probe(b)
            rec.ok(equal(probe(a), base), (name, "sibling changed by another object's setters"), params=p)
            rec.ok(equal(probe(c), qc), (name, "sibling changed"), params=q)
            rec.ok(equal(probe(C(**p)), base), (name, "new object remembers another"), params=p)
            rec.count("instances", 4)


def retained(rec, _):
    """Phase-space objects keep the values they were built from when the caller reuses the arrays."""
    from hazma import phase_space as P
    from hazma.phase_space import _two_body
    rng = rec.rng
    for _ in range(rec.n(12, 120)):
        n = int(rng.integers(2, 5))
        ms = rng.uniform(1.0, 300.0, n)
        cme = float(ms.sum() * rng.uniform(1.2, 4.0))
        edges = np.sort(rng.uniform(1.0, 50.0, int(rng.integers(4, 12))))
        wt = rng.uniform(0.1, 2.0, len(edges) - 1)
        at = float(rng.uniform(edges[0], edges[-1]))
        built = {
            "distribution": ((edges, wt), lambda e, w: P.PhaseSpaceDistribution1D(e, w),
                             lambda d: [np.array(d.bins), np.array(d.probabilities), np.array(d.bin_centers), *map(float, d.limits()), float(d(at)),
                                        float(d.expect(lambda x: x))]),
            "rambo": ((ms,), lambda m: P.Rambo(cme, m), lambda r: list(r.generate(20, seed=5)) + [r.integrate(60, seed=4)[0]]),
        }
        if n == 3:
            built["three-body"] = ((ms,), lambda m: P.ThreeBody(cme, m), lambda r: [r.integrate()[0], *[np.array(d.probabilities) for d in r.energy_distributions(6)]])
        if n == 2:
            built["two-body"] = ((ms,), lambda m: _two_body.TwoBody(cme, m), lambda r: [r.integrate()[0]])
        for what, (arrays, make, look) in built.items():
            want = look(make(*[a.copy() for a in arrays]))
            mine = [a.copy() for a in arrays]
            okc, o = rec.guard((what, "built"), lambda: make(*mine))
            if not okc:
                continue
            late = bool(rng.random() < 0.5)
            if late:
                look(o)
            for a in mine:
                a[...] = 1e-3
            okc, got = rec.guard((what, "retained"), lambda: look(o))
            if okc:
                rec.ok(equal(got, want), (what, "follows the caller's array"), want=want, now=got, used_before=late)
            rec.count("retained")


def types(rec, which):
    """Whole numbers mean the same whatever type carries them: another type is refused or gives the same answer."""
    rng = rec.rng
    make, q, t = CATALOGUE[which]
    for _ in range(rec.n(1, 3)):
        for j in make(rng, rec.n(q, t)):
            whole = [np.ceil(np.abs(a)) * np.where(a < 0, -1.0, 1.0) if isinstance(a, np.ndarray) else
                     float(np.ceil(a)) if isinstance(a, float) and a > 1 else a for a in j.args]
            if all(a is b for a, b in zip(whole, j.args)):
                continue

            def alike(kind):
                out = []
                for a, w in zip(j.args, whole):
                    if isinstance(w, np.ndarray):
                        out.append({"int": w.astype(np.int64), "int32": w.astype(np.int32), "float32": w.astype(np.float32)}[kind])
                    elif isinstance(w, float) and w is not a:
                        out.append({"int": int(w), "int32": np.int32(w), "float32": np.float32(w)}[kind])
                    else:
                        out.append(w)
                return out
            try:
                want = j([w.copy() if isinstance(w, np.ndarray) else w for w in whole])
            except Exception:
                rec.count("refused as floats")
                continue
            want = snap(want)
            for kind in ("int", "int32", "float32"):
                try:
                    got = j(alike(kind))
                except Exception:
                    rec.count("refused " + kind)
                    continue
                rec.count("accepted " + kind)
                tol = 1e-11 if kind != "float32" else 2e-3
                for a, b in zip(got, want):
                    a, b = np.asarray(a, float), np.asarray(b, float)
                    top = np.nanmax(np.abs(b), initial=0.0)
                    rec.ok(a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=1e-3 * tol * top if kind != "float32" else tol * top, equal_nan=True),
                           (j.name, "depends on the type of a number"), kind=kind, floats=b, other=a)


def tasks(ck):
    out = [(f"pure-{k}", purity, k) for k in CATALOGUE]
    out += [(f"threads-{k}", threads, k) for k in ("spectra", "mediators", "positron-tables", "models", "forms", "kinematics")]
    out += [(f"types-{k}", types, k) for k in CATALOGUE]
    return out + [("instances", instances, None), ("retained", retained, None)]
