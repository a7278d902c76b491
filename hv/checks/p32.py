"""A batch of energies gives every energy's own answer: scalars, lists, integers, views, permutations and splits agree, for the composed Python API."""
import numpy as np

from . import _models

PROPERTY = "P32"
NATIVE = "all"
RULE = ("one spelling of a batch (scalar, one-element, list, tuple, integer, reversed, strided, split, repeated, empty, read-only) of one function of one model per event, "
        "judged against the same function's answer on the plain batch; non-trivial = some non-zero element")
ASSUME = ["single-particle spectra and native entry points are judged by P13-P15 and P23; this check covers the functions composed from them"]

# spellings the documentation does not promise: an exception is a refusal, a different number is not
REFUSABLE = {"list", "tuple", "integers", "integer list", "integer", "empty"}


def close(a, b, rtol, atol):
    with np.errstate(all="ignore"):
        return a.shape == b.shape and bool(np.all((np.abs(a - b) <= atol + rtol * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))))


def judge(rec, label, f, x, rtol=1e-9, ints=True, empty=True, scalars=3, scale=0.0, few=False, arrays=False, **tag):
    """f: energies -> array with the batch along the last axis.  few: only the cheapest telling spellings."""
    rng = rec.rng
    x = np.asarray(x, float)
    good, base = rec.guard((label, "batch"), lambda: f(x.copy()), x=x, **tag)
    if not good:
        return
    base = np.asarray(base, float)
    if not rec.ok(base.shape[-1:] == x.shape, (label, "shape"), shape=base.shape, n=x.size, **tag):
        return
    at = scale * float(np.nanmax(np.abs(base))) if base.size and np.any(np.isfinite(base)) else 0.0
    live = bool(np.any(base != 0))

    def form(name, arg, want, sel=None, ref=None):
        if name in REFUSABLE or (arrays and "scalar" in name):
            try:
                v = f(arg)
            except (TypeError, ValueError, AttributeError):
                rec.count("refused: " + name)
                return
        else:
            good, v = rec.guard((label, name), lambda: f(arg), arg=repr(arg)[:200], **tag)
            if not good:
                return
        v = np.asarray(v, float)
        if v.shape == want.shape + (1,) and name in ("scalar", "numpy scalar", "integer"):
            v = v[..., 0]           # documented to return an array
        rec.seen((label, name, tuple(tag.items()), repr(x[:3])), nontrivial=live)
        rec.count(name)
        if not close(v, want, rtol, at):
            rec.fail((label, name), arg=repr(arg)[:300], value=v, batch=want, tol=rtol, **tag)

    for i in rng.permutation(x.size)[:scalars]:
        form("scalar", float(x[i]), base[..., i])
    i = int(rng.integers(0, x.size))
    form("numpy scalar", np.float64(x[i]), base[..., i])
    form("one element", x[i:i + 1], base[..., i:i + 1])
    if few:
        form("reversed view", x[::-1], base[..., ::-1])
        return
    form("list", x.tolist(), base)
    form("tuple", tuple(x.tolist()), base)
    form("reversed view", x[::-1], base[..., ::-1])
    wide = np.empty(2 * x.size)
    wide[::2], wide[1::2] = x, np.nan
    form("strided view", wide[::2], base)
    p = rng.permutation(x.size)
    form("permuted", x[p], base[..., p])
    q = rng.integers(0, x.size, x.size + 3)
    form("repeated", x[q], base[..., q])
    k = int(rng.integers(1, x.size)) if x.size > 1 else 1
    form("head", x[:k], base[..., :k])
    form("tail", x[k - 1:], base[..., k - 1:])
    ro = x.copy()
    ro.setflags(write=False)
    form("read-only", ro, base)
    form("column of 2-D", np.stack([x, x], 1)[:, 0], base)
    if empty:
        form("empty", x[:0], base[..., :0])
    if ints:
        xi = np.unique(np.clip(np.rint(x), 1, None)).astype(int)
        good, w = rec.guard((label, "integral floats"), lambda: f(xi.astype(float)), **tag)
        if good:
            w = np.asarray(w, float)
            form("integers", xi, w)
            form("integer list", xi.tolist(), w)
            j = int(rng.integers(0, xi.size))
            form("integer", int(xi[j]), w[..., j])


def grid(rng, top, n=7, lo=1e-3):
    x = top * 10 ** rng.uniform(np.log10(lo), 0.0, n)
    return np.concatenate([x, [top * float(rng.uniform(1.0, 1.3))]]) if rng.random() < 0.5 else x


def dark(rec, name):
    """Spectra, totals, fractions and cross sections of an annihilating model."""
    _models.pin_mc()
    rng = rec.rng
    slow = name in _models.SLOW
    for _ in range(rec.n(3 if slow else 14, 12 if slow else 120)):
        m, p = _models.build(name, rng)
        e_cm = 2 * m.mx * float(10 ** rng.uniform(0.001, 0.3))
        if slow:
            e_cm = min(e_cm, float(rng.uniform(500, 1300)))
        med = getattr(m, "ms", None) or getattr(m, "mv", 0.0)
        if med > 2 * m.mx and rng.random() < 0.5:
            e_cm = med
        if e_cm <= 2 * m.mx:
            e_cm = 2.02 * m.mx
        x = grid(rng, e_cm / 2)
        heavy = {"v v", "pi pi pi pi", "pi pi pi0 pi0", "pi pi pi0", "pi0 k0 k0", "pi0 k k", "pi k k0"}
        for prod, fns in (("photon", m.spectrum_funcs()), ("positron", m.positron_spectrum_funcs())):
            keys = list(fns)
            if slow:
                keys = list(rng.permutation(keys)[:7])
            for k in keys:
                if slow and k in heavy and rng.random() < 0.7:
                    continue
                judge(rec, f"{name}:{prod}:{k}", lambda es, g=fns[k]: g(es, e_cm), x, rtol=1e-3 if slow and k == "v v" else 1e-7, scale=1e-10, **p, e_cm=e_cm)
        if not slow:
            for prod, fns in (("photon", m.spectrum_funcs()), ("positron", m.positron_spectrum_funcs())):
                for k, g in fns.items():            # no energies, no values: not an error either
                    good, v = rec.guard((name, prod, "empty grid"), lambda: g(x[:0], e_cm), channel=k)
                    if good:
                        rec.ok(np.shape(v) == (0,), (name, prod, "empty grid shape"), channel=k, shape=np.shape(v))
            judge(rec, f"{name}:photon:total", lambda es: m.total_spectrum(es, e_cm), x, rtol=1e-7, scale=1e-10, **p, e_cm=e_cm)
            judge(rec, f"{name}:positron:total", lambda es: m.total_positron_spectrum(es, e_cm), x, rtol=1e-7, scale=1e-10, **p, e_cm=e_cm)
        else:
            fl = str(rng.choice(["e", "mu", "tau"]))
            fns = m.neutrino_spectrum_funcs(fl)
            for k in rng.permutation(list(fns))[:6]:
                if k in heavy and rng.random() < 0.7:
                    continue
                judge(rec, f"{name}:neutrino:{k}", lambda es, g=fns[k]: g(es, e_cm), x, rtol=1e-3 if k == "v v" else 1e-7, scale=1e-10, **p, e_cm=e_cm, flavor=fl)
        cm = np.concatenate([2 * m.mx * 10 ** rng.uniform(0.001, 0.4, 5), [m.mx, 2 * m.mx * 0.999]])
        if slow:
            cm = np.minimum(cm, 2500.0)
        for k, g in m.annihilation_cross_section_funcs().items():
            if slow and (k in heavy or rng.random() < 0.5):
                continue
            judge(rec, f"{name}:cross section:{k}", g, cm, rtol=1e-9, **p)
        rec.count("models")


def rhn(rec, _):
    """Right-handed neutrino: every product and channel."""
    _models.pin_mc()
    rng = rec.rng
    for _ in range(rec.n(4, 24)):
        m, p = _models.build("RHNeutrino", rng)
        x = grid(rng, m.mx / 2)
        for prod, fns in (("photon", m.spectrum_funcs()), ("positron", m.positron_spectrum_funcs())):
            for k in rng.permutation(list(fns))[:8]:
                judge(rec, f"RHN:{prod}:{k}", fns[k], x, rtol=1e-7, scale=1e-10, **p)
        for k, g in list(m._neutrino_spectrum_funcs().items()) if hasattr(m, "_neutrino_spectrum_funcs") else []:
            if rng.random() < 0.4:
                judge(rec, f"RHN:neutrino:{k}", g, x, rtol=1e-7, scale=1e-10, **p)
        rec.count("models")


def shipped(rec, _):
    """Single-channel models: annihilation and decay."""
    from hazma.single_channel import SingleChannelAnn, SingleChannelDec
    from hazma.parameters import standard_model_masses as M
    rng = rec.rng
    fs = ["e e", "mu mu", "pi pi", "pi0 pi0", "k k", "kl ks", "pi0 a", "eta a", "rho pi", "omega pi0", "e mu", "mu pi"]
    for f in fs[: rec.n(12, 12)]:
        for _ in range(rec.n(1, 8)):
            thr = sum(M[k] for k in f.split())
            mx = max(thr / 2, 100.0) * float(rng.uniform(1.01, 10))
            m2 = thr * float(rng.uniform(1.01, 10))
            a, d = SingleChannelAnn(mx, f, 1.0), SingleChannelDec(m2, f, 1.0)
            e = 2 * mx * float(rng.uniform(1.0001, 1.2))
            x, y = grid(rng, mx), grid(rng, m2 / 2)
            judge(rec, f"single:{f}:photon", lambda es: a.total_spectrum(es, e), x, rtol=1e-7, mx=mx, e_cm=e)
            judge(rec, f"single:{f}:positron", lambda es: a.total_positron_spectrum(es, e), x, rtol=1e-7, mx=mx, e_cm=e)
            judge(rec, f"single:{f}:dec:photon", d.total_spectrum, y, rtol=1e-7, mx=m2)
            judge(rec, f"single:{f}:dec:positron", d.total_positron_spectrum, y, rtol=1e-7, mx=m2)
    rec.count("models")


def factors(rec, name):
    """Form factors: amplitude (two-body), integral, width, cross section."""
    import hazma.form_factors.vector as V
    _models.pin_mc()
    rng = rec.rng
    f = getattr(V, name)()
    th = float(sum(f.fsp_masses))
    n = len(f.fsp_masses)
    dear = name in ("VectorFormFactorPi0K0K0", "VectorFormFactorPi0KpKm", "VectorFormFactorPiKK0") or n == 4
    opt = dict(rtol=1e-7, few=True, scalars=1) if dear else dict(rtol=1e-7)
    for _ in range(rec.n(1 if dear else 3 if n > 2 else 10, 8 if dear else 20 if n > 2 else 100)):
        c = tuple(float(v) for v in rng.normal(size=3))
        q = np.concatenate([th + 10 ** rng.uniform(-1, 3.3, 2 if dear else 4), [0.97 * th, 0.5 * th]])
        kw = dict(couplings=c)
        if n == 4:
            kw["npts"] = 200
        tag = dict(form_factor=name, c=c)
        judge(rec, f"ff:{name}:integral", lambda v: f.integrated_form_factor(q=v, **kw), q, **opt, **tag)
        judge(rec, f"ff:{name}:width", lambda v: f.width(mv=v, **kw), q, **opt, **tag)
        k = dict(mx=float(rng.uniform(1, 0.45 * th)), mv=float(10 ** rng.uniform(1, 3.7)), gvxx=float(rng.normal()), wv=float(10 ** rng.uniform(-3, 2)))
        judge(rec, f"ff:{name}:cross section", lambda v: f.cross_section(q=v, **k, **kw), q[:-1], **opt, **tag, **k)
        if n == 2:
            for part in (np.real, np.imag):
                judge(rec, f"ff:{name}:amplitude", lambda v: part(np.asarray(f.form_factor(q=v, couplings=c))), q[:4], rtol=1e-9, scale=1e-12, **tag)
    rec.count("form factors")


def instruments(rec, _):
    """Backgrounds, effective areas, energy resolutions, thermal functions, boosts, converted units."""
    import hazma.gamma_ray_parameters as G
    import hazma.parameters as P
    from hazma.relic_density import _thermal_functions as T
    from hazma import spectra as S
    rng = rec.rng
    for nm in [n for n in dir(G) if n.startswith("effective_area_")]:
        f = getattr(G, nm)
        if not callable(f):
            continue
        g = getattr(f, "x", None)
        lo, hi = (float(g[0]), float(g[-1])) if g is not None else (0.2, 1e4)
        x = 10 ** rng.uniform(np.log10(lo * 1.001), np.log10(hi * 0.999), 7)
        judge(rec, nm, f, x, ints=lo < 1 and hi > 1e3)
    for nm in [n for n in dir(G) if n.startswith("energy_res_")]:
        f = getattr(G, nm)
        if callable(f):
            judge(rec, nm, f, 10 ** rng.uniform(-1, 4, 8), ints=True, empty=False)
    for nm, b in ((n, getattr(G, n)) for n in dir(G) if n.endswith("bg_model") or n.endswith("background_model")):
        if callable(getattr(b, "dPhi_dEdOmega", None)) and not isinstance(b, type):
            lo, hi = b.e_range if hasattr(b, "e_range") else b.e_bounds
            lo, hi = max(lo, 1e-3), min(hi, 1e5)
            judge(rec, f"background:{nm}", b.dPhi_dEdOmega, 10 ** rng.uniform(np.log10(lo * 1.01), np.log10(hi * 0.99), 7), ints=False)
    for b in (G.GalacticCenterBackgroundModel(), G.GeccoBackgroundModel()):
        x = 10 ** rng.uniform(-0.5, 3.5, 7)
        judge(rec, f"background:{type(b).__name__}", b.dPhi_dEdOmega, x)
        for k in b.derivatives(10.0):
            judge(rec, f"background:{type(b).__name__}:d{k}", lambda e, k=k: b.derivatives(e)[k], x)
    m = float(10 ** rng.uniform(0, 4))
    x = m * 10 ** rng.uniform(-1.5, 1.5, 7)
    for nm in ("sm_dof_entropy", "sm_sqrt_gstar", "sm_entropy_density", "sm_entropy_density_deriv"):
        judge(rec, nm, getattr(T, nm), x)
    for nm in ("neq", "neq_deriv", "yeq", "yeq_deriv"):
        for fm in (True, False):
            judge(rec, nm, lambda t: getattr(T, nm)(t, m, 2.0, fm), x, mass=m, fermion=fm)
    for _ in range(rec.n(3, 30)):
        e0, mm, b = float(10 ** rng.uniform(1, 3)), float(rng.choice([0.0, 0.511, 5.0])), float(rng.uniform(0.01, 0.99))
        y = e0 * 10 ** rng.uniform(-1, 1, 8)
        judge(rec, "boost_delta_function", lambda e: S.boost_delta_function(e, e0, mm, b), y, e0=e0, m=mm, beta=b)
        judge(rec, "double_boost_delta_function", lambda e: S.double_boost_delta_function(e, e0, mm, b, 0.4), y, e0=e0, m=mm, beta=b)
        f = lambda e: np.where((e > mm) & (e < e0), np.exp(-e / e0) * np.maximum(e - mm, 0), 0.0)
        bf = S.make_boost_function(f, mm)
        z = np.maximum(y, 1.01 * mm)
        for meth in ("quad", "simps", "trapz"):
            # documented for arrays; a scalar is judged as a refusable spelling
            judge(rec, f"boosted:{meth}", lambda e: bf(e, b, method=meth), z, scalars=0, empty=False, arrays=True, e0=e0, m=mm, beta=b)
        for nm in ("dnde_photon_ap_fermion", "dnde_photon_ap_scalar"):
            judge(rec, nm, lambda e: getattr(S, nm)(e, (4 * e0) ** 2, 0.3 * e0), y, e0=e0)
    for w in (1.0, 3.0):
        res = lambda e: 0.02 * w + 0.0 * e
        for k in range(rec.n(2, 10)):
            mx = float(10 ** rng.uniform(1, 3))
            from hazma.single_channel import SingleChannelAnn
            from hazma.spectra import dnde_photon
            a = SingleChannelAnn(max(mx, 150.0), "mu mu", 1.0)
            sp = a.total_conv_spectrum_fn(1.0, 2 * a.mx, 2.0001 * a.mx, res, 200)
            judge(rec, "smeared spectrum", sp, 10 ** rng.uniform(0.01, np.log10(1.9 * a.mx), 7), mx=mx)


def nbody(rec, _):
    """Many-body spectra with final-state radiation, for every product."""
    from hazma import spectra as S
    _models.pin_mc()
    rng = rec.rng
    names = ["e", "mu", "pi", "pi0", "k", "kl", "ks", "eta", "etap", "omega", "rho", "rho0", "phi", "ve", "vm", "vt", "a"]
    M = __import__("hazma.parameters", fromlist=["x"]).standard_model_masses
    names = [n for n in names if n in M]
    for _ in range(rec.n(14, 150)):
        k = int(rng.choice([1, 2, 2, 3, 4]))
        fs = [str(v) for v in rng.choice(names, k)]
        if k == 1:
            fs = fs * 2
        top = sum(M[f] for f in fs)
        cme = max(top, 1.0) * float(rng.uniform(1.02, 3.0))
        x = grid(rng, cme / 2, n=5)
        kw = dict(nbins=5) if len(fs) > 2 else {}
        if len(fs) > 3:
            kw["npts"] = 300
        s = " ".join(fs)
        big = len(fs)
        opts = [("photon", lambda e: S.dnde_photon(e, cme, fs, **kw)), ("positron", lambda e: S.dnde_positron(e, cme, fs, **kw))]
        opts += [("neutrino", lambda e: S.dnde_neutrino(e, cme, fs, **kw))]
        fl = str(rng.choice(["e", "mu", "tau"]))
        opts += [("neutrino flavor", lambda e: S.dnde_neutrino(e, cme, fs, flavor=fl, **kw))]
        for prod, g in opts:
            judge(rec, f"nbody:{big}:{prod}", g, x, rtol=1e-7, scale=1e-10, states=s, cme=cme)


def tasks(ck):
    import hazma.form_factors.vector as V
    t = [(f"model-{n}", dark, n) for n in _models.NAMES if n != "RHNeutrino"]
    t += [("rhn", rhn, None), ("single", shipped, None), ("instruments", instruments, None), ("nbody", nbody, None)]
    return t + [(f"ff-{n[16:]}", factors, n) for n in V.__all__ if n.startswith("VectorFormFactor") and n != "VectorFormFactorCouplings"]
