"""GeV vector mediator: widths, cross sections, spectra, lines and setter histories."""
import numpy as np
from . import _amp as A
from . import _models
from . import p17

PROPERTY = "P20"
RULE = ("one judged width, cross section, spectrum or line per event: random masses, couplings, energies, every channel and product, random setter "
        "histories; oracle = crossing of widths and cross sections, explicit Dirac traces for leptonic and two-mediator channels, decay spectra "
        "of the particles identified by the mass at the lower edge of each form-factor energy distribution, an independent boost integral, "
        "energy balance over photons, leptons and neutrinos, fresh models; non-trivial = an open channel with a non-zero value")
ASSUME = ["hadronic form factors and their phase-space distributions are judged by P15 and P22, single-particle decay spectra by P08-P14"]
NATIVE = "all"

LEPTONS = {"e e": "gvee", "mu mu": "gvmumu", "ve ve": "gvveve", "vm vm": "gvvmvm", "vt vt": "gvvtvt"}
TWO = {"pi pi": ("pi", "pi"), "k k": ("k", "k"), "k0 k0": ("kl", "ks"), "pi0 gamma": ("pi0", None), "eta gamma": ("eta", None),
       "pi0 phi": ("pi0", "phi"), "eta phi": ("eta", "phi"), "eta omega": ("eta", "omega")}
THREE = {"pi pi pi0": "pi_pi_pi0", "pi pi eta": "pi_pi_eta", "pi pi etap": "pi_pi_etap", "pi pi omega": "pi_pi_omega", "pi0 pi0 omega": "pi0_pi0_omega",
         "pi0 k0 k0": "pi0_k0_k0", "pi0 k k": "pi0_k_k", "pi k k0": "pi_k_k0"}
FOUR = {"pi pi pi pi": "pi_pi_pi_pi", "pi pi pi0 pi0": "pi_pi_pi0_pi0"}
HADRONS = list(TWO) + ["pi0 pi0 gamma"] + list(THREE) + list(FOUR)
ALL = list(LEPTONS) + HADRONS
NP = {"pi pi pi0", "pi0 k0 k0", "pi0 k k", "pi k k0"} | set(FOUR)
FSR1 = {"e e": ("e", 1), "mu mu": ("mu", 1), "pi pi": ("pi", 1), "k k": ("k", 1)}
NAMES = ("gvuu", "gvdd", "gvss", "gvee", "gvmumu", "gvveve", "gvvmvm", "gvvtvt")


def par():
    import hazma.parameters as P
    return P


def sm():
    P = par()
    d = dict(P.standard_model_masses)
    return d


def thr(key, mx=None, mv=None):
    m = {"e": "e", "mu": "mu", "pi": "pi", "pi0": "pi0", "k": "k", "k0": "k0", "eta": "eta", "etap": "etap", "omega": "omega", "phi": "phi"}
    if key == "pi0 pi0 gamma":
        return sm()["pi0"] + sm()["omega"]
    M = sm()
    k0 = M.get("k0", M.get("kl"))
    return sum({"ve": 0.0, "vm": 0.0, "vt": 0.0, "gamma": 0.0, "k0": k0, "x": mx, "v": mv}.get(w) if w in ("ve", "vm", "vt", "gamma", "k0", "x", "v")
               else M[m[w]] for w in key.split())


def couplings(rng, small=False):
    c = lambda: 0.0 if rng.random() < 0.07 else float(10 ** rng.uniform(-4, -0.3) * rng.choice([-1, 1]))
    return {n: c() for n in NAMES}


def sample(rng, lo=1.0, hi=3500.0):
    from hazma.vector_mediator import VectorMediatorGeV, KineticMixingGeV, BLGeV
    P = par()
    mv = float(10 ** rng.uniform(np.log10(lo), np.log10(hi)))
    mx = float(10 ** rng.uniform(0.0, 3.3)) if rng.random() < 0.6 else 0.5 * mv * float(rng.uniform(0.5, 1.5))
    gx = float(10 ** rng.uniform(-4, 0) * rng.choice([-1, 1]))
    k = rng.integers(0, 4)
    if k == 0:
        eps = float(10 ** rng.uniform(-5, 0) * rng.choice([-1, 1]))
        m = KineticMixingGeV(mx, mv, gx, eps)
        e = -eps * np.sqrt(4 * np.pi * P.alpha_em)
        g = dict.fromkeys(NAMES, 0.0) | dict(gvuu=2 * e / 3, gvdd=-e / 3, gvss=-e / 3, gvee=-e, gvmumu=-e)
    elif k == 1:
        b = float(10 ** rng.uniform(-5, 0) * rng.choice([-1, 1]))
        m = BLGeV(mx, mv, gx, b)
        g = {n: (b / 3 if n in ("gvuu", "gvdd", "gvss") else -b) for n in NAMES}
    else:
        g = couplings(rng)
        m = VectorMediatorGeV(mx, mv, gx, **g)
    return m, dict(g, mx=mx, mv=mv, gvxx=gx)


def general(p, **over):
    from hazma.vector_mediator import VectorMediatorGeV
    return VectorMediatorGeV(**{**p, **over})


def lepton_mass(ch):
    return {"e e": par().electron_mass, "mu mu": par().muon_mass}.get(ch, 0.0)


def ff_trace(g, m, q, chiral):
    """V -> f fbar width from the spin-summed trace (neutrinos: one helicity)."""
    if q <= 2 * m:
        return 0.0
    e, k = q / 2, np.sqrt(q * q / 4 - m * m)
    p1, p2 = np.array([[e, 0, 0, k]]), np.array([[e, 0, 0, -k]])
    tot = 0.0
    for i in range(4):
        for j in range(4):
            pol = -A.METRIC[i, j] + (q * q if i == j == 0 else 0.0) / (q * q)
            if pol:
                tot += pol * np.real(A.trace(A.slash(p1) + m * A.ONE, A.G[i], A.slash(p2) - m * A.ONE, A.G[j])[0])
    return g * g * tot / 3 * k / (8 * np.pi * q * q) * (0.5 if chiral else 1.0)


def width_fn(m, ch):
    return getattr(m, "width_v_to_" + ch.replace(" ", "_"))


def widths(rec, _):
    _models.pin_mc()
    rng = rec.rng
    for _ in range(rec.n(10, 90)):
        m, p = sample(rng)
        for k, v in p.items():
            rec.close(float(getattr(m, k)), v, "coupling:" + k, rtol=1e-9, model=type(m).__name__)
        w = m.partial_widths(npts=1000)
        rec.ok(set(w) == set(ALL) | {"x x"}, "width:keys", keys=sorted(w))
        for ch in list(LEPTONS) + ["x x"]:
            g, mass = (p["gvxx"], p["mx"]) if ch == "x x" else (p[LEPTONS[ch]], lepton_mass(ch))
            if abs(p["mv"] - 2 * mass) > 1e-7 * p["mv"]:
                rec.close(float(w[ch]), ff_trace(g, mass, p["mv"], ch[0] == "v"), "width:" + ch, rtol=1e-7, **p)
        for ch in ALL:
            v = w[ch]
            rec.ok(np.ndim(v) == 0 and np.isfinite(v) and v >= 0, "width:sane", ch=ch, value=v, **p)
            if p["mv"] < thr(ch):
                rec.ok(v == 0, "width:closed", ch=ch, value=v, **p)
        # the same width read off the form factors themselves
        cp = (p["gvuu"], p["gvdd"], p["gvss"])
        ch = str(rng.choice([c for c in TWO] + [c for c in THREE if c not in NP]))
        ff = getattr(m, "_ff_" + ch.replace(" ", "_"))
        rec.close(float(w[ch]), float(ff.width(mv=p["mv"], couplings=cp)), "width:form-factor", rtol=1e-9, atol=1e-300, ch=ch, **p)
        po = float(m._ff_pi0_omega.width(mv=p["mv"], couplings=cp))
        rec.ok(0.08 * po <= w["pi0 pi0 gamma"] <= 0.09 * po, "width:pi0 pi0 gamma", value=w["pi0 pi0 gamma"], via_omega=po, **p)
        if p["mv"] > 1200 and rng.random() < 0.7:
            continue
        tot = m.width_v()
        rec.close(float(tot), float(sum(m.partial_widths().values())), "width:total", rtol=1e-12)
        # hadronic widths are quadratic in the quark couplings
        if type(m).__name__ == "VectorMediatorGeV":
            t = float(rng.uniform(0.2, 3))
            n = general({**p, "gvuu": t * p["gvuu"], "gvdd": t * p["gvdd"], "gvss": t * p["gvss"]})
            wn = n.partial_widths(npts=1000)
            for ch in HADRONS:
                rec.close(float(wn[ch]), t * t * float(w[ch]), "width:quadratic", rtol=1e-8, atol=1e-300, ch=ch, scale=t, **p)


def annihilation(rec, _):
    _models.pin_mc()
    rng = rec.rng
    for _ in range(rec.n(3, 30)):
        m, p = sample(rng, 1.0, 3500.0 if rng.random() < 0.2 else 1100.0)   # the Monte-Carlo channels above make every query seconds long
        mx, mv, gx = p["mx"], p["mv"], p["gvxx"]
        w = float(m.width_v())
        fns = m.annihilation_cross_section_funcs()
        rec.ok(set(fns) == set(ALL) | {"v v"} == set(m.list_annihilation_final_states()), "xs:keys", keys=sorted(fns))
        t0 = 2 * mx
        es = np.sort(np.concatenate([t0 * 10 ** rng.uniform(0, 0.7, 2), [t0 * (1 + 10 ** rng.uniform(-5, -1))],
                                     [mv * (1 + rng.normal() * 10 ** rng.uniform(-3, -1))] if mv > t0 else [], [float(rng.uniform(300, 3500))]]))
        es = es[(es > t0) & (es < 6000)]
        if len(es) == 0:
            continue
        e = float(rng.choice(es))
        at = general(p, mv=e)                                  # widths of a mediator of mass sqrt(s)
        s = e * e
        bx = np.sqrt((e - t0) * (e + t0)) / e
        cross = gx * gx * (s + 2 * mx * mx) / bx / e / ((s - mv * mv)**2 + (mv * w)**2)
        rt = 1e-6 + 4e-15 * s / max(abs(e - mv) * mv, mv * w, 1e-300)
        for ch in ALL:
            kw = dict(npts=4000) if ch in NP else {}
            if ch in NP and rng.random() < 0.7:
                continue
            good, v = rec.guard("xs:raises", lambda: fns[ch](e, **kw), ch=ch, energy=e, **p)
            if not good:
                continue
            wd = float(width_fn(at, ch)(**kw))
            rec.ok(np.ndim(v) == 0 and np.isfinite(v) and v >= 0, "xs:sane", ch=ch, energy=e, value=v, **p)
            rec.close(float(v), cross * wd, "xs:" + ch, rtol=rt, atol=1e-300, energy=e, **p)
            if ch in LEPTONS or ch in TWO:
                arr = np.asarray(fns[ch](es))
                rec.close(arr[list(es).index(e)], float(v), "xs:scalar-vs-array", rtol=1e-12, ch=ch, energy=e, **p)
                lst = np.asarray(fns[ch](list(es))) if ch in LEPTONS else arr
                rec.ok(np.array_equal(arr, lst), "xs:list", ch=ch)
                cl = thr(ch)
                for q, a in zip(es, arr):
                    if q < cl:
                        rec.ok(a == 0, "xs:closed", ch=ch, energy=q, value=a, **p)
        # leptonic channels from explicit traces
        ch = str(rng.choice(["e e", "mu mu"]))
        mf, g = lepton_mass(ch), p[LEPTONS[ch]]
        if e > 2 * mf * 1.001:
            def msq(p1, p2, p3, p4):
                d = (s - mv * mv)**2 + (mv * w)**2
                tot = 0
                for i in range(4):
                    for j in range(4):
                        k = A.METRIC[i, i] * A.METRIC[j, j]
                        tot = tot + k * A.trace(A.slash(p2) - mx * A.ONE, A.G[i], A.slash(p1) + mx * A.ONE, A.G[j]) * \
                            A.trace(A.slash(p3) + mf * A.ONE, A.G[i], A.slash(p4) - mf * A.ONE, A.G[j])
                return (gx * g)**2 * np.real(tot) / d
            if e > t0 * 1.0005:
                rec.close(float(fns[ch](e)), A.sigma(s, mx, mx, mf, mf, msq), "xs:trace:" + ch, rtol=max(rt, 1e-5), energy=e, **p)
        # dark matter that the collision energy cannot supply annihilates into nothing, alone or inside a batch
        low = t0 * np.sort(rng.uniform(0.2, 1 - 1e-9, 2))
        for ch in fns:
            if ch in NP and rng.random() < 0.8:
                continue
            kw = dict(npts=4000) if ch in NP else {}
            good, v = rec.guard("xs:below-raises", lambda: [float(fns[ch](float(q), **kw)) for q in low], ch=ch, energy=low, **p)
            if good:
                rec.ok(v == [0.0, 0.0], "xs:below dark matter threshold", ch=ch, energy=low, value=v, **p)
            if ch in LEPTONS or ch in TWO or ch == "v v":
                mix = np.concatenate([low, [e]])
                good, v = rec.guard("xs:below-batch-raises", lambda: np.asarray(fns[ch](mix), float), ch=ch, energy=mix, **p)
                if good:
                    rec.close(v, [0.0, 0.0, float(fns[ch](e))], "xs:below in a batch", rtol=1e-12, ch=ch, energy=mix, **p)
        # whole-number energies, of either type
        n0 = int(np.ceil(max(t0, 2 * mv))) + int(rng.integers(1, 400))
        for ch in fns:
            if ch in NP:
                continue
            a = float(fns[ch](float(n0)))
            good, v = rec.guard("xs:integer-raises", lambda: float(fns[ch](n0)), ch=ch, energy=n0, **p)
            if good:
                rec.close(v, a, "xs:integer energy", rtol=1e-12, ch=ch, energy=n0, **p)
            good, v = rec.guard("xs:integer-raises", lambda: np.asarray(fns[ch](np.array([n0, n0 + 7])), float), ch=ch, energy=n0, **p)
            if good:
                rec.close(v, [a, float(fns[ch](n0 + 7.0))], "xs:integer energy", rtol=1e-12, ch=ch, energy=n0, **p)
        vv = np.asarray(fns["v v"](es))
        for q, a in zip(es, vv):
            if q <= 2 * mv:
                rec.ok(a == 0, "xs:v v closed", energy=q, value=a, **p)
        q = 2 * max(mx, mv) * float(1 + 10 ** rng.uniform(-2.5, 0.5))
        scale = (mx * mv / q**2)**2 + (mv / q)**4 + (mx / q)**2
        if 1e-5 < scale:
            want = A.sigma(q * q, mx, mx, mv, mv, A.xx_to_vv(mx, gx, mv), identical=2.0, scale=min(scale, 1e-2))
            rec.close(float(fns["v v"](q)), want, "xs:v v", rtol=1e-4, energy=q, **p)
        if e > 1100 and rng.random() < 0.7:
            continue
        tot = m.annihilation_cross_sections(e)
        bf = m.annihilation_branching_fractions(e)
        rec.close(float(sum(bf.values())), 1.0 if tot["total"] > 0 else 0.0, "xs:fractions", rtol=1e-9, energy=e, **p)


# ---------------------------------------------------------------------------------------------------------------------- spectra
def kern(product, state, es, e):
    if state == "k0":
        return 0.5 * (p17.kernel(product, "kl", es, e) + p17.kernel(product, "ks", es, e))
    return p17.kernel(product, state, es, e)


IDS = ("pi", "pi0", "k", "k0", "eta", "etap", "omega", "phi")


def identify(dist):
    P, M = par(), sm()
    mass = dict(pi=M["pi"], pi0=M["pi0"], k=M["k"], k0=P.neutral_kaon_mass, eta=M["eta"], etap=M["etap"], omega=M["omega"], phi=M["phi"])
    lo = float(dist.bins[0])
    best = min(mass, key=lambda k: abs(mass[k] - lo))
    return best if abs(mass[best] - lo) < 1e-3 * lo else None


def average(x, prob, f):
    return np.trapezoid(prob.reshape((-1,) + (1,) * (f.ndim - 1)) * f, x=x, axis=0)


def expected(m, key, product, es, q, nbins, npts):
    """Spectrum of a hadronic or leptonic channel from its particle content."""
    shape = (3, len(es)) if product == "neutrino" else (len(es),)
    out = np.zeros(shape)
    M = sm()
    if key in LEPTONS:
        if key == "mu mu":
            out = out + 2 * kern(product, "mu", es, q / 2)
        if product == "photon" and key in ("e e", "mu mu"):
            out = out + 2 * p17.fsr(key.split()[0], es, q)
        return out
    if key in TWO:
        a, b = TWO[key]
        mass = {None: 0.0, "kl": par().neutral_kaon_mass, "ks": par().neutral_kaon_mass}
        ma, mb = mass.get(a, M.get(a)), mass.get(b, M.get(b))
        ea = (q * q + ma * ma - mb * mb) / (2 * q)
        out = out + kern(product, a, es, ea)
        if b:
            out = out + kern(product, b, es, q - ea)
        if product == "photon" and key in FSR1:
            out = out + 2 * p17.fsr(FSR1[key][0], es, q)
        return out
    ff = getattr(m, "_ff_" + key.replace(" ", "_"))
    kw = dict(nbins=nbins)
    if key in NP:
        kw["npts"] = npts
    dists = list(ff.energy_distributions(q=q, couplings=m._couplings, **kw))
    ids = [identify(d) for d in dists]
    for d, who in zip(dists, ids):
        out = out + average(d.bin_centers, d.probabilities, np.array([kern(product, who, es, e) for e in d.bin_centers]))
    if product == "photon" and key in ("pi pi pi0", "pi pi pi0 pi0", "pi pi pi pi"):
        inv = ff.invariant_mass_distributions(q=q, couplings=m._couplings, **({} if key == "pi pi pi0" else kw) | dict(nbins=nbins))
        ch = [i for i, who in enumerate(ids) if who == "pi"]
        pairs = [(ch[0], ch[1], 1.0)] if len(ch) == 2 else [(0, 1, 0.5), (0, 3, 0.5), (1, 2, 0.5), (2, 3, 0.5)]
        for i, j, wt in pairs:
            d = inv[i, j]
            out = out + wt * average(d.bin_centers, d.probabilities, np.array([2 * p17.fsr("pi", es, mm) for mm in d.bin_centers]))
    return out


def pi0_pi0_gamma(es, q):
    """pi0 omega with omega -> pi0 gamma: photon, pi0 (flat in energy) and prompt pi0."""
    M = sm()
    m0, mw = M["pi0"], M["omega"]
    ew = (q * q + mw * mw - m0 * m0) / (2 * q)
    g, b = ew / mw, np.sqrt(1 - (mw / ew)**2)
    eg = (mw * mw - m0 * m0) / (2 * mw)
    lo, hi = g * eg * (1 - b), g * eg * (1 + b)
    out = np.where((es > lo) & (es < hi), 1 / (hi - lo), 0.0) + kern("photon", "pi0", es, q - ew)
    ep = (mw * mw + m0 * m0) / (2 * mw)
    xs = g * ep + g * b * eg * np.linspace(-1, 1, 401)
    return out + np.mean([kern("photon", "pi0", es, e) for e in 0.5 * (xs[1:] + xs[:-1])], 0)


def table(m, product):
    return dict(photon=m._spectrum_funcs, positron=m._positron_spectrum_funcs, neutrino=m._neutrino_spectrum_funcs)[product]()


def run(fd, key, product, es, q, **kw):
    if product != "neutrino":
        return np.asarray(fd[key](es, q, **kw))
    return np.array([fd[key](es, q, flavor=f, **kw) for f in ("e", "mu", "tau")])


def composition(rec, part):
    """Each channel's spectrum is the sum of the decays of its own particles plus final-state radiation."""
    _models.pin_mc()
    rng = rec.rng
    keys = [[k for k in ALL if k not in THREE and k not in FOUR], list(THREE)[:4], list(THREE)[4:], list(FOUR)][part]
    for _ in range(rec.n(6 if part == 0 else 1, 40 if part == 0 else 8)):
        m, p = sample(rng)
        if p["gvuu"] == p["gvdd"] or 0.0 in (p["gvuu"], p["gvdd"], p["gvss"]):
            m = general({**p, "gvuu": 0.3, "gvdd": -0.2, "gvss": 0.25})
        for product in ("photon", "positron", "neutrino"):
            fd = table(m, product)
            rec.ok(set(fd) == set(ALL) | {"v v"}, "spectra:keys", product=product, have=sorted(fd))
            for key in keys:
                q = thr(key) * float(1 + 10 ** rng.uniform(-1.3, 0.2)) if key not in ("e e", "ve ve", "vm vm", "vt vt") else float(rng.uniform(2, 3000))
                if q > 4000:
                    q = float(rng.uniform(thr(key), 4000))
                es = np.geomspace(0.52 if product == "positron" else 2e-3 * q, 0.52 * q, 16)
                kw = {}
                nbins, npts = 15, 3000
                if key in THREE or key in FOUR:
                    kw = dict(nbins=nbins)
                    if key in NP:
                        kw["npts"] = npts
                good, got = rec.guard("spectra:raises", lambda: run(fd, key, product, es, q, **kw), product=product, channel=key, cme=q)
                if not good:
                    continue
                want = expected(m, key, product, es, q, nbins, npts) if key != "pi0 pi0 gamma" else \
                    (pi0_pi0_gamma(es, q) if product == "photon" else np.zeros((3, len(es)) if product == "neutrino" else len(es)))
                top = float(np.max(np.abs(want), initial=0.0))
                rec.close(got, want, f"spectra:{product}:{key}", rtol=0.02, atol=4e-3 * top + 1e-300, cme=q, **p)
                below = run(fd, key, product, es, thr(key) * 0.98, **kw) if thr(key) > 2 else None
                if below is not None:
                    rec.ok(not np.any(below), "spectra:closed", product=product, channel=key)


def orders(rec, _):
    """Form-factor energy distributions: normalised, carry the total energy and contain the advertised particles."""
    _models.pin_mc()
    rng = rec.rng
    content = {k: sorted(w if w != "k0" else "k0" for w in k.split()) for k in list(THREE) + list(FOUR)}
    for _ in range(rec.n(1, 10)):
        m = general(dict(mx=10.0, mv=100.0, gvxx=1.0, **{n: float(rng.uniform(0.1, 1) * rng.choice([-1, 1])) for n in NAMES}))
        for key in content:
            q = float(rng.uniform(1.1, 1.9)) * thr(key)
            ff = getattr(m, "_ff_" + key.replace(" ", "_"))
            d = list(ff.energy_distributions(q=q, couplings=m._couplings, nbins=30, **(dict(npts=1 << 14) if key in NP else {})))
            ids = [identify(x) for x in d]
            rec.ok(sorted(str(i) for i in ids) == content[key], "orders:particles", channel=key, ids=ids)
            tot = sum(float(np.sum(x.probabilities * np.diff(x.bins) * x.bin_centers)) for x in d)
            rec.close(tot, q, "orders:energy", rtol=0.01, channel=key, cme=q)
            for x in d:
                rec.close(float(np.sum(x.probabilities * np.diff(x.bins))), 1.0, "orders:norm", rtol=0.01, channel=key, cme=q)


def conserve(rec, _):
    """Photons, electrons, positrons and neutrinos of one event carry the centre-of-mass energy (radiation adds a percent-level amount)."""
    _models.pin_mc()
    rng = rec.rng
    me = par().electron_mass
    m = general(dict(mx=10.0, mv=100.0, gvxx=1.0, **{n: 0.3 for n in NAMES} | dict(gvdd=-0.2)))
    f = {k: table(m, k) for k in ("photon", "positron", "neutrino")}
    for key, lo, hi in (("mu mu", 0.97, 1.12), ("pi pi", 0.95, 1.08), ("k k", 0.9, 1.1), ("pi pi pi0", 0.93, 1.08), ("pi0 k k", 0.88, 1.1),
                        ("pi pi pi pi", 0.9, 1.1), ("pi pi pi0 pi0", 0.9, 1.08), ("pi pi omega", 0.85, 1.1), ("pi pi eta", 0.85, 1.1),
                        ("pi0 pi0 gamma", 0.96, 1.02), ("eta omega", 0.85, 1.1), ("pi k k0", 0.8, 1.1)):
        q = float(rng.uniform(1.1, 1.6)) * thr(key)
        kw = (dict(nbins=20) | (dict(npts=4000) if key in NP else {})) if key in THREE or key in FOUR else {}
        x = np.geomspace(1e-4 * q, 0.56 * q, 260)
        xp = me + np.geomspace(1e-3, 0.56 * q, 260)
        e = np.trapezoid(run(f["photon"], key, "photon", x, q, **kw) * x * x, np.log(x))
        ep = np.trapezoid(run(f["positron"], key, "positron", xp, q, **kw) * xp * (xp - me), np.log(xp - me))
        en = np.trapezoid(np.sum(run(f["neutrino"], key, "neutrino", x, q, **kw), 0) * x * x, np.log(x))
        r = float((e + ep + en) / q)
        rec.seen("energy balance " + key)
        rec.ok(lo < r < hi, "energy-balance", channel=key, cme=q, ratio=r, photon=float(e / q), positron=float(ep / q), neutrino=float(en / q))


def boost_ref(rest, lines, es, mass, gamma, top, n=1500):
    """Lab spectrum of an isotropic rest-frame spectrum (callable on arrays) plus unit lines, by direct integration in energy."""
    b = np.sqrt(1 - 1 / gamma**2)
    xs = mass + np.geomspace(1e-6 * top, top - mass, n) if mass else np.geomspace(1e-7 * top, top, n)
    y = np.asarray(rest(xs)) / np.sqrt(xs**2 - mass**2)
    cum = np.concatenate([[0.0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(xs))])
    k = np.sqrt(np.maximum(es**2 - mass**2, 0))
    F = lambda v: np.interp(v, xs, cum)
    out = (F(gamma * (es + b * k)) - F(gamma * (es - b * k))) / (2 * gamma * b)
    for e0, wt in lines:
        lo, hi = gamma * e0 * (1 - b), gamma * e0 * (1 + b)
        out = out + np.where((es > lo) & (es < hi), wt / (hi - lo), 0.0)
    return out


def mediators(rec, arg):
    """x x -> V V: twice the boosted, branching-weighted spectrum of one mediator."""
    _models.pin_mc()
    rng = rec.rng
    lo, hi = arg
    P = par()
    for _ in range(rec.n(2 if hi < 500 else 1, 12 if hi < 500 else 3)):
        mv = float(rng.uniform(lo, hi))
        g = {n: float(rng.uniform(0.1, 1) * rng.choice([-1, 1])) for n in NAMES}
        if rng.random() < 0.4:
            g["gvee"] = g["gvmumu"] = 1e-4
        m = general(dict(mx=mv * float(rng.uniform(1.05, 3)), mv=mv, gvxx=0.7, **g))
        gam = float(1 + 10 ** rng.uniform(-1, 0.6))
        q = 2 * mv * gam
        pw = m.partial_widths()
        tot = sum(pw.values())
        for product in ("photon", "positron", "neutrino"):
            fd = table(m, product)
            mass = P.electron_mass if product == "positron" else 0.0
            kw = dict(nbins=15, npts=2000)
            keys = [k for k in ALL if pw[k] > 1e-4 * tot]
            def rest(xs, row=None):
                o = 0.0
                for k in keys:
                    kk = {} if k not in THREE and k not in FOUR else {a: b for a, b in kw.items() if a == "nbins" or k in NP}
                    r = run(fd, k, product, xs, mv, **kk)
                    o = o + 2 * pw[k] / tot * (r if row is None else r[row])
                return o
            lines = [((mv * mv - mm**2) / (2 * mv), 2 * pw[k] / tot) for k, mm in (("pi0 gamma", P.neutral_pion_mass), ("eta gamma", P.eta_mass))
                     if pw[k] > 0] if product == "photon" else []
            es = np.geomspace(0.8 if mass else 2e-2 * q, 0.49 * q, 14)
            # the soft end has its own, purely relative, scale
            soft = {"photon": np.geomspace(1e-4, 1e-2, 4) * q, "positron": np.array([0.52, 0.6, 0.75, 1.1, 2.0]), "neutrino": np.zeros(0)}[product]
            es = np.concatenate([soft, es])
            for row in ([None] if product != "neutrino" else [0, 1]):
                fl = {} if row is None else dict(flavor=("e", "mu")[row])
                good, got = rec.guard("vv:raises", lambda: np.asarray(fd["v v"](es, q, **fl, **kw)), product=product, mv=mv, cme=q)
                if not good:
                    continue
                want = boost_ref(lambda x: rest(x, row), lines, es, mass, gam, mv / 2)
                edge = [gam * e0 * (1 + sg * np.sqrt(1 - 1 / gam**2)) for e0, _ in lines for sg in (-1, 1)]
                ok = np.array([all(abs(x / d - 1) > 1e-3 for d in edge) for x in es])
                n = len(soft)
                slack = 4e-3 * float(np.max(want[n:])) + 1e-300
                rec.close(got[n:][ok[n:]], want[n:][ok[n:]], "vv:" + product, rtol=0.03, atol=slack, mv=mv, cme=q, row=row, **g)
                if n:
                    rec.close(got[:n], want[:n], "vv:soft:" + product, rtol=0.02, mv=mv, cme=q, row=row, **g)
                    # whatever else is asked for in the same call
                    good, one = rec.guard("vv:raises", lambda: np.asarray(fd["v v"](soft[2:3], q, **fl, **kw)), product=product, mv=mv, cme=q)
                    if good:
                        rec.close(one, want[2:3], "vv:soft alone:" + product, rtol=0.02, mv=mv, cme=q, row=row, **g)
                i = n + int(rng.integers(2, 12))
                one = np.asarray(fd["v v"](es[i:i + 1], q, **fl, **kw))
                rec.close(one[0], got[i], "vv:independent-of-grid:" + product, rtol=0.03, atol=slack, mv=mv, cme=q)
                rec.ok(not np.any(fd["v v"](es, 1.99 * mv, **fl, **kw)), "vv:closed", product=product)


def lines(rec, _):
    _models.pin_mc()
    rng = rec.rng
    P = par()
    from hazma.vector_mediator import VectorMediatorGeV
    for _ in range(rec.n(3, 30)):
        p = dict(mx=float(rng.uniform(150, 220)), mv=float(rng.uniform(50, 300)), gvxx=float(rng.uniform(0.1, 1)), **couplings(rng))
        m = VectorMediatorGeV(**p)
        e = 2 * p["mx"] * float(1 + 10 ** rng.uniform(-3, -0.5))
        bf = m.annihilation_branching_fractions(e)
        gl, pl = m.gamma_ray_lines(e), m.positron_lines(e)
        want = {k: (e * e - mm**2) / (2 * e) for k, mm in (("pi0 gamma", P.neutral_pion_mass), ("eta gamma", P.eta_mass))}
        rec.ok(set(gl) == set(want), "lines:photon-keys", have=sorted(gl))
        for k, x in want.items():
            rec.close(gl[k]["energy"], x, "lines:photon", rtol=1e-12, **p)
            rec.close(gl[k]["bf"], bf[k], "lines:photon-bf", rtol=1e-6, atol=1e-300, **p)
        rec.close(pl["e e"]["energy"], e / 2, "lines:positron", rtol=1e-14)
        rec.close(pl["e e"]["bf"], bf["e e"], "lines:positron-bf", rtol=1e-6, atol=1e-300)
        for fl, k in (("e", "ve ve"), ("mu", "vm vm"), ("tau", "vt vt")):
            nl = m.neutrino_lines(e, fl)
            rec.ok(set(nl) == {k}, "lines:neutrino-keys", flavor=fl, have=sorted(nl))
            rec.close(nl[k]["energy"], e / 2, "lines:neutrino", rtol=1e-14)
            rec.close(nl[k]["bf"], bf[k], "lines:neutrino-bf", rtol=1e-6, atol=1e-300)
        rec.raises(lambda: m.neutrino_lines(e, "zz"), ValueError, "lines:flavor")
        es = np.geomspace(2, 0.45 * e, 5)
        if rng.random() < 0.5 and p["mv"] > p["mx"]:
            fl = str(rng.choice(["e", "mu", "tau"]))
            got = m.neutrino_spectra(es, e, fl)
            fd = m._neutrino_spectrum_funcs()
            acc = 0.0
            for k in fd:
                if bf[k] > 0 and k not in FOUR:
                    w = bf[k] * np.asarray(fd[k](es, e, flavor=fl))
                    acc = acc + w
                    rec.close(got[k], w, "lines:neutrino-spectra", rtol=0.05, atol=1e-3 * float(np.max(w)) + 1e-300, ch=k, **p)
            rec.close(got["total"], acc, "lines:neutrino-total", rtol=0.05, atol=1e-3 * float(np.max(acc)) + 1e-300, **p)
            rec.close(m.total_neutrino_spectrum(es, e, fl), acc, "lines:neutrino-total", rtol=0.05, atol=1e-3 * float(np.max(acc)) + 1e-300, **p)


def histories(rec, _):
    """Setter and query histories leave the model equal to a fresh one; forbidden setters raise and change nothing."""
    _models.pin_mc()
    from hazma.vector_mediator import VectorMediatorGeV, KineticMixingGeV, BLGeV
    rng = rec.rng
    P = par()
    quick = [c for c in ALL if c not in NP] + ["x x"]
    for _ in range(rec.n(25, 400)):
        kind = int(rng.integers(0, 3))
        g = couplings(rng)
        p = dict(mx=float(rng.uniform(1, 900)), mv=float(rng.uniform(1, 2500)), gvxx=float(rng.normal()))
        a = float(rng.normal())
        m = (VectorMediatorGeV(**p, **g), KineticMixingGeV(**p, eps=a), BLGeV(**p, g=a))[kind]
        trail = []
        for _ in range(int(rng.integers(1, 9))):
            if rng.random() < 0.6:
                for ch in rng.choice(quick, 3):
                    width_fn(m, str(ch))()
            n = str(rng.choice(["mx", "mv", "gvxx", "own", "bad"]))
            if n in p:
                p[n] = float(rng.uniform(1, 1500)) if n[0] == "m" else float(rng.normal())
                setattr(m, n, p[n])
            elif kind == 0:
                n = str(rng.choice(NAMES))
                g[n] = float(rng.normal())
                setattr(m, n, g[n])
            elif n == "own":
                a = float(rng.normal())
                setattr(m, ("", "eps", "g")[kind], a)
            else:
                n = str(rng.choice(NAMES))
                old = getattr(m, n)
                rec.raises(lambda: setattr(m, n, old + 1.0), AttributeError, "history:forbidden")
                rec.ok(getattr(m, n) == old, "history:forbidden-changed", name=n)
            trail.append(n)
        f = (lambda: VectorMediatorGeV(**p, **g), lambda: KineticMixingGeV(**p, eps=a), lambda: BLGeV(**p, g=a))[kind]()
        for n in NAMES + ("mx", "mv", "gvxx"):
            rec.ok(getattr(m, n) == getattr(f, n), "history:state", name=n, trail=trail, kind=kind)
        if kind == 1:
            e = -a * np.sqrt(4 * np.pi * P.alpha_em)
            for n, v in dict(gvuu=2 * e / 3, gvdd=-e / 3, gvss=-e / 3, gvee=-e, gvmumu=-e, gvveve=0.0, gvvmvm=0.0, gvvtvt=0.0).items():
                rec.close(getattr(m, n), v, "history:charges", rtol=1e-9, atol=1e-300, name=n)
        if kind == 2:
            for n in NAMES:
                rec.close(getattr(m, n), a / 3 if n in ("gvuu", "gvdd", "gvss") else -a, "history:charges", rtol=1e-12, name=n)
        for ch in rng.permutation(quick)[:8]:
            x, y = width_fn(m, str(ch))(), width_fn(f, str(ch))()
            rec.ok(x == y, "history:width", ch=str(ch), have=x, expected=y, trail=trail, kind=kind, **p)
        e = 2 * p["mx"] * 1.3
        q = float(rng.uniform(0.2, 1.5))
        rec.ok(np.array_equal(m.form_factor_pi_pi(1e3 * q), f.form_factor_pi_pi(1e3 * q)), "history:form-factor", trail=trail)
        if rng.random() < 0.15:
            ch = str(rng.choice([c for c in ALL if c not in NP]))
            x, y = m.annihilation_cross_section_funcs()[ch](e), f.annihilation_cross_section_funcs()[ch](e)
            rec.close(x, y, "history:xs", rtol=1e-9, atol=1e-300, ch=ch, trail=trail)
            # Monte-Carlo channels under a different number of points must not reuse the cached value
            n1 = m.width_v_to_pi_pi_pi_pi(npts=500) if p["mv"] > 600 else 0.0
            n2 = f.width_v_to_pi_pi_pi_pi(npts=500) if p["mv"] > 600 else 0.0
            rec.ok(n1 == n2, "history:npts", have=n1, expected=n2)


FORM = {"pi_pi": ("PiPi", 1), "pi0_pi0": ("Pi0Pi0", 1), "k_k": ("KK", 1), "k0_k0": ("K0K0", 1), "pi0_gamma": ("Pi0Gamma", 1), "pi0_omega": ("Pi0Omega", 1),
        "pi0_phi": ("Pi0Phi", 1), "eta_gamma": ("EtaGamma", 1), "eta_phi": ("EtaPhi", 1), "eta_omega": ("EtaOmega", 1), "pi_pi_pi0": ("PiPiPi0", 3),
        "pi_pi_eta": ("PiPiEta", 2), "pi_pi_etap": ("PiPiEtaPrime", 2), "pi_pi_omega": ("PiPiOmega", 1), "pi0_pi0_omega": ("Pi0Pi0Omega", 1),
        "pi0_k0_k0": ("Pi0K0K0", 3), "pi0_k_k": ("Pi0KpKm", 3), "pi_k_k0": ("PiKK0", 3)}


def amplitudes(rec, _):
    """The model's form-factor methods are the channel's amplitude at the model's own quark couplings, before and after they change."""
    import hazma.form_factors.vector as V
    rng = rec.rng
    for _ in range(rec.n(25, 300)):
        m, p = sample(rng)
        for again in (False, True):
            if again:
                g = couplings(rng)
                if type(m).__name__ == "VectorMediatorGeV":
                    for k in ("gvuu", "gvdd", "gvss"):
                        setattr(m, k, g[k])
                        p[k] = g[k]
                elif type(m).__name__ == "BLGeV":
                    m.g = 0.25
                    p.update(gvuu=0.25 / 3, gvdd=0.25 / 3, gvss=0.25 / 3)
                else:
                    m.eps = 0.02
                    e = -0.02 * np.sqrt(4 * np.pi * par().alpha_em)
                    p.update(gvuu=2 * e / 3, gvdd=-e / 3, gvss=-e / 3)
            c = V.VectorFormFactorCouplings(p["gvuu"], p["gvdd"], p["gvss"])
            for k, (cls, n) in FORM.items():
                f = getattr(V, "VectorFormFactor" + cls)()
                ms = np.array(f.fsp_masses, float)
                q = float(ms.sum() + 10 ** rng.uniform(-1, 3.2))
                lo, hi = (ms[1] + ms[-1])**2, (q - ms[0])**2
                u = rng.uniform(0.05, 0.95, 2)
                x = (q,) + tuple(float(lo + v * (hi - lo)) for v in u)[: n - 1]
                want = np.asarray(f.form_factor(q=x[0], couplings=c) if n == 1 else f.form_factor(*x, couplings=c))
                got = np.asarray(getattr(m, "form_factor_" + k)(*x))
                rec.close([got.real, got.imag], [want.real, want.imag], "amplitude:" + k, rtol=1e-12, atol=1e-13 * abs(complex(np.ravel(want)[0])), model=type(m).__name__, x=x, changed=again)
                rec.seen((k, x), nontrivial=bool(np.any(want != 0)))


def tasks(ck):
    return [("amplitudes", amplitudes, None)] + [(f"widths-{i}", widths, i) for i in range(2)] + [(f"annihilation-{i}", annihilation, i) for i in range(4)] + [("orders", orders, None), ("conserve", conserve, None),
            ("lines", lines, None), ("histories", histories, None), ("vv-low", mediators, (290.0, 400.0)), ("vv-high", mediators, (500.0, 900.0))] + \
        [(f"composition-{i}", composition, i) for i in range(4)]
