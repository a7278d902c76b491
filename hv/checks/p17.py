"""Spectra of n-body final states: decay spectra averaged over phase space plus final-state radiation plus direct products."""
import itertools
import numpy as np
from . import _ps

PROPERTY = "P17"
RULE = ("one judged n-body spectrum or contract per event: every pair of final states for every product and flavor, random three- to five-body "
        "final states; oracle = sum of the public decay spectra averaged over independently computed phase-space distributions, the "
        "splitting formula averaged over pair masses, and direct neutrinos/positrons row by row; non-trivial = non-zero spectrum")
NATIVE = "all"
GLX, GLW = np.polynomial.legendre.leggauss(40)
NU = {"ve": 0, "vm": 1, "vt": 2}
STATES = ("e", "ve", "vm", "vt", "mu", "pi", "pi0", "k", "kl", "ks", "eta", "etap", "rho", "rho0", "omega", "phi")
WORD = dict(mu="muon", pi="charged_pion", pi0="neutral_pion", k="charged_kaon", kl="long_kaon", ks="short_kaon", eta="eta", etap="eta_prime",
            rho="charged_rho", rho0="neutral_rho", omega="omega", phi="phi")
CHARGED = {"e": False, "mu": False, "pi": True, "k": True}      # name -> scalar?


def masses():
    from hazma.parameters import standard_model_masses as sm
    return sm


def kernel(product, state, es, e):
    """Decay spectrum of one state through the public single-particle functions; rows (3, n) for neutrinos."""
    from hazma import spectra
    shape = (3, len(es)) if product == "neutrino" else (len(es),)
    name = WORD.get(state)
    fn = getattr(spectra, f"dnde_{product}_{name}", None) if name else None
    if fn is None:
        return np.zeros(shape)
    return np.asarray(fn(es, e))


def fsr(state, es, sqrts):
    from hazma.parameters import alpha_em
    m = masses()[state]
    s = sqrts**2
    x = 2 * es / sqrts
    y = np.maximum(s * (1 - x) / m**2, 1e-300)
    lg = np.log(y) - 1
    split = 2 * (1 - x) / x if CHARGED[state] else (1 + (1 - x)**2) / x
    return np.where(lg > 0, alpha_em / (2 * np.pi) * split * lg, 0.0) * 2 / sqrts


def call(product, es, q, fs, flavor=None, **kw):
    from hazma import spectra
    if product == "photon":
        return spectra.dnde_photon(es, q, fs, **kw)
    if product == "positron":
        return spectra.dnde_positron(es, q, fs, **kw)
    return spectra.dnde_neutrino(es, q, fs, flavor=flavor, **kw)


def grid(rng, q, product, n=10):
    lo = 0.5109989 if product == "positron" else 1e-4 * q
    return np.sort(np.append(np.geomspace(lo, q / 2, n), lo + (q / 2 - lo) * rng.uniform(0, 1, 4)))


def one_two(rec, part):
    """Single states and every pair of states, exactly."""
    rng = rec.rng
    sm = masses()
    pairs = list(itertools.product(STATES, repeat=2))
    for i, (a, b) in enumerate(pairs):
        if i % 4 != part:
            continue
        ma, mb = sm[a], sm[b]
        for _ in range(rec.n(1, 6)):
            q = float((ma + mb) * (1 + 10 ** rng.uniform(-3, 1))) if ma + mb > 0 else float(10 ** rng.uniform(0, 3))
            ea, eb = (q * q + ma * ma - mb * mb) / (2 * q), (q * q - ma * ma + mb * mb) / (2 * q)
            for product in ("photon", "positron", "neutrino"):
                es = grid(rng, q, product)
                want = kernel(product, a, es, ea) + kernel(product, b, es, eb)
                tol = dict(rtol=1e-9, atol=1e-12 * float(np.max(np.abs(want))) + 1e-300)
                if product == "photon":
                    rec.close(call(product, es, q, (a, b), include_fsr=False), want, "two:photon:no-fsr", states=(a, b), q=q, **tol)
                    for s in (a, b):
                        if s in CHARGED:
                            want = want + fsr(s, es, q)
                good, got = rec.guard("two:raises", lambda: call(product, es, q, (a, b)), states=(a, b), q=q)
                if not good:
                    continue
                rec.close(got, want, "two:" + product, states=(a, b), q=q, **tol)
                j = int(rng.integers(0, len(es)))
                one = np.asarray(call(product, float(es[j]), q, [a, b]))
                rec.ok(one.shape == want.shape[:-1] and np.allclose(one, got[..., j], rtol=1e-9, atol=0), "two:scalar", states=(a, b), product=product)
                if product == "neutrino":
                    for k, f in enumerate(("e", "mu", "tau")):
                        rec.close(call(product, es, q, (a, b), flavor=f), got[k], "two:flavor", rtol=1e-12, atol=1e-300, states=(a, b), flavor=f)
            rec.raises(lambda: call("photon", np.array([1.0]), (ma + mb) * 0.999 - 1e-9, (a, b)), ValueError, "two:threshold")
    for a in STATES:
        for product in ("photon", "positron", "neutrino"):
            q = float(max(sm[a], 1.0) * (1 + 10 ** rng.uniform(-3, 1)))
            es = grid(rng, q, product)
            want = kernel(product, a, es, q)
            for fs in (a, (a,), [a]):
                rec.close(call(product, es, q, fs), want, "one:" + product, rtol=1e-9, atol=1e-12 * float(np.max(np.abs(want))) + 1e-300, state=a, form=str(fs))


def phi(M, ms):
    """Phase-space volume over an array of energies; one particle: zero width, handled by the caller."""
    M = np.atleast_1d(np.asarray(M, float))
    return _ps._vol(M, list(ms))


def edist(q, ms, i):
    """Energy nodes, weights of particle i for a constant matrix element (normalised)."""
    rest = [m for j, m in enumerate(ms) if j != i]
    lo, hi = ms[i], (q * q + ms[i]**2 - sum(rest)**2) / (2 * q)
    th = (GLX + 1) * np.pi / 2
    e = lo + (hi - lo) * (1 - np.cos(th)) / 2
    w = GLW * np.sin(th)
    p = np.sqrt(np.maximum(e * e - ms[i]**2, 0))
    mr = np.sqrt(np.maximum(q * q + ms[i]**2 - 2 * q * e, sum(rest)**2 * (1 + 1e-14)))
    w = w * p * phi(mr, rest)
    return e, w / w.sum(), hi


def mdist(q, ms, i, j):
    rest = [m for k, m in enumerate(ms) if k not in (i, j)]
    lo, hi = ms[i] + ms[j], q - sum(rest)
    th = (GLX + 1) * np.pi / 2
    m = lo + (hi - lo) * (1 - np.cos(th)) / 2
    w = GLW * np.sin(th) * m * _ps.vol2(m, ms[i], ms[j])
    if len(rest) == 1:
        w = w * _ps.vol2(q, m, rest[0])
    else:
        w = w * np.array([_ps._vol(np.array([q]), [x] + rest)[0] for x in m])
    return m, w / w.sum()


def reference(product, es, q, fs, fsr_mode=None, flavor=None, wfun=None):
    sm = masses()
    ms = [sm[s] for s in fs]
    out = 0.0
    for i, s in enumerate(fs):
        if s in WORD:
            e, w, _ = edist(q, ms, i)
            if wfun is not None:
                w = wfun[i](e, w)
            out = out + sum(wk * kernel(product, s, es, float(ek)) for ek, wk in zip(e, w))
    if product == "photon" and fsr_mode:
        for i, s in enumerate(fs):
            if s not in CHARGED:
                continue
            others = [j for j in range(len(fs)) if j != i]
            if fsr_mode == "first":
                others = others[:1] if i else [1]
            for j in others:
                m, w = mdist(q, ms, i, j)
                out = out + sum(wk * fsr(s, es, float(mk)) for mk, wk in zip(m, w)) / len(others)
    return out


def smooth_l1(got, want, es):
    """Integrated relative difference over a dense grid."""
    d = np.trapezoid(np.abs(got - want) * es, np.log(es), axis=-1)
    n = np.trapezoid(np.abs(want) * es, np.log(es), axis=-1)
    return float(np.max(d)), float(np.max(n))


POOL = ("mu", "pi", "pi0", "k", "ks", "kl", "eta", "omega", "rho", "rho0", "etap", "phi", "e", "ve", "vm")


def many(rec, arg):
    """Three to five bodies with a constant matrix element."""
    n, product = arg
    rng = rec.rng
    sm = masses()
    for _ in range(rec.n(4, 30)):
        fs = [str(s) for s in rng.choice(POOL, n, p=np.array([2, 2, 1, 1, 1, 1, 1, 1, 1, 1, .6, .6, 1, .7, .7]) / 15.6)]
        if product == "photon":
            fs = ["pi" if s == "rho" else "pi0" if s == "rho0" else s for s in fs]      # rho photon spectra are slow; pairs cover them
        if product == "photon" and rng.random() < 0.3:
            fs[:2] = [str(rng.choice(list(CHARGED)))] * 2
        q = float(sum(sm[s] for s in fs) * rng.uniform(1.05, 4) + 5)
        lo = 0.511 if product == "positron" else 2e-3 * q
        es = np.geomspace(lo, q / 2, 120)
        kw = dict(nbins=60) if n == 3 else dict(nbins=40, npts=20000)
        flavor = None
        dec = tuple(s for s in fs)
        np.random.seed(int(rng.integers(0, 2**31)))
        if product == "photon":
            got0 = call(product, es, q, dec, include_fsr=False, **kw)
            want0 = reference(product, es, q, fs)
            tol = 0.03 if n == 3 else 0.05
            d, s = smooth_l1(got0, want0 + 0 * es, es)
            rec.ok(d <= tol * s, "many:photon:decay", states=fs, q=q, l1=d, norm=s)
            for mode, av in (("all", True), ("first", False)):
                got = call(product, es, q, dec, average_fsr=av, **kw)
                rad = reference("photon", es, q, fs, fsr_mode=mode) - want0
                diff = got - (got0 if n == 3 else want0)
                if np.ndim(rad) and rad.max() > 0:
                    k = es < 0.6 * es.max()
                    d, s = smooth_l1(diff[k], rad[k], es[k])
                    d0 = smooth_l1(got0[k], want0[k] if np.ndim(want0) else 0 * es[k], es[k])[1] if n > 3 else 0.0
                    rec.ok(d <= 0.03 * s + 0.06 * d0, "many:photon:fsr-" + mode, states=fs, q=q, l1=d, norm=s)
        else:
            got = call(product, es, q, dec, **kw)
            shape = (3, len(es)) if product == "neutrino" else (len(es),)
            rec.ok(got.shape == shape, "many:shape", states=fs, shape=got.shape)
            want = np.zeros(shape) + reference(product, es, q, fs)
            ms = [sm[s] for s in fs]
            for i, s in enumerate(fs):      # direct products
                if (product == "positron" and s == "e") or (product == "neutrino" and s in NU):
                    rest = [m for j, m in enumerate(ms) if j != i]
                    hi = (q * q + ms[i]**2 - sum(rest)**2) / (2 * q)
                    e, w, _ = edist(q, ms, i)
                    th = np.linspace(0, np.pi, 400)
                    xs = ms[i] + (hi - ms[i]) * (1 - np.cos(th)) / 2
                    p = np.sqrt(np.maximum(xs**2 - ms[i]**2, 0)) * phi(np.sqrt(np.maximum(q * q + ms[i]**2 - 2 * q * xs, sum(rest)**2 * (1 + 1e-14))), rest)
                    d = np.interp(es, xs, p / np.trapezoid(p, xs), left=0, right=0)
                    want[(NU[s],) if product == "neutrino" else ()] += d
            tol = 0.03 if n == 3 else 0.07
            rows = range(3) if product == "neutrino" else [()]
            for r in rows:
                d, s = smooth_l1(got[r], want[r], es)
                rec.ok(d <= tol * s + 1e-12, "many:" + product, states=fs, q=q, l1=d, norm=s, row=str(r))
            if product == "neutrino":
                for k, f in enumerate(("e", "mu", "tau")):
                    np.random.seed(1)
                    fl = call(product, es, q, dec, flavor=f, **kw)
                    rec.ok(fl.shape == es.shape, "many:flavor-shape", shape=fl.shape)
                    d, s = smooth_l1(fl, want[k], es)
                    rec.ok(d <= tol * s + 1e-12, "many:flavor", states=fs, q=q, l1=d, norm=s, flavor=f)
        e1 = float(es[40])
        v = np.asarray(call(product, e1, q, dec, **kw))
        rec.ok(v.shape == ((3,) if product == "neutrino" else ()), "many:scalar", product=product, shape=v.shape)
        rec.raises(lambda: call(product, es, 0.99 * sum(sm[s] for s in fs) - 1e-6, dec), ValueError, "many:threshold")


def matrix(rec, _):
    """Three bodies weighted by a squared matrix element in (s, t): a resonance-like factor in the pair mass of particles 2 and 3."""
    rng = rec.rng
    sm = masses()
    for _ in range(rec.n(3, 25)):
        fs = [str(s) for s in rng.choice(("mu", "pi", "pi0", "k", "eta", "omega", "ks"), 3)]
        ms = [sm[s] for s in fs]
        q = float(sum(ms) * rng.uniform(1.2, 3))
        s0, g = float(rng.uniform((ms[1] + ms[2])**2, (q - ms[0])**2)), float(q * q * rng.uniform(0.05, 0.3))
        f = lambda s: 1 / ((s - s0)**2 + g * g)
        msq = lambda s, t: f(s)
        mom = lambda p: f(np.sum((p[:, 1] + p[:, 2])**2 * np.array([1, -1, -1, -1]).reshape((4,) + (1,) * (p.ndim - 2)), axis=0))
        for product in ("photon", "positron", "neutrino"):
            es = np.geomspace(0.511 if product == "positron" else 2e-3 * q, q / 2, 100)
            # particle 0 recoils against s; the others follow from the pair rest frame
            th = (GLX + 1) * np.pi / 2
            m23 = (ms[1] + ms[2]) + (q - sum(ms)) * (1 - np.cos(th)) / 2
            w = GLW * np.sin(th) * m23 * _ps.vol2(m23, ms[1], ms[2]) * _ps.vol2(q, m23, ms[0]) * f(m23**2)
            w = w / w.sum()
            want = 0.0
            z, zw = np.polynomial.legendre.leggauss(8)
            for m, wk in zip(m23, w):
                want = want + wk * kernel(product, fs[0], es, float((q * q + ms[0]**2 - m * m) / (2 * q)))
                pr = float(_ps.p2(m, ms[1], ms[2]))
                ev = (q * q + m * m - ms[0]**2) / (2 * q)
                pv = float(_ps.p2(q, m, ms[0]))
                for i in (1, 2):
                    for c, cw in zip(z, zw):
                        want = want + wk * cw / 2 * kernel(product, fs[i], es, float((ev * np.hypot(pr, ms[i]) + pv * pr * c) / m))
            kw = dict(include_fsr=False) if product == "photon" else {}
            for how, extra in (("st", dict(msqrd=msq, nbins=50)), ("momenta", dict(msqrd=mom, msqrd_signature="momenta", nbins=50)),
                               ("rambo", dict(msqrd=mom, msqrd_signature="momenta", three_body_integrator="rambo", nbins=40, npts=40000)),
                               ("rambo st", dict(msqrd=msq, msqrd_signature="st", three_body_integrator="rambo", nbins=40, npts=40000)),
                               ("rambo default", dict(msqrd=msq, three_body_integrator="rambo", nbins=40, npts=40000))):
                if how != "st" and rng.random() < 0.6:
                    continue
                np.random.seed(5)
                good, got = rec.guard("matrix:raises", lambda: call(product, es, q, tuple(fs), **kw, **extra), how=how)
                if not good:
                    continue
                for r in (range(3) if product == "neutrino" else [()]):
                    d, s = smooth_l1(got[r], want[r], es)
                    rec.ok(d <= (0.03 if "rambo" not in how else 0.08) * s + 1e-12, "matrix:" + how, states=fs, q=q, l1=d, norm=s, product=product, s0=s0, g=g)


def contract(rec, _):
    from hazma import spectra
    rec.raises(lambda: spectra.dnde_photon(1.0, 1e4, ("pi", "zz", "pi0")), (ValueError, AssertionError), "contract:unknown")
    rec.raises(lambda: spectra.dnde_photon(1.0, 1e4, ("pi", "pi", "pi0"), three_body_integrator="bad"), (ValueError, AssertionError), "contract:integrator")
    rec.raises(lambda: spectra.dnde_neutrino(1.0, 1e4, ("pi", "pi"), flavor="x"), ValueError, "contract:flavor")
    for p in ("photon", "positron", "neutrino"):
        av = getattr(spectra, "dnde_" + p).availible_final_states
        rec.ok(set(STATES) <= set(av), "contract:states", product=p, have=sorted(av))
    # just above threshold there is a spectrum, close to that of the particles at rest
    rng, sm = rec.rng, masses()
    for n in (3, 3, 4):
        for _ in range(rec.n(2, 10)):
            fs = tuple(str(s) for s in rng.choice(("mu", "pi", "pi0", "k", "eta", "omega", "ks"), n))
            gap = float(10 ** rng.uniform(-6, -3.2))
            q = sum(sm[s] for s in fs) * (1 + gap)
            for product in ("photon", "positron", "neutrino"):
                es = np.geomspace(1.0, q / 4, 60)
                kw = dict(include_fsr=False) if product == "photon" else {}
                good, v = rec.guard("contract:near-threshold", lambda: np.asarray(call(product, es, q, fs, nbins=20, **kw)), states=fs, q=q, product=product)
                rec.ok(not good or (np.all(np.isfinite(v)) and np.all(v >= 0) and np.any(v > 0)), "contract:near-threshold-finite", states=fs, q=q, product=product)
                if not good or product != "positron":       # slow parents' lines are narrower than any grid
                    continue
                want = sum(kernel(product, s, es, sm[s] * (1 + 1e-9)) for s in fs) + np.zeros_like(v)
                d, s = smooth_l1(v, want, es)
                rec.ok(d <= (0.1 + 4 * np.sqrt(gap)) * s + 1e-12, "contract:near-threshold-spectrum", states=fs, q=q, product=product, l1=d, norm=s, gap=gap)
    # whole-number energies are energies
    for product in ("photon", "positron", "neutrino"):
        for fs in (("pi", "pi"), ("mu", "mu", "pi0"), ("pi", "pi", "eta"), ("e", "ve", "pi")):
            want = np.asarray(call(product, np.array([3.0, 40.0, 150.0]), 1000.0, fs, nbins=15))
            for x in (np.array([3, 40, 150]), [3, 40, 150]):
                good, v = rec.guard("contract:integers", lambda: np.asarray(call(product, x, 1000.0, fs, nbins=15)), states=fs, product=product)
                rec.ok(not good or np.allclose(v, want, rtol=1e-9, atol=0), "contract:integers-value", states=fs, product=product)
            good, v = rec.guard("contract:integer", lambda: np.asarray(call(product, 40, 1000, fs, nbins=15)), states=fs, product=product)
            rec.ok(not good or np.allclose(v, want[..., 1], rtol=1e-9, atol=0), "contract:integer-value", states=fs, product=product)
    # no positron is lighter than a positron
    for fs in (("mu", "mu"), ("e", "e"), ("e", "ve", "pi0"), ("pi", "pi", "pi0"), ("e", "ve", "mu", "vm")):
        v = np.asarray(call("positron", np.array([1e-3, 0.1, 0.3, 0.5]), 900.0, fs))
        rec.ok(not np.any(v), "contract:positron-below-mass", states=fs, value=v)
    # a photon in a many-body final state is itself a product
    for a in ("photon", "a"):
        es = np.geomspace(1, 480, 400)
        good, v = rec.guard("contract:photon-state", lambda: spectra.dnde_photon(es, 1000.0, ("pi0", "pi0", a), include_fsr=False, nbins=60))
        if good:
            want = reference("photon", es, 1000.0, ["pi0", "pi0", a])
            extra = np.trapezoid(v - want, es)
            rec.ok(abs(extra - 1) < 0.03, "contract:photon-count", count=float(extra), state=a)


def tasks(ck):
    t = [(f"pairs-{i}", one_two, i) for i in range(4)]
    t += [(f"bodies-{n}-{p}", many, (n, p)) for n in (3, 4, 5) for p in ("photon", "positron", "neutrino")]
    return t + [("matrix", matrix, None), ("contract", contract, None)]
