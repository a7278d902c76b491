"""Final-state radiation: the matrix-element generator, the Altarelli-Parisi functions and the mediators' closed forms."""
import numpy as np
from . import _amp as A

PROPERTY = "P16"
RULE = ("one judged FSR value, momentum set or contract per event: random masses, energies, squared matrix elements (polynomials of "
        "invariants, explicit QED traces) and photon energies; oracle = independent Dalitz quadrature, conservation monitors on every "
        "momentum handed to the matrix element, Dirac/scalar-QED traces for the closed forms; non-trivial = non-zero spectrum")
NATIVE = "all"


def mdot(a, b):
    return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]


class Watch:
    """Wraps a squared matrix element and records conservation errors of every momentum set it is handed."""
    def __init__(self, f, masses, cme, photon=None):
        self.f, self.m, self.cme, self.photon = f, list(masses), cme, photon
        self.calls, self.bad = 0, 0.0

    def __call__(self, p):
        p = np.asarray(p, float)
        self.calls += 1 if p.ndim == 2 else p.shape[-1]
        tot = p.sum(axis=1)
        q = self.cme
        err = np.max(np.abs(mdot(tot, tot) / q**2 - 1))
        n = len(self.m)
        assert p.shape[1] == n + (self.photon is not None)
        for i, m in enumerate(self.m):
            # the shell is resolved only relative to the energy in the frame used
            err = max(err, np.max(np.abs(mdot(p[:, i], p[:, i]) - m * m) / np.maximum(p[0, i], tot[0])**2))
        if self.photon is not None:
            k = p[:, n]
            err = max(err, np.max(np.abs(mdot(k, k)) / k[0]**2), np.max(np.abs(mdot(tot, k) / (q * self.photon) - 1)))
        self.bad = max(self.bad, float(err))
        return self.f(p)


def poly(rng, n):
    """Random positive polynomial of invariants; scaled to be dimensionless by q^2."""
    c = rng.uniform(0.1, 1, (n, n))
    d = rng.uniform(0, 2)

    def f(p, q):
        out = d
        for i in range(n):
            for j in range(i):
                out = out + c[i, j] * mdot(p[:, i], p[:, j]) / q**2
        return out
    return f


def ref2(f_rad, f_non, q, m1, m2, e, n=64):
    """dN/dE for a two-body system, Gauss-Legendre in the pair angle (log-refined), built in the overall rest frame."""
    s = q * q
    sp = s - 2 * q * e
    if e <= 0 or sp <= (m1 + m2)**2:
        return 0.0
    lam = A.kallen(sp, m1 * m1, m2 * m2)
    r = np.sqrt(sp)
    pm = np.sqrt(lam) / (2 * r)
    z, w = A.peaked(max(min(m1, m2)**2 / s, 1e-11), 16)
    e1 = np.hypot(pm, m1)
    e2 = np.hypot(pm, m2)
    o = np.ones_like(z)
    sn = np.sqrt(1 - z * z)
    g, gb = (q - e) / r, e / r            # pair moves along -z in the overall frame
    def boost(en, px, pz):
        return np.stack([g * en - gb * pz, px, 0 * o, g * pz - gb * en])
    a, b = boost(e1 * o, pm * sn, pm * z), boost(e2 * o, -pm * sn, -pm * z)
    k = np.stack([e * o, 0 * o, 0 * o, e * o])
    rad = np.sum(w * f_rad(np.stack([a, b, k], axis=1))) / 2 * np.sqrt(lam) / (8 * np.pi * sp) * e / (4 * np.pi**2)
    lam0 = A.kallen(s, m1 * m1, m2 * m2)
    p0 = np.sqrt(lam0) / (2 * q)
    x1 = np.stack([np.hypot(p0, m1) * o, p0 * sn, 0 * o, p0 * z])
    x2 = np.stack([np.hypot(p0, m2) * o, -p0 * sn, 0 * o, -p0 * z])
    non = np.sum(w * f_non(np.stack([x1, x2], axis=1))) / 2 * np.sqrt(lam0) / (8 * np.pi * s)
    return rad / non


def generator(rec, _):
    """Two-body systems: adaptive quadrature against independent quadrature."""
    from hazma.spectra import dnde_photon_fsr
    rng = rec.rng
    for _ in range(rec.n(25, 400)):
        q = float(10 ** rng.uniform(-1, 4))
        m1, m2 = (q * 10 ** rng.uniform(-3, -0.31, 2)).tolist()
        if rng.random() < 0.1:
            m2 = 0.0
        fr, fn = poly(rng, 3), poly(rng, 2)
        scale = 10 ** rng.uniform(-40, 40)
        emax = (q * q - (m1 + m2)**2) / (2 * q)
        es = np.append(emax * np.array([10 ** rng.uniform(-6, 0), rng.uniform(0, 1), 1 - 10 ** rng.uniform(-6, -1)]), [emax * 1.0001, 2 * emax, 0.0, -1.0])
        for e in es:
            e = float(e)
            wr = Watch(lambda p: scale * fr(p, q), [m1, m2], q, e)
            wn = Watch(lambda p: scale * fn(p, q), [m1, m2], q)
            d, err = dnde_photon_fsr(e, q, [m1, m2], wr, wn)
            ref = ref2(lambda p: fr(p, q), lambda p: fn(p, q), q, m1, m2, e)
            rec.ok(np.ndim(d) == 0 and np.ndim(err) == 0 and err >= 0, "gen:scalar")
            sp = q * q - 2 * q * e
            lam = abs(A.kallen(sp, m1 * m1, m2 * m2))          # its cancellation near the endpoint
            rec.close(d, ref, "gen:value", rtol=min(1e-8 + 3e-15 * q**4 / max(lam, 1e-300) + 1e-15 * q * q / max(sp - (m1 + m2)**2, 1e-300), 0.5), q=q, m=(m1, m2), e=e)
            rec.ok(err <= 1e-6 * abs(d) or d == 0, "gen:error", value=err, spectrum=d)
            rec.ok(wn.bad < 1e-9 and wr.bad < 1e-8 * (1 + 1e-7 / max(e / q, 1e-12)), "gen:momenta", rad=wr.bad, non=wn.bad, e=e, q=q, m=(m1, m2))
            rec.count("momentum sets", wr.calls + wn.calls)
        arr = dnde_photon_fsr(es, q, [m1, m2], lambda p: fr(p, q), lambda p: fn(p, q))
        one = [dnde_photon_fsr(float(e), q, [m1, m2], lambda p: fr(p, q), lambda p: fn(p, q)).dnde for e in es]
        rec.ok(arr.dnde.shape == es.shape and np.array_equal(arr.dnde, one) and np.all(arr.dnde[3:] == 0), "gen:array", arr=arr.dnde, one=one)
        # exchanging the two particles together with the matrix element changes nothing
        sw = lambda f: lambda p: f(p[:, [1, 0] + list(range(2, p.shape[1]))], q)
        ex = dnde_photon_fsr(es, q, [m2, m1], sw(fr), sw(fn)).dnde
        rec.close(ex, arr.dnde, "gen:exchange", rtol=1e-7, atol=1e-300)


def multibody(rec, _):
    """Three and more bodies: Monte Carlo within its own error, seeds, conservation."""
    from hazma.spectra import dnde_photon_fsr
    from ._ps import volume
    rng = rec.rng
    pulls = []
    for _ in range(rec.n(20, 200)):
        n = int(rng.integers(2, 6))
        q = float(10 ** rng.uniform(0, 4))
        ms = (q * rng.dirichlet(np.ones(n)) * rng.uniform(0.05, 0.85)).tolist()
        fr, fn = poly(rng, n + 1), poly(rng, n)
        emax = (q * q - sum(ms)**2) / (2 * q)
        e = float(emax * rng.uniform(0.05, 0.9))
        seed = int(rng.integers(0, 2**31))
        kw = dict(method="rambo", npts=4000, seed=seed)
        wr = Watch(lambda p: fr(p, q), ms, q, e)
        wn = Watch(lambda p: fn(p, q), ms, q)
        d, err = dnde_photon_fsr(e, q, ms, wr, wn, **kw)
        rec.ok(wr.bad < 1e-8 and wn.bad < 1e-8 and wr.calls >= 4000, "mc:momenta", rad=wr.bad, non=wn.bad, n=n, ms=ms, q=q, e=e)
        rec.count("momentum sets", wr.calls + wn.calls)
        d2, err2 = dnde_photon_fsr(e, q, ms, lambda p: 1e30 * fr(p, q), lambda p: 1e30 * fn(p, q), **kw)
        rec.close(d2, d, "mc:seeded-and-scale-free", rtol=1e-10, n=n)
        d3 = dnde_photon_fsr(np.array([e, 1.01 * emax]), q, ms, lambda p: fr(p, q), lambda p: fn(p, q), **kw)
        rec.ok(d3.dnde.shape == (2,) and d3.dnde[1] == 0 and d3.error[1] == 0, "mc:endpoint", value=d3)
        if n == 2:
            ref = ref2(lambda p: fr(p, q), lambda p: fn(p, q), q, *ms, e)
        else:
            # constant matrix elements: ratio of phase-space volumes
            d, err = dnde_photon_fsr(e, q, ms, lambda p: np.ones(np.shape(p)[2:]), lambda p: np.ones(np.shape(p)[2:]), **kw)
            sp = np.sqrt(q * q - 2 * q * e)
            ref = e / (4 * np.pi**2) * volume(sp, ms) / volume(q, ms)
        rec.ok(err > 0 and np.isfinite(err), "mc:error-finite", value=err)
        pull = (d - ref) / max(err, 1e-9 * abs(ref))
        pulls.append(pull)
        rec.ok(abs(pull) < 7, "mc:value", n=n, value=d, error=err, expected=ref, ms=ms, q=q, e=e)
        # linear matrix element, symmetric system: <p_i.k> has a closed form
        m = float(q * rng.uniform(0.01, 0.3))
        g = lambda p: mdot(p[:, 0], p[:, -1])
        d, err = dnde_photon_fsr(e := float((q * q - 9 * m * m) / (2 * q) * rng.uniform(0.1, 0.8)), q, [m] * 3, g, lambda p: np.ones(np.shape(p)[2:]), **kw)
        sp = np.sqrt(q * q - 2 * q * e)
        ref = q * e / 3 * e / (4 * np.pi**2) * volume(sp, [m] * 3) / volume(q, [m] * 3)
        rec.ok(abs(d - ref) < 7 * max(err, 1e-9 * ref), "mc:linear", value=d, error=err, expected=ref, q=q, m=m, e=e)
    if len(pulls) >= 10:
        rec.ok(np.sqrt(np.mean(np.square(pulls))) < 2.2, "mc:pulls", rms=float(np.sqrt(np.mean(np.square(pulls)))))


def contract(rec, _):
    from hazma.spectra import dnde_photon_fsr
    from hazma.hazma_errors import RamboCMETooSmall
    one = lambda p: np.ones(np.shape(p)[2:])
    rng = rec.rng
    for _ in range(rec.n(10, 60)):
        q = float(10 ** rng.uniform(0, 3))
        f = lambda **k: lambda: dnde_photon_fsr(0.1 * q, k.pop("cme", q), k.pop("ms", [0.1 * q, 0.1 * q]), k.pop("rad", one), k.pop("non", one), **k)
        rec.raises(f(ms=[0.1 * q]), ValueError, "contract:one-mass")
        rec.raises(f(ms=[0.5 * q, 0.5 * q]), RamboCMETooSmall, "contract:at-threshold")
        rec.raises(f(ms=[0.5 * q, 0.6 * q]), RamboCMETooSmall, "contract:below-threshold")
        rec.raises(f(ms=[0.1 * q] * 3, method="quad"), ValueError, "contract:quad-three")
        rec.raises(f(method="simps"), ValueError, "contract:method")
        rec.raises(f(ms=[0.1 * q] * 3, npts=1), ValueError, "contract:npts")
        rec.raises(f(ms=[0.1 * q] * 3, npts=10.5), ValueError, "contract:npts-float")
        rec.raises(f(non=lambda p: 0.0 * one(p)), ValueError, "contract:zero-nonrad")
        rec.raises(f(ms=[0.1 * q] * 4, non=lambda p: 0.0 * one(p), npts=50), ValueError, "contract:zero-nonrad-mc")


def ap(rec, _):
    """Altarelli-Parisi functions against their definition and the exact closed forms."""
    from hazma.spectra import altarelli_parisi as spectra
    from hazma.parameters import alpha_em
    from hazma import utils as hazma_utils
    import warnings
    rng = rec.rng
    for _ in range(rec.n(200, 4000)):
        q = float(10 ** rng.uniform(-1, 5))
        m = float(q * 10 ** rng.uniform(-5, 0))
        ch = float(rng.choice([1.0, -1.0, 2 / 3, -1 / 3, 2.0]))
        x = np.concatenate([10 ** rng.uniform(-6, 0, 4), 1 - 10 ** rng.uniform(-8, 0, 3), rng.uniform(1, 5, 1), [1.0]])
        for scal, fx, fe in ((False, spectra.dndx_photon_ap_fermion, spectra.dnde_photon_ap_fermion), (True, spectra.dndx_photon_ap_scalar, spectra.dnde_photon_ap_scalar)):
            split = 2 * (1 - x) / x if scal else (1 + (1 - x)**2) / x
            arg = np.maximum(q * q * (1 - x) / m**2, 1e-300)
            lg = np.log(arg) - 1
            want = np.where(lg > 0, ch * ch * alpha_em / (2 * np.pi) * split * lg, 0.0)
            # rounding of the logarithm's argument near its zero
            slack = ch * ch * alpha_em * np.abs(split) * 1e-14 * (1 + 1 / np.maximum(np.abs(1 - x), 1e-16))
            got = fx(x.copy(), q * q, m, charge=ch)
            rec.ok(got.shape == x.shape and np.all(np.isfinite(got)) and np.all(got >= 0), "ap:sane", x=x, got_=got)
            rec.close(got, want, "ap:dndx", rtol=1e-11, atol=slack, q=q, m=m, scalar=scal)
            e = x * q / 2
            got = fe(e, q * q, m, charge=ch)
            rec.close(got, want * 2 / q, "ap:dnde", rtol=1e-11, atol=slack * 4 / q, q=q, m=m, scalar=scal)
            # the deprecated helpers count both legs of the radiating pair
            old = hazma_utils.dnde_altarelli_parisi_scalar if scal else hazma_utils.dnde_altarelli_parisi_fermion
            both = want * 2 / q * 2 / ch**2
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                good, v = rec.guard("ap:pair-raises", lambda: old(e, q, m))
                if good:
                    rec.close(v, both, "ap:pair", rtol=1e-11, atol=slack * 8 / q / ch**2, q=q, m=m, scalar=scal)
                    j = int(rng.integers(0, len(x)))
                    rec.close(old(float(e[j]), q, m), both[j], "ap:pair-scalar", rtol=1e-11, atol=float(slack[j]) * 8 / q / ch**2, q=q, m=m, scalar=scal)
            for g, xx in ((fx, x), (fe, e)):
                j = int(rng.integers(0, len(x)))
                full = g(xx, q * q, m, charge=ch)
                good, v = rec.guard("ap:scalar-raises", lambda: g(float(xx[j]), q * q, m, charge=ch))
                if good:
                    rec.ok(np.ndim(v) == 0 and v == full[j], "ap:scalar", value=v, element=full[j])
                good, v = rec.guard("ap:list-raises", lambda: g(list(map(float, xx)), q * q, m, charge=ch))
                if good:
                    rec.ok(np.array_equal(v, full), "ap:list")


# ---------------------------------------------------------------- radiative amplitudes, summed over spins; e=1 for the charge
def ff_gamma(m, vertex):
    """sum over spins of |f fbar gamma|^2 for a current `vertex` ("S" or "V"), divided by the couplings."""
    verts = [(A.ONE, 1.0)] if vertex == "S" else [(A.G[i], -A.METRIC[i, i]) for i in range(4)]

    def rad(p):
        p = np.moveaxis(p, 0, -1)                      # particle, event, component
        a, b, k = p[0], p[1], p[2]
        out = 0
        for g, sg in verts:
            for i in range(4):
                t = A.G[i] @ (A.slash(a + k) + m * A.ONE) @ g / (2 * A.dot(a, k))[..., None, None] \
                    - g @ (A.slash(b + k) - m * A.ONE) @ A.G[i] / (2 * A.dot(b, k))[..., None, None]
                out = out - A.METRIC[i, i] * sg * A.trace(A.slash(a) + m * A.ONE, t, A.slash(b) - m * A.ONE, A.bar(t))
        return np.real(out)

    def non(p):
        p = np.moveaxis(p, 0, -1)
        a, b = p[0], p[1]
        return np.real(sum(sg * A.trace(A.slash(a) + m * A.ONE, g, A.slash(b) - m * A.ONE, A.bar(g)) for g, sg in verts))
    return rad, non


def pipi_gamma(vertex):
    def rad(p):
        p = np.moveaxis(p, 0, -1)
        a, b, k = p[0], p[1], p[2]
        ak, bk = A.dot(a, k)[..., None], A.dot(b, k)[..., None]
        if vertex == "S":
            c = a / ak - b / bk
            return -A.dot(c, c)
        # current (a-b)^mu, radiated legs carry a+k or b+k, plus the seagull 2 g^{mu nu}
        out = 0
        for i in range(4):
            for j in range(4):
                t = (a[..., i] / ak[..., 0]) * (a + k - b)[..., j] - (b[..., i] / bk[..., 0]) * (a - b - k)[..., j] - 2 * A.METRIC[i, j]
                out = out + A.METRIC[i, i] * A.METRIC[j, j] * t * t
        return out

    def non(p):
        p = np.moveaxis(p, 0, -1)
        d = p[0] - p[1]
        return np.ones(d.shape[:-1]) if vertex == "S" else -A.dot(d, d)
    return rad, non


def closed_forms(rec, _):
    """The mediators' FSR spectra against explicit traces; generator and closed forms agree."""
    from hazma import parameters as P
    from hazma.scalar_mediator import ScalarMediator
    from hazma.vector_mediator import VectorMediator
    from hazma.spectra import dnde_photon_fsr
    rng = rec.rng
    e2 = 4 * np.pi * P.alpha_em
    for _ in range(rec.n(40, 450)):
        q = float(10 ** rng.uniform(0.1, 4.5))
        mx = q / 2 * float(rng.uniform(0.01, 1.0))
        S = ScalarMediator(mx, 50.0, 1.0, 1e-3, 1e-3, 1e-3, 1e5)
        V = VectorMediator(mx, 50.0, 1.0, 1e-3, 2e-3, 0.0, 1e-3, 1e-3)
        mf = float(rng.choice([P.electron_mass, P.muon_mass, q * 10 ** rng.uniform(-3, -0.4)]))
        jobs = [("S", "ff", mf, lambda e: S.dnde_xx_to_s_to_ffg(e, q, mf)), ("S", "pipi", P.charged_pion_mass, lambda e: S.dnde_xx_to_s_to_pipig(e, q))]
        jobs += [("V", "ff", m, lambda e, f=f: V.dnde_xx_to_v_to_ffg(e, q, f)) for f, m in (("e", P.electron_mass), ("mu", P.muon_mass))]
        jobs += [("V", "pipi", P.charged_pion_mass, lambda e: V.dnde_xx_to_v_to_pipig(e, q))]
        for vert, kind, m, fn in jobs:
            emax = (q * q - 4 * m * m) / (2 * q)
            if emax <= 0:
                e = np.array([0.1, 0.5]) * q
                good, v = rec.guard("closed:below-threshold-raises", lambda: fn(e))
                if good:
                    rec.ok(np.all(np.asarray(v) == 0), "closed:below-threshold", value=v, q=q, m=m, vert=vert, kind=kind)
                continue
            if 2 * m / q > 0.9999:
                continue
            rad, non = ff_gamma(m, vert) if kind == "ff" else pipi_gamma(vert)
            es = emax * np.array([10 ** rng.uniform(-5, 0), rng.uniform(0, 1), 1 - 10 ** rng.uniform(-5, -1), 1.001, 1.7])
            v = np.asarray(fn(es))
            rec.ok(v.shape == es.shape and np.all(np.isfinite(v)) and np.all(v >= 0) and np.all(v[3:] == 0), "closed:sane", value=v, vert=vert, kind=kind, q=q, m=m)
            for e, g in zip(es[:3], v):
                ref = e2 * ref2(rad, non, q, m, m, float(e))
                mu2, x = m * m / q / q, 2 * e / q
                # rounding of 1 - sqrt(1 - 4 mu^2/(1-x)) and of differences near the endpoint
                rt = 1e-8 + 1e-14 * (1 - x) / mu2 + 1e-13 / max(1 - e / emax, 1e-16)**1.5 + 1e-12 / (1 - 4 * mu2)**2
                rec.close(float(g), float(ref), f"closed:{vert}:{kind}", rtol=min(rt, 0.3), q=q, m=m, e=e)
                one = fn(float(e))
                rec.ok(np.ndim(one) == 0 and abs(one - g) <= min(rt, 0.3) * g, "closed:scalar", one=one, element=g)
            if mx < q / 2 and rng.random() < 0.3:
                e = float(emax * rng.uniform(0.05, 0.95))
                sh = lambda f: lambda p: f(p[..., None])[0] if np.ndim(p) == 2 else f(p)
                d = dnde_photon_fsr(e, q, [m, m], lambda p: e2 * sh(rad)(p), sh(non)).dnde
                rec.close(float(fn(e)), d, "closed:generator", rtol=1e-6 + 1e-13 * q * q / m / m, q=q, m=m, vert=vert, kind=kind)
        # closed initial state
        big_s = ScalarMediator(q * 0.6, 50.0, 1.0, 1e-3, 1e-3, 1e-3, 1e5)
        big_v = VectorMediator(q * 0.6, 50.0, 1.0, 1e-3, 2e-3, 0.0, 1e-3, 1e-3)
        e = 0.1 * q
        vals = [big_s.dnde_xx_to_s_to_ffg(e, q, P.electron_mass), big_s.dnde_xx_to_s_to_pipig(e, q), big_v.dnde_xx_to_v_to_ffg(e, q, "e"), big_v.dnde_xx_to_v_to_pipig(e, q)]
        rec.ok(all(v == 0 for v in vals), "closed:initial-state", values=vals, q=q)


def tasks(ck):
    return [("generator", generator, None), ("multibody", multibody, None), ("contract", contract, None), ("ap", ap, None),
            ("closed-forms", closed_forms, None)]
