"""Vector form-factor amplitudes against the herwig4dm reference implementation."""
import pathlib
import sys
import numpy as np

PROPERTY = "P22"
RULE = ("one judged complex amplitude (or array/isospin/linearity relation) per event at random energies from threshold to 6 GeV, random "
        "Dalitz points or four-body momenta and random quark couplings; oracle = an independent implementation with its own "
        "constants; non-trivial = non-zero amplitude")
NATIVE = None
ROOT = pathlib.Path(__file__).resolve().parents[2]


def ref():
    sys.path.insert(0, str(ROOT / "ref"))
    import vff
    return vff


def couplings(rng):
    k = rng.integers(0, 7)
    fixed = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (2 / 3, -1 / 3, -1 / 3), (1.0, 1.0, 1.0)]
    return fixed[k] if k < 5 else tuple(float(x) for x in rng.uniform(-2, 2, 3))


def ff(name):
    import hazma.form_factors.vector as v
    return getattr(v, "VectorFormFactor" + name)()


def same(rec, got, want, key, rtol=2e-6, scale=None, **d):
    """|got - want| relative to the modulus (of the amplitude, not of its real and imaginary parts)."""
    got, want = np.asarray(got, complex), np.asarray(want, complex)
    if got.shape != want.shape:
        rec.fail(key + ":shape", shape=str(got.shape), expected=str(want.shape), **d)
        return
    mod = np.abs(want) if scale is None else np.abs(want) + scale
    rec.ok(bool(np.all(np.isfinite(got)) and np.all(np.abs(got - want) <= rtol * mod)), key,
           result=np.atleast_1d(got)[:3].tolist().__repr__(), expected=np.atleast_1d(want)[:3].tolist().__repr__(), **d)
    rec.count("nonzero", int(np.any(want != 0)))


TWO = ["PiPi", "Pi0Pi0", "KK", "K0K0", "Pi0Gamma", "EtaGamma", "Pi0Omega", "Pi0Phi", "EtaOmega", "EtaPhi"]
SHAPES = ["PiPiOmega", "Pi0Pi0Omega"]


def two(rec, name):
    rng = rec.rng
    R = ref().TWO[name]
    f = ff(name)
    th = float(sum(f.fsp_masses))
    for i in range(rec.n(40, 400)):
        c = couplings(rng)
        n = int(rng.integers(2, 7))
        q = th + 10 ** rng.uniform(-1, 3.75, n)
        if rng.random() < 0.5:
            q[0] = [775.26, 782.65, 1019.461, 1465.0, 1680.0, 1720.0][rng.integers(0, 6)] + rng.normal() * 2
            q = np.where(q <= th, th + 1.0, q)
        want = np.array([R(x * 1e-3, c) for x in q], complex)
        got = np.asarray(f.form_factor(q=q, couplings=c), complex)
        big = max(np.max(np.abs([R(x * 1e-3, (1.0, -1.0, 1.0)) for x in q])), np.max(np.abs(want))) * 1e-8
        same(rec, got, want, f"{name}:array", scale=big, q=q, c=c)
        same(rec, f.form_factor(q=float(q[0]), couplings=c), want[0], f"{name}:scalar", scale=big, q=q[0], c=c)
        # linear in the couplings
        c2 = tuple(float(x) for x in rng.uniform(-2, 2, 3))
        a, b = rng.uniform(-2, 2, 2)
        mix = tuple(a * x + b * y for x, y in zip(c, c2))
        g2 = np.asarray(f.form_factor(q=q, couplings=c2), complex)
        same(rec, f.form_factor(q=q, couplings=mix), a * got + b * g2, f"{name}:linear", rtol=1e-10,
             scale=1e-3 * (np.abs(a * got) + np.abs(b * g2) + big * 1e8), q=q, c=c)
        qi = np.unique((q + 1).astype(int))
        same(rec, f.form_factor(q=qi, couplings=c), f.form_factor(q=qi.astype(float), couplings=c), f"{name}:integer-energies", rtol=1e-12, scale=big, q=qi, c=c)
        if name not in SHAPES:
            lo = th * rng.uniform(0.05, 0.999, 3)
            mixed = np.concatenate([lo, q])
            gm = np.asarray(f.form_factor(q=mixed, couplings=c), complex)
            same(rec, gm[3:], want, f"{name}:array-crossing-threshold", scale=big, q=mixed, c=c)
        rec.count("energies", n)
    rec.sample(channel=name, q=q, couplings=c, amplitude=str(got[:2]))


def dalitz(rng, m, q, n):
    m1, m2, m3 = m
    s = (m2 + m3) ** 2 + ((q - m1) ** 2 - (m2 + m3) ** 2) * rng.uniform(0.001, 0.999, n)
    e1 = (q * q - s - m1 * m1) / (2 * np.sqrt(s))
    e3 = (s - m2 * m2 + m3 * m3) / (2 * np.sqrt(s))
    p1, p3 = np.sqrt(e1**2 - m1**2), np.sqrt(np.maximum(e3**2 - m3**2, 0))
    t = (e1 + e3) ** 2 - (p1**2 + p3**2 + 2 * p1 * p3 * rng.uniform(-1, 1, n))
    return s, t


def three(rec, name):
    rng = rec.rng
    R = ref().THREE[name]
    f = ff(name)
    th = float(sum(f.fsp_masses))
    ppp2 = name in ("PiPiEta", "PiPiEtaPrime")
    for i in range(rec.n(40, 400)):
        c = couplings(rng)
        q = float(th + 10 ** rng.uniform(0, 3.75))
        s, t = dalitz(rng, f.fsp_masses, q, int(rng.integers(2, 9)))
        call = (lambda s, t, c: f.form_factor(q, s, couplings=c)) if ppp2 else (lambda s, t, c: f.form_factor(q, s, t, couplings=c))
        want = np.array([R(q * 1e-3, x * 1e-6, y * 1e-6, c) for x, y in zip(s, t)], complex) * 1e-9
        full = np.max(np.abs([R(q * 1e-3, x * 1e-6, y * 1e-6, (1.0, -1.0, 1.0)) for x, y in zip(s, t)])) * 1e-9
        got = np.asarray(call(s, t, c), complex)
        if got.ndim == 0:
            got = np.full(want.shape, got)
        tol = 4e-6 if name == "PiPiPi0" else 2e-6
        same(rec, got, want, f"{name}:array", rtol=tol, scale=full * 1e-8, q=q, s=s, t=t, c=c)
        one = call(float(s[0]), float(t[0]), c)
        same(rec, one, want[0], f"{name}:scalar", rtol=tol, scale=full * 1e-8, q=q, s=s[0], t=t[0], c=c)
        if name in ("PiPiPi0", "Pi0K0K0", "Pi0KpKm"):
            # identical up to charge: exchanging the two equal-mass mesons leaves the amplitude alone
            m1, m2, m3 = f.fsp_masses
            u = q * q + m1 * m1 + m2 * m2 + m3 * m3 - s - t
            sw = (s, u) if name == "PiPiPi0" else (t, s)
            same(rec, call(*sw, c), got, f"{name}:exchange-symmetry", rtol=1e-9, scale=full * 1e-6, q=q, s=s, t=t, c=c)
        c2 = tuple(float(x) for x in rng.uniform(-2, 2, 3))
        a, b = rng.uniform(-2, 2, 2)
        mix = tuple(a * x + b * y for x, y in zip(c, c2))
        g2 = np.asarray(call(s, t, c2), complex)
        same(rec, np.broadcast_to(call(s, t, mix), want.shape), a * got + b * g2, f"{name}:linear", rtol=1e-10,
             scale=1e-3 * (np.abs(a * got) + np.abs(b * g2) + full), q=q, c=c)
        rec.count("dalitz-points", len(s))
    rec.sample(channel=name, q=q, couplings=c, amplitude=str(got[:2]))


def four(rec, mode):
    rng = rec.rng
    V = ref()
    name = ("PiPiPi0Pi0", "PiPiPiPi")[mode]
    f = ff(name)
    from hv.checks import _ps
    ms = np.array(f.fsp_masses)
    rec.ok(np.allclose(ms, [139.57, 139.57, 134.977, 134.977] if mode == 0 else [139.57] * 4, atol=1e-2), f"{name}:masses", m=ms)
    for i in range(rec.n(30, 250)):
        q = float(ms.sum() + 10 ** rng.uniform(0.5, 3.6))
        n = 4
        p = events(rng, q, ms, n)                                  # (4, 4, n)
        if rng.random() < 0.3:                                     # current is covariant: any frame
            b = rng.uniform(-0.5, 0.5)
            g = 1 / np.sqrt(1 - b * b)
            p = np.stack([g * (p[0] + b * p[3]), p[1], p[2], g * (p[3] + b * p[0])])
        J = np.asarray(f.form_factor(p))
        if J.shape != (4, n):
            rec.fail(f"{name}:shape", shape=str(J.shape))
            return
        want = np.stack([V.four(mode, *(p[:, k, j] * 1e-3 for k in range(4))) for j in range(n)], axis=1)
        mod = np.sqrt(np.sum(np.abs(want) ** 2, axis=0))
        rec.ok(np.all(np.sqrt(np.sum(np.abs(J - want) ** 2, axis=0)) <= 1e-5 * mod), f"{name}:current", q=q, result=str(J[:, 0]), expected=str(want[:, 0]))
        # conserved current
        Q = p.sum(axis=1) * 1e-3
        qj = Q[0] * J[0] - (Q[1:] * J[1:]).sum(axis=0)
        rec.ok(np.all(np.abs(qj) <= 1e-9 * mod * np.abs(Q[0])), f"{name}:conserved", q=q, qj=str(qj))
        # Bose symmetry: exchanging identical pions leaves the current, charge conjugation flips it
        if mode == 0:
            perms = [((0, 1, 3, 2), 1), ((1, 0, 2, 3), -1)]
        else:
            perms = [((2, 1, 0, 3), 1), ((0, 3, 2, 1), 1), ((1, 0, 3, 2), -1)]
        for pm, sg in perms:
            Jp = np.asarray(f.form_factor(p[:, list(pm), :]))
            rec.ok(np.all(np.sqrt(np.sum(np.abs(Jp - sg * J) ** 2, axis=0)) <= 1e-8 * mod), f"{name}:permutation", q=q, perm=pm)
        rec.count("currents", n)


def events(rng, q, ms, n):
    """Sequential two-body decays with isotropic directions (any weight: only valid momenta are needed)."""
    out = np.zeros((4, len(ms), n))
    for j in range(n):
        cut = np.sort(rng.uniform(0, 1, len(ms) - 2))[::-1]
        free = q - ms.sum()
        M = [q] + [ms[k:].sum() + free * cut[k - 1] for k in range(1, len(ms) - 1)] + [ms[-1]]
        P = np.array([q, 0.0, 0.0, 0.0])
        for k in range(len(ms) - 1):
            a, b = ms[k], M[k + 1]
            e = (M[k] ** 2 + a * a - b * b) / (2 * M[k])
            pm = np.sqrt(max(e * e - a * a, 0))
            v = rng.normal(size=3)
            v *= pm / np.linalg.norm(v)
            x = boost(np.array([e, *v]), P, M[k])
            out[:, k, j] = x
            P = P - x
        out[:, -1, j] = P
    return out


def boost(p, P, M):
    g = P[0] / M
    b = P[1:] / P[0]
    bp = b @ p[1:]
    b2 = b @ b
    k = (g - 1) * bp / b2 + g * p[0] if b2 > 0 else 0.0
    return np.array([g * (p[0] + bp), *(p[1:] + b * k)])


def alpha(rec, _):
    """The running coupling inside the photon channels is the Herwig parametrisation, over all its ranges."""
    rng = rec.rng
    ref()
    from herwig4dm import alpha as A
    from hazma.form_factors.vector._alpha import alpha_em
    for _ in range(rec.n(60, 600)):
        s = 10 ** rng.uniform(-9, 4.5, 7)
        rec.close(alpha_em(s), [A.alphaEM(x) for x in s], "alpha:values", rtol=1e-10, s=s)
        rec.close(float(alpha_em(s[:1])[0]), A.alphaEM(s[0]), "alpha:single", rtol=1e-10, s=s[0])


def tasks(ck):
    out = [(f"two:{n}", two, n) for n in TWO + SHAPES]
    out += [(f"three:{n}", three, n) for n in ("PiPiEta", "PiPiEtaPrime", "PiPiPi0", "Pi0K0K0", "Pi0KpKm", "PiKK0")]
    out += [("four:neutral", four, 0), ("four:charged", four, 1), ("alpha", alpha, None)]
    return out
