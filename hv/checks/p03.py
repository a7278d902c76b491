"""Phase-space energy and invariant-mass distributions."""
import itertools
import numpy as np
from . import _ps

PROPERTY = "P03"
NATIVE = None
RULE = ("one distribution object per (source, n, cme, masses, matrix element, bins, batching); each is judged for "
        "normalisation, support, sign, and against an independent marginal; non-trivial = distribution with positive norm")
ASSUME = ["Monte-Carlo shapes are judged through an exact twin histogram of the same seeded events and a chi-square bound"]


def judge(rec, d, lo, hi, key, scale, **kw):
    x, p = np.asarray(d.bins), np.asarray(d.probabilities)
    rec.count("distributions_judged")
    rec.ok(len(x) == len(p) + 1 == len(d) + 1 and np.all(np.diff(x) > 0), key + ":edges", **kw)
    rec.ok(abs(x[0] - lo) < 1e-9 * scale and abs(x[-1] - hi) < 1e-9 * scale, key + ":support", lo=lo, hi=hi, got=x[[0, -1]], **kw)
    a, b = d.limits()
    rec.ok(a == x.min() and b == x.max(), key + ":limits", **kw)
    rec.close(np.asarray(d.bin_centers), 0.5 * (x[1:] + x[:-1]), key + ":centers", rtol=1e-12, **kw)
    rec.ok(np.all(p >= 0) and np.all(np.isfinite(p)), key + ":sign", p=p, **kw)
    rec.close(np.sum(p * np.diff(x)), 1.0, key + ":normalised", rtol=1e-9, **kw)
    # call = linear interpolation between centres, zero outside the support
    c = np.asarray(d.bin_centers)
    t = np.concatenate([c, np.linspace(x[0], x[-1], 17), [lo - 0.3 * scale, hi + 0.3 * scale]])
    rec.close(d(t), np.interp(t, c, p, left=0.0, right=0.0), key + ":call", rtol=1e-9, atol=1e-14 / scale, **kw)
    w = np.diff(x)
    mean = np.sum(p * c * w)
    rec.ok(lo - 1e-9 * scale <= mean <= hi + 1e-9 * scale, key + ":mean-in-support", mean=mean, **kw)


def _limits(cme, m):
    m = np.asarray(m)
    S = m.sum()
    e = [(m[i], (cme**2 + m[i] ** 2 - (S - m[i]) ** 2) / (2 * cme)) for i in range(len(m))]
    inv = {(i, j): (m[i] + m[j], cme - (S - m[i] - m[j])) for i, j in itertools.combinations(range(len(m)), 2)}
    return e, inv


def mc(rec, i):
    from hazma.phase_space import Rambo
    rng = rec.rng
    for _ in range(rec.n(80, 500)):
        n = int(rng.integers(3, 6))
        cme = float(10 ** rng.uniform(-2, 4))
        m = _ps.random_masses(rng, n, cme, edge=False)
        el, il = _limits(cme, m)
        N, nb = int(rng.integers(400, 3000)), int(rng.integers(2, 40))
        seed = int(rng.integers(1 << 30))
        use_m = rng.random() < 0.5
        msq = (lambda p: 1 + p[0, 0] / cme + (p[0, -1] / cme) ** 2) if use_m else None
        batch = None if rng.random() < 0.5 else int(N // rng.integers(2, 6))
        r = Rambo(cme, m, msqrd=msq)
        ds = r.energy_distributions(N, nb, batch_size=batch, seed=seed)
        iv = r.invariant_mass_distributions(N, nb, batch_size=batch, seed=seed)
        rec.ok(len(ds) == n, "energy:count", n=n)
        rec.ok(set(iv) == set(il), "invmass:pairs", n=n, got=str(sorted(iv)))
        if batch is None:
            chunks = [Rambo(cme, m, msqrd=msq).generate(N, seed=seed)]
        else:
            chunks = [(p.copy(), w.copy()) for p, w in Rambo(cme, m, msqrd=msq).generator(N, batch, seed=seed)]
        P = np.concatenate([c[0] for c in chunks], axis=-1)
        W = np.concatenate([c[1] for c in chunks])
        for a in range(n):
            judge(rec, ds[a], el[a][0], el[a][1], "mc-energy", cme, n=n, a=a, batch=str(batch))
            rec.ok(len(ds[a]) == nb, "mc-energy:nbins", nb=nb)
            b = np.linspace(*el[a], nb + 1)
            h = np.histogram(P[0, a], bins=b, weights=W)[0]
            # one event may sit on a bin edge and move by one ulp
            tol = 3 * W.max() / h.sum() / np.diff(b).min()
            rec.close(ds[a].probabilities, h / np.sum(h * np.diff(b)), "mc-energy:twin", rtol=1e-6, atol=tol, n=n, a=a)
            rec.ok(P[0, a].min() >= el[a][0] * (1 - 1e-9) and P[0, a].max() <= el[a][1] * (1 + 1e-9), "mc-energy:events-inside", n=n)
        for (a, c), d in iv.items():
            judge(rec, d, il[a, c][0], il[a, c][1], "mc-invmass", cme, n=n, a=(a, c), batch=str(batch))
            rec.ok(len(d) == nb, "mc-invmass:nbins", nb=nb)
            q = P[:, a] + P[:, c]
            M = np.sqrt(np.abs(q[0] ** 2 - (q[1:] ** 2).sum(0)))
            b = np.linspace(*il[a, c], nb + 1)
            h = np.histogram(M, bins=b, weights=W)[0]
            tol = 3 * W.max() / h.sum() / np.diff(b).min()
            rec.close(d.probabilities, h / np.sum(h * np.diff(b)), "mc-invmass:twin", rtol=1e-6, atol=tol, n=n, a=(a, c))
        # energy conservation of means: sum_i <E_i> = cme up to binning
        tot = sum(np.sum(d.probabilities * d.bin_centers * np.diff(d.bins)) for d in ds)
        width = sum(np.diff(d.bins).max() for d in ds)
        rec.ok(abs(tot - cme) < 0.5 * width + 1e-9 * cme, "mc-energy:mean-sum", tot=tot, cme=cme)


def marginal(rec, i):
    """MC marginals against the recursive phase-space marginal (chi-square)."""
    from hazma.phase_space import Rambo
    rng = rec.rng
    for _ in range(rec.n(8,40)):
        n = int(rng.integers(3, 6))
        cme = float(10 ** rng.uniform(0, 3))
        m = _ps.random_masses(rng, n, cme, edge=False)
        el, _il = _limits(cme, m)
        N, nb = rec.n(60000, 200000), 12
        seed = int(rng.integers(1 << 30))
        ds = Rambo(cme, m).energy_distributions(N, nb, seed=seed)
        for a in range(n):
            rest = list(np.delete(m, a))
            fine = np.linspace(*el[a], nb * 20 + 1)
            c = 0.5 * (fine[1:] + fine[:-1])
            s = np.sqrt(np.clip(cme**2 + m[a] ** 2 - 2 * cme * c, 0, None))
            dens = np.sqrt(np.clip(c**2 - m[a] ** 2, 0, None)) * _ps._vol(np.maximum(s, 1e-300), rest)
            want = dens.reshape(nb, 20).sum(1)
            want = want / want.sum()
            got = ds[a].probabilities * np.diff(ds[a].bins)
            # errors from the effective number of events
            sig = np.sqrt(want / N) * 3 + 4e-4
            rec.ok(np.all(np.abs(got - want) < 6 * sig), "mc-energy:marginal", n=n, a=a, cme=cme, m=m, got=got, want=want)


def quad(rec, i):
    from hazma.phase_space import ThreeBody
    rng = rec.rng
    for k in range(rec.n(24, 150)):
        cme = float(10 ** rng.uniform(-1, 4))
        m = _ps.random_masses(rng, 3, cme, edge=False)
        if k % 4 == 0:
            m[rng.integers(3)] = 0
        el, il = _limits(cme, m)
        nb = int(rng.integers(4, 40))
        mat = k % 3
        if mat == 0:
            f, sig = None, None
            F = lambda s, t: 1.0 + 0 * s
        elif mat == 1:
            F = f = lambda s, t: 1.0 + 2 * s / cme**2 + 0.3 * (t / cme**2) ** 2
            sig = None
        else:
            F = lambda s, t: 1.0 + 2 * s / cme**2 + 0.3 * (t / cme**2) ** 2
            sig = "momenta"

            def f(p):
                q, r = p[:, 1] + p[:, 2], p[:, 0] + p[:, 2]
                return F(q[0] ** 2 - (q[1:] ** 2).sum(0), r[0] ** 2 - (r[1:] ** 2).sum(0))
        tb = ThreeBody(cme, list(m), msqrd=f, msqrd_signature=sig)
        ds = tb.energy_distributions(nbins=nb)
        iv = tb.invariant_mass_distributions(nbins=nb)
        rec.ok(len(ds) == 3 and set(iv) == {(0, 1), (0, 2), (1, 2)}, "quad:count")
        x, w = np.polynomial.legendre.leggauss(40)
        u = x * 1.0
        for a in range(3):
            judge(rec, ds[a], *el[a], "quad-energy", cme, a=a, mat=mat, cme=cme)
            b, c = [j for j in range(3) if j != a]

            def dens(E):
                """dPhi/dE_a weighted by F, un-normalised."""
                s_bc = cme**2 + m[a] ** 2 - 2 * cme * E
                rs = np.sqrt(s_bc)
                ps = _ps.p2(rs, m[b], m[c])
                ea = (cme**2 - s_bc - m[a] ** 2) / (2 * rs)
                pa = np.sqrt(np.clip(ea**2 - m[a] ** 2, 0, None))
                ec = np.hypot(m[c], ps)
                tac = m[a] ** 2 + m[c] ** 2 + 2 * ea * ec + 2 * pa * ps * u
                tab = cme**2 + np.sum(m**2) - s_bc - tac
                inv = {frozenset((b, c)): s_bc, frozenset((a, c)): tac, frozenset((a, b)): tab}
                val = F(inv[frozenset((1, 2))], inv[frozenset((0, 2))])
                return 2 * pa * ps * np.sum(w * val)
            E = ds[a].bin_centers
            raw = np.array([dens(e) for e in E])
            rec.close(ds[a].probabilities, raw / np.sum(raw * np.diff(ds[a].bins)), "quad-energy:marginal", rtol=1e-5,
                      atol=1e-7 / cme, a=a, mat=mat, cme=cme, m=m)
            key = (b, c)
            judge(rec, iv[key], *il[key], "quad-invmass", cme, a=key, mat=mat, cme=cme)
            M = iv[key].bin_centers
            raw = np.array([mm * dens((cme**2 + m[a] ** 2 - mm**2) / (2 * cme)) for mm in M])
            rec.close(iv[key].probabilities, raw / np.sum(raw * np.diff(iv[key].bins)), "quad-invmass:marginal",
                      rtol=1e-5, atol=1e-7 / cme, a=key, mat=mat, cme=cme, m=m)
        # the Monte-Carlo route of the same object agrees
        if mat != 2:
            dr = tb.energy_distributions(nbins=6, method="rambo", npts=30000)
            ir = tb.invariant_mass_distributions(nbins=6, method="rambo", npts=30000)
            dq = tb.energy_distributions(nbins=241)
            iq = tb.invariant_mass_distributions(nbins=241)
            pairs = [(dr[a], dq[a], a) for a in range(3)] + [(ir[k2], iq[k2], k2) for k2 in ir]
            for r_, q_, tag in pairs:
                edges = r_.bins
                cdf = np.concatenate([[0], np.cumsum(q_.probabilities * np.diff(q_.bins))])
                want = np.diff(np.interp(edges, q_.bins, cdf))
                got = r_.probabilities * np.diff(edges)
                rec.ok(np.all(np.abs(got - want) < 0.03), "rambo-vs-quad", tag=str(tag), cme=cme, m=m, got=got, want=want)
    rec.raises(lambda: ThreeBody(10.0, [1.0, 1.0, 1.0]).energy_distributions(5, method="x"), ValueError, "bad-method")
    rec.raises(lambda: ThreeBody(10.0, [1.0, 1.0, 1.0]).invariant_mass_distributions(5, method="x"), ValueError, "bad-method-inv")
    rec.raises(lambda: ThreeBody(1.0, [1.0, 1.0, 1.0]).invariant_mass_distributions(5), ValueError, "below-threshold-inv")


def objects(rec, i):
    """PhaseSpaceDistribution1D itself: normalisation, expectation values, validation."""
    from scipy import integrate as si
    from hazma.phase_space import PhaseSpaceDistribution1D as D
    rng = rec.rng
    for k in range(rec.n(150, 1500)):
        n = int(rng.integers(3, 60))
        x = np.cumsum(rng.uniform(0.1, 1, n + 1)) * 10 ** rng.uniform(-3, 3)
        y = rng.uniform(0, 1, n) * 10 ** rng.uniform(-20, 20)
        x0, y0 = x.copy(), y.copy()
        d = D(x, y)
        judge(rec, d, x[0], x[-1], "object", x[-1], n=n)
        rec.ok(np.array_equal(x, x0) and np.array_equal(y, y0), "object:inputs-unchanged", n=n)
        xr, yr = x.copy(), y.copy()
        kept = D(xr, yr)
        xr *= 3.0
        yr[:] = 1.0
        rec.ok(np.array_equal(kept.bins, d.bins) and np.array_equal(kept.probabilities, d.probabilities), "object:reused-buffers", n=n)
        rec.close(d.probabilities, y / np.sum(y * np.diff(x)), "object:proportional", rtol=1e-9, n=n)
        c, p = d.bin_centers, d.probabilities
        a = rng.normal()
        f = lambda z: np.cos(a * z / x[-1]) + z / x[-1]
        rec.close(d.expect(f), np.trapezoid(p * f(c), c), "expect:trapz-default", rtol=1e-9, atol=1e-12, n=n)
        rec.close(d.expect(f, method="trapz"), np.trapezoid(p * f(c), c), "expect:trapz", rtol=1e-9, atol=1e-12, n=n)
        rec.close(d.expect(f, method="simps"), si.simpson(p * f(c), x=c), "expect:simps", rtol=1e-9, atol=1e-12, n=n)
        g = lambda z, s, t: s * f(z) + t
        rec.close(d.expect(g, args=(2.0, 0.5)), np.trapezoid(p * (2 * f(c) + 0.5), c), "expect:args", rtol=1e-9, atol=1e-12, n=n)
        vec = lambda z: np.array([z, z * z, 1.0])
        rec.close(d.expect(vec), [np.trapezoid(p * c, c), np.trapezoid(p * c * c, c), np.trapezoid(p, c)],
                  "expect:vector", rtol=1e-9, n=n)
        if n < 20 and k % 5 == 0:
            exact = 0.0
            for j in range(n - 1):
                gx, gw = np.polynomial.legendre.leggauss(6)
                zz = c[j] + (c[j + 1] - c[j]) * 0.5 * (gx + 1)
                exact += np.sum(gw * 0.5 * (c[j + 1] - c[j]) * np.interp(zz, c, p) * f(zz))
            rec.close(d.expect(f, method="quad"), exact, "expect:quad", rtol=5e-3, n=n)
        rec.raises(lambda: d.expect(f, method="bogus"), ValueError, "expect:bad-method")
        rec.raises(lambda: D(x, x), AssertionError, "object:shape-check")
        rec.raises(lambda: D(x, np.ones((n, 1))), AssertionError, "object:rank-check")
    z = D(np.linspace(0, 1, 5), np.zeros(4))
    rec.ok(np.all(z.probabilities == 0), "object:all-zero")


def limits(rec, i):
    from hazma.phase_space import _utils as U
    rng = rec.rng
    for _ in range(rec.n(400, 4000)):
        n = int(rng.integers(2, 7))
        cme = float(10 ** rng.uniform(-3, 5))
        m = _ps.random_masses(rng, n, cme)
        el, il = _limits(cme, m)
        g = U.energy_limits(cme, list(m))
        rec.close(np.array(g), np.array(el), "energy-limits", rtol=1e-9, n=n, cme=cme)
        g = U.invariant_mass_limits(cme, list(m))
        rec.ok(set(g) == set(il), "invmass-limits:pairs", n=n)
        rec.close(np.array([g[k] for k in sorted(g)]), np.array([il[k] for k in sorted(il)]), "invmass-limits",
                  rtol=1e-9, atol=1e-12 * cme, n=n, cme=cme)
        a, b = _ps.random_masses(rng, 2, cme, edge=False)
        rec.close(U.two_body_phase_space_prefactor(cme, a, b), _ps.vol2(cme, a, b), "two-body-prefactor",
                  rtol=1e-6, atol=1e-9, cme=cme, a=a, b=b)
        q = rng.uniform(abs(a - b), a + b) * (1 - 1e-9)
        if a > 0 and b > 0 and abs(a - b) < q:
            rec.close(U.two_body_phase_space_prefactor(q, a, b), 0.0, "two-body-prefactor:below", atol=1e-7, q=q, a=a, b=b)


def tasks(ck):
    t = [("objects", objects, 0), ("limits", limits, 0)]
    t += [(f"mc-{i}", mc, i) for i in range(3)]
    t += [(f"marginal-{i}", marginal, i) for i in range(2)]
    t += [(f"quad-{i}", quad, i) for i in range(4)]
    return t
