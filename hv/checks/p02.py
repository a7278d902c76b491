"""Phase-space integrals, widths and cross sections against independent volumes."""
import numpy as np
from scipy import integrate as si
from . import _ps

PROPERTY = "P02"
NATIVE = None
RULE = ("one integral per (integrator, n, cme, masses, matrix element, batch split); volumes come from an independent "
        "recursive quadrature / closed form; MC integrals judged at 6 sigma and by an exact twin over the generated "
        "events; non-trivial = non-zero expected integral")
ASSUME = ["6-sigma statistical margin for Monte-Carlo integrals, seeds derived from VERIF_SEED"]


def oracle_selftest(rec, i):
    for n in (2, 3, 4, 5, 6):
        rec.close(_ps.volume(7.0, [0.0] * n), _ps.massless(7.0, n), "oracle:massless", rtol=1e-6, n=n)


def mc_volume(rec, i):
    from hazma.phase_space import Rambo
    rng = rec.rng
    for _ in range(rec.n(12, 60)):
        n = int(rng.integers(2, 6))
        cme = float(10 ** rng.uniform(-2, 4))
        m = _ps.random_masses(rng, n, cme, edge=False)
        want = _ps.volume(cme, m)
        N = rec.n(30000, 200000)
        seed = int(rng.integers(1 << 30))
        r = Rambo(cme, m)
        v, e = r.integrate(N, seed=seed)
        rec.ok(np.isfinite(v) and np.isfinite(e) and e >= 0, "rambo:finite", n=n, cme=cme, m=m, v=v, e=e)
        slack = 1e-6 * want
        rec.ok(abs(v - want) < 6 * e + slack, "rambo:volume", n=n, cme=cme, m=m, got=v, want=want, err=e)
        _, ws = Rambo(cme, m).generate(N, seed=seed)
        rec.close(v, ws.mean(), "rambo:mean-of-weights", rtol=1e-9, n=n, cme=cme)
        rec.close(e, ws.std(ddof=1) / np.sqrt(N), "rambo:standard-error", rtol=1e-7, atol=1e-9 * want, n=n, cme=cme)
        # batches
        B = N // 5
        vb, eb = r.integrate(N, batch_size=B, seed=seed)
        rec.ok(abs(vb - want) < 6 * eb + slack, "rambo:volume-batched", n=n, cme=cme, m=m, got=vb, want=want, err=eb)
        rec.ok(eb <= 3 * e + 1e-8 * want and e <= 3 * eb + 1e-8 * want, "rambo:batched-error", n=n, e=e, eb=eb)
        if np.max(np.abs(ws - ws.mean())) < 8 * ws.std():  # (for heavy-tailed weights the two samples' deviations differ)
            rec.ok(abs(eb - e) <= 0.2 * e + 1e-8 * want, "rambo:batched-error-same-scale", n=n, e=e, eb=eb)
        # width and cross section
        w, we = r.decay_width(N, seed=seed)
        rec.close(w, v / (2 * cme), "rambo:width", rtol=1e-9, n=n, cme=cme)
        rec.close(we, e / (2 * cme), "rambo:width-error", rtol=1e-6, atol=1e-12 * abs(w), n=n, cme=cme)
        m1, m2 = rng.uniform(0, 0.45, 2) * cme
        x, xe = r.cross_section(m1, m2, N, seed=seed)
        pin = _ps.p2(cme, m1, m2)
        rec.close(x, v / (4 * pin * cme), "rambo:xsec", rtol=1e-9, n=n, cme=cme, m1=m1, m2=m2)
        rec.close(xe, e / (4 * pin * cme), "rambo:xsec-error", rtol=1e-6, atol=1e-12 * abs(x), n=n, cme=cme)
        wb, _ = r.decay_width(N, batch_size=B, seed=seed)
        xb, _ = r.cross_section(m1, m2, N, batch_size=B, seed=seed)
        rec.close(wb, vb / (2 * cme), "rambo:width-batched", rtol=1e-9, n=n, cme=cme)
        rec.close(xb, vb / (4 * pin * cme), "rambo:xsec-batched", rtol=1e-9, n=n, cme=cme)


def mc_histories(rec, i):
    """Integrals after reassigning cme / masses match a fresh integrator."""
    from hazma.phase_space import Rambo, ThreeBody
    rng = rec.rng
    for _ in range(rec.n(25, 200)):
        n = int(rng.integers(2, 6))
        cme = float(10 ** rng.uniform(0, 3))
        m = _ps.random_masses(rng, n, cme, edge=False)
        r = Rambo(float(cme * rng.uniform(1.5, 9)), np.zeros(int(rng.integers(2, 6))))
        if rng.random() < .5:
            r.integrate(10, seed=1)
        for op in rng.permutation(2):
            if op == 0:
                r.cme = cme
            else:
                r.masses = m
        a = r.integrate(2000, seed=9)
        b = Rambo(cme, m).integrate(2000, seed=9)
        rec.close(a[0], b[0], "rambo:reassigned-integral", rtol=1e-7, n=n, cme=cme)
        # ThreeBody
        m3 = _ps.random_masses(rng, 3, cme, edge=False)
        c = float(rng.uniform(0.1, 3))

        def st(s, t):
            return 1.0 + c * (s + 2 * t) / cme**2
        tb = ThreeBody(2.5 * cme, [0.1 * cme, 0.0, 0.3 * cme], msqrd=lambda s, t: s * t)
        for op in rng.permutation(3):
            if op == 0:
                tb.cme = cme
            elif op == 1:
                tb.masses = m3
            else:
                tb.msqrd = st
        v = tb.integrate()[0]
        f = ThreeBody(cme, m3, msqrd=st).integrate()[0]
        rec.close(v, f, "threebody:reassigned-integral", rtol=1e-7, m=m3, cme=cme)
        rec.ok(tb.cme == cme and tuple(tb.masses) == tuple(m3), "threebody:readback", cme=cme)


def _three_exact(cme, m, f=None):
    """(1/(128 pi^3 M^2)) int ds dt f(s,t) with s=m23^2, t=m13^2 by nested Gauss."""
    m1, m2, m3 = m
    if f is None:
        return _ps.volume(cme, m)
    x, w = np.polynomial.legendre.leggauss(120)
    u = 0.5 * (x + 1)
    g = u * u * (3 - 2 * u)
    dg = 6 * u * (1 - u) * 0.5 * w
    r0, r1 = m2 + m3, cme - m1
    rt = r0 + (r1 - r0) * g
    tot = 0.0
    for rs, jw in zip(rt, dg * (r1 - r0)):
        s = rs * rs
        if s <= 0:
            continue
        pstar = _ps.p2(rs, m2, m3)
        # boost of particle 1 in the (23) rest frame
        e1 = (cme**2 - s - m1**2) / (2 * rs)
        p1 = np.sqrt(max(e1**2 - m1**2, 0))
        e3 = np.hypot(m3, pstar)
        tc = m1**2 + m3**2 + 2 * e1 * e3
        th = 2 * p1 * pstar
        t = tc + th * x
        tot += jw * 2 * rs * np.sum(w * th * np.array([f(s, tt) for tt in t]))
    return tot / (128 * np.pi**3 * cme**2)


def three_quad(rec, i):
    from hazma.phase_space import ThreeBody
    rng = rec.rng
    for k in range(rec.n(20, 150)):
        cme = float(10 ** rng.uniform(-2, 4))
        m = _ps.random_masses(rng, 3, cme, edge=False)
        if k % 5 == 0:
            m = m * 0
        if k % 5 == 1:
            m[rng.permutation(3)[:2]] = 0
        v, e = ThreeBody(cme, m).integrate()
        want = _ps.volume(cme, m)
        rec.close(v, want, "threebody:flat-volume", rtol=2e-6, cme=cme, m=m)
        rec.ok(e >= 0 and np.isfinite(e), "threebody:error-finite", cme=cme, m=m, e=e)
        v2, e2 = ThreeBody(cme, m).integrate(epsrel=1e-10, epsabs=0.0)
        rec.ok(0 <= e2 <= 1e-3 * want, "threebody:error-scale", cme=cme, m=m, e=e2, value=v2)
        rec.close(v2, want, "threebody:flat-volume-tight", rtol=2e-6, cme=cme, m=m)
        # non-symmetric |M|^2 in both signatures
        c = rng.normal(size=3)

        def st(s, t):
            return 1 + c[0] * s / cme**2 + c[1] * t / cme**2 + c[2] * s * t / cme**4

        def mom(p):
            q = p[:, 1] + p[:, 2]
            r = p[:, 0] + p[:, 2]
            return st(q[0]**2 - (q[1:]**2).sum(0), r[0]**2 - (r[1:]**2).sum(0))
        want = _three_exact(cme, m, st)
        scale = _ps.volume(cme, m)
        v, _ = ThreeBody(cme, m, msqrd=st).integrate()
        rec.close(v, want, "threebody:st", rtol=1e-6, atol=1e-6 * scale, cme=cme, m=m, c=c)
        v, _ = ThreeBody(cme, m, msqrd=st, msqrd_signature="st").integrate()
        rec.close(v, want, "threebody:st-explicit", rtol=1e-6, atol=1e-6 * scale, cme=cme, m=m, c=c)
        v, _ = ThreeBody(cme, m, msqrd=mom, msqrd_signature="momenta").integrate()
        rec.close(v, want, "threebody:momenta", rtol=1e-6, atol=1e-6 * scale, cme=cme, m=m, c=c)
        seen = []

        def spy(p):
            seen.append(np.array(p))
            return mom(p)
        tb = ThreeBody(3 * cme, m, msqrd=lambda p: 0.0 * p[0, 0], msqrd_signature="momenta")
        tb.cme = cme
        tb.msqrd = spy
        v, _ = tb.integrate()
        rec.close(v, want, "threebody:momenta-reassigned", rtol=1e-6, atol=1e-6 * scale, cme=cme, m=m, c=c)
        if seen:
            P = np.array(seen)[: 400]
            rec.count("momenta_monitored", len(P))
            tot = P.sum(axis=2)
            rec.ok(np.max(np.abs(tot - np.array([cme, 0, 0, 0]))) < 1e-9 * cme, "threebody:momenta-conserved", cme=cme, m=m)
            mm = P[:, 0] ** 2 - (P[:, 1:] ** 2).sum(1)
            rec.ok(np.max(np.abs(mm - np.asarray(m) ** 2)) < 1e-7 * cme**2, "threebody:momenta-on-shell", cme=cme, m=m)
        # rambo route
        v, e = ThreeBody(cme, m).integrate(method="rambo", npts=20000)
        rec.ok(abs(v - scale) < 8 * e + 5e-3 * scale, "threebody:rambo-flat", cme=cme, m=m, got=v, want=scale, err=e)
        v, e = ThreeBody(cme, m, msqrd=st).integrate(method="rambo", npts=20000)
        rec.ok(abs(v - want) < 7 * e + 1e-6 * scale, "threebody:rambo-st", cme=cme, m=m, got=v, want=want, err=e)


def below(rec, i):
    from hazma.phase_space import ThreeBody
    rng = rec.rng
    for k in range(rec.n(24, 150)):     # hardly any energy to spare
        m = np.array([0.02, 0.1, 0.3]) + rng.random(3)
        if k % 3 == 0:
            m[int(rng.integers(0, 3))] = 0.0
        m = m * float(10 ** rng.uniform(-1, 3))
        cme = float(np.sum(m) * (1 + 10 ** rng.uniform(-5, -2)))
        want = _ps.volume(cme, m)
        tight = dict(epsabs=0.0, epsrel=1e-9)
        rec.close(ThreeBody(cme, m).integrate(**tight)[0], want, "threebody:near-threshold", rtol=1e-5, cme=cme, m=m)
        c = rng.uniform(0.1, 1, 3)
        seen = []

        def spy(p):
            seen.append(np.array(p))
            q, r = p[:, 1] + p[:, 2], p[:, 0] + p[:, 2]
            return 1 + c[0] * (q[0]**2 - (q[1:]**2).sum(0)) / cme**2 + c[1] * (r[0]**2 - (r[1:]**2).sum(0)) / cme**2
        # next to threshold the invariants are pinned
        flat = 1 + c[0] * (m[1] + m[2])**2 / cme**2 + c[1] * (m[0] + m[2])**2 / cme**2
        v = ThreeBody(cme, m, msqrd=spy, msqrd_signature="momenta").integrate(**tight)[0]
        rec.ok(abs(v / want - flat) <= 4 * (1 - np.sum(m) / cme) * (c[0] + c[1]) + 1e-5, "threebody:near-threshold-momenta", cme=cme, m=m, ratio=v / want, flat=flat)
        P = np.array(seen)
        rec.ok(np.all(np.isfinite(P)), "threebody:near-threshold-momenta-finite", cme=cme, m=m, bad=int(np.sum(~np.isfinite(P))))
        rec.count("near-threshold integrals")
    for _ in range(rec.n(60, 400)):
        cme = float(10 ** rng.uniform(-2, 4))
        m = rng.dirichlet(np.ones(3)) * cme * rng.uniform(1.001, 5)
        for meth in ("quad", "rambo"):
            v, e = ThreeBody(cme, m).integrate(method=meth, npts=50)
            rec.ok(v == 0 and e == 0, "threebody:below-threshold", cme=cme, m=m, v=v, meth=meth)
    rec.raises(lambda: ThreeBody(1.0, [0.1, 0.1, 0.1]).integrate(method="nope"), ValueError, "threebody:bad-method")
    rec.raises(lambda: ThreeBody(1.0, [0.1, 0.1]), AssertionError, "threebody:needs-three")


def two_body(rec, i):
    from hazma.phase_space._two_body import TwoBody
    rng = rec.rng
    for _ in range(rec.n(150, 1500)):
        cme = float(10 ** rng.uniform(-3, 5))
        m = _ps.random_masses(rng, 2, cme)
        want = float(_ps.vol2(cme, m[0], m[1]))
        v, e = TwoBody(cme, m).integrate()
        rec.close(v, want, "twobody:volume", rtol=1e-9, cme=cme, m=m)
        a, b, c = rng.normal(size=3)
        v, e = TwoBody(cme, m, msqrd=lambda z: a + b * z + c * z * z).integrate()
        rec.close(v, want * (a + c / 3), "twobody:angle", rtol=1e-8, atol=1e-8 * want, cme=cme, m=m)
        got = []

        def mom(p):
            got.append(np.array(p))
            pm = np.sqrt((p[1:, 0] ** 2).sum())
            z = p[3, 0] / pm if pm else 0.0
            return a + b * z + c * z * z
        v, e = TwoBody(cme, m, msqrd=mom, msqrd_signature="momenta").integrate()
        rec.close(v, want * (a + c / 3), "twobody:momenta", rtol=1e-8, atol=1e-8 * want, cme=cme, m=m)
        P = np.array(got)
        rec.count("momenta_monitored", len(P))
        rec.ok(np.max(np.abs(P.sum(2) - np.array([cme, 0, 0, 0]))) < 1e-9 * cme, "twobody:conserved", cme=cme, m=m)
        mm = P[:, 0] ** 2 - (P[:, 1:] ** 2).sum(1)
        rec.ok(np.max(np.abs(mm - m**2)) < 1e-9 * cme**2, "twobody:on-shell", cme=cme, m=m)
        tb = TwoBody(cme * 3, [0.0, 0.0])
        tb.masses = m
        tb.cme = cme
        tb.msqrd = lambda z: 2.0
        rec.close(tb.integrate()[0], 2 * want, "twobody:reassigned", rtol=1e-9, cme=cme, m=m)


def scaling(rec, i):
    """Dimensional analysis: an n-body volume scales as cme^(2n-4)."""
    from hazma.phase_space import Rambo, ThreeBody
    rng = rec.rng
    for _ in range(rec.n(60, 600)):
        n = int(rng.integers(2, 9))
        cme = float(10 ** rng.uniform(0, 2))
        m = _ps.random_masses(rng, n, cme, edge=False)
        lam = float(10 ** rng.uniform(-5, 5))
        a, ea = Rambo(cme, m).integrate(400, seed=3)
        b, eb = Rambo(lam * cme, lam * m).integrate(400, seed=3)
        rec.close(b, a * lam ** (2 * n - 4), "rambo:scaling", rtol=1e-7, n=n, lam=lam)
        perm = rng.permutation(3)
        m3 = _ps.random_masses(rng, 3, cme, edge=False)
        rec.close(ThreeBody(cme, m3[perm]).integrate()[0], ThreeBody(cme, m3).integrate()[0],
                  "threebody:permutation", rtol=1e-6, m=m3, cme=cme)


def msqrd_mc(rec, i):
    """MC integral of polynomial |M|^2 for n bodies against <s_ij> sum rules."""
    from hazma.phase_space import Rambo
    rng = rec.rng
    for _ in range(rec.n(10, 60)):
        n = int(rng.integers(3, 6))
        cme = float(10 ** rng.uniform(0, 3))
        m = _ps.random_masses(rng, n, cme, edge=False)
        # sum of all pairwise invariants is a constant: cme^2 + (n-2) sum m^2
        const = 1 + (n - 2) * np.sum(m**2) / cme**2

        def msq(p):
            out = 0
            for a in range(n):
                for b in range(a):
                    q = p[:, a] + p[:, b]
                    out = out + q[0] ** 2 - (q[1:] ** 2).sum(0)
            return out / cme**2
        v0, _ = Rambo(cme, m).integrate(500, seed=2)
        v1, _ = Rambo(cme, m, msqrd=msq).integrate(500, seed=2)
        rec.close(v1, const * v0, "rambo:pairwise-invariant-sum", rtol=1e-8, n=n, cme=cme)
        v1, _ = Rambo(cme, m, msqrd=lambda p: 0 * p[0, 0] + 3.5).integrate(500, batch_size=100, seed=2)
        v0, _ = Rambo(cme, m).integrate(500, batch_size=100, seed=2)
        rec.close(v1, 3.5 * v0, "rambo:constant-msqrd-batched", rtol=1e-9, n=n, cme=cme)


def tasks(ck):
    t = [("oracle_selftest", oracle_selftest, 0), ("below", below, 0), ("two_body", two_body, 0),
         ("scaling", scaling, 0), ("msqrd_mc", msqrd_mc, 0)]
    for i in range(6):
        t.append((f"mc_volume-{i}", mc_volume, i))
    for i in range(4):
        t.append((f"three_quad-{i}", three_quad, i))
    t += [(f"mc_histories-{i}", mc_histories, i) for i in range(2)]
    return t
