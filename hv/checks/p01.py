"""Every generated phase-space event is physical."""
import numpy as np
from . import _ps

PROPERTY = "P01"
NATIVE = None
RULE = ("one event batch per (n, cme, masses, seed, dtype, history) drawn over 2..10 bodies and twelve decades of "
        "energy, with massless, hierarchical, degenerate and near-threshold masses; every generated event is judged; "
        "non-trivial = a batch with massive or non-default history or n>2")
ASSUME = ["seeded numpy generator", "cme above threshold by at least 1e-6 relative"]


def judge(rec, ps, ws, cme, m, key, msq=None, tol=1e-9, **d):
    """The monitor for a batch of events."""
    n = len(m)
    rec.count("events_judged", ps.shape[-1])
    if not rec.ok(ps.shape[:2] == (4, n) and ws.shape == ps.shape[2:], key + ":shape", shape=ps.shape, **d):
        return
    tot = ps.sum(axis=1)
    ok = True
    ok &= rec.ok(np.all(np.isfinite(ps)), key + ":finite", cme=cme, m=m, **d)
    e = float(np.max(np.abs(tot[0] - cme)) / cme)
    ok &= rec.ok(e < tol, key + ":energy", cme=cme, m=m, err=e, **d)
    if tol < 1e-8:
        # an iterated rescaling that stops early shows as an error in the kinetic energy
        ke = cme - m.sum()
        ok &= rec.ok(e * cme <= 1e-14 * n * cme + 1e-9 * ke, key + ":energy-converged", cme=cme, m=m, err=e, ke=ke, **d)
    p = float(np.max(np.abs(tot[1:])) / cme)
    ok &= rec.ok(p < max(tol, 1e-8), key + ":momentum", cme=cme, m=m, err=p, **d)
    shell = float(np.max(np.abs(ps[0] ** 2 - (ps[1:] ** 2).sum(0) - m[:, None] ** 2)) / cme**2)
    ok &= rec.ok(shell < max(tol, 1e-8), key + ":mass-shell", cme=cme, m=m, err=shell, **d)
    ok &= rec.ok(np.all(ps[0] >= m[:, None] * (1 - max(tol, 1e-10))), key + ":positive-energy", cme=cme, m=m, **d)
    if ok:
        ok &= rec.ok(np.all(np.isfinite(ws)) and (msq is not None or np.all(ws >= 0)), key + ":weight-finite", cme=cme, m=m, **d)
        want = _ps.rambo_weight(ps.astype(float), cme)
        if msq is not None:
            want = want * msq(ps)
        rec.close(ws, want, key + ":weight", rtol=max(1e-7, 20 * tol), atol=0, npart=n, cme=cme, **d)


def fresh(rec, i):
    from hazma.phase_space import Rambo
    rng = rec.rng
    for k in range(rec.n(500, 3000)):
        n = int(rng.integers(2, 11))
        cme = float(10 ** rng.uniform(-6, 6))
        m = _ps.random_masses(rng, n, cme)
        r = Rambo(cme, list(m) if k % 2 else m)
        seed = int(rng.integers(1 << 30))
        N = int(rng.choice([1, 2, 7, 200]))
        ps, ws = r.generate(N, seed=seed)
        judge(rec, ps, ws, cme, m, "generate", n=n, N=N)
        ps2, ws2 = r.generate(N, seed=seed)
        rec.ok(np.array_equal(ps, ps2) and np.array_equal(ws, ws2), "generate:seed-reproducible", n=n, cme=cme, seed=seed)
        if N >= 7:
            ps3, _ = r.generate(N, seed=seed + 1)
            rec.ok(not np.array_equal(ps, ps3), "generate:seed-matters", n=n, cme=cme, seed=seed)


def edges(rec, i):
    """Barely open phase space, and large batches whose rarest events converge last."""
    from hazma.phase_space import Rambo
    rng = rec.rng
    for k in range(rec.n(80, 600)):
        n = int(rng.integers(2, 8))
        cme = float(10 ** rng.uniform(-3, 5))
        if k % 2:
            m = cme * (1 - 10 ** rng.uniform(-11, -5)) * rng.dirichlet(np.ones(n))
        else:
            m = cme * rng.uniform(0.5, 0.999) * rng.dirichlet(np.ones(n) * 0.2)
        N = 300 if k % 2 else 20000
        ps, ws = Rambo(cme, m).generate(N, seed=k)
        tot = ps.sum(axis=1)
        ke = cme - m.sum()
        err = float(np.max(np.abs(tot[0] - cme)))
        rec.ok(err <= 1e-14 * n * cme + 1e-9 * ke, "edge:energy-converged", n=n, cme=cme, m=m, err=err, ke=ke)
        p = float(np.max(np.abs(tot[1:])))
        rec.ok(p <= 1e-9 * cme, "edge:momentum", n=n, cme=cme, m=m, err=p)
        rec.ok(np.all(np.isfinite(ws)) and np.all(ws >= 0), "edge:weights", n=n, cme=cme, m=m)
        rec.count("events_judged", N)


def histories(rec, i):
    """cme/masses reassigned in arbitrary order: events must match the new configuration,
    and equal those of a freshly built generator with the same seed."""
    from hazma.phase_space import Rambo
    rng = rec.rng
    for _ in range(rec.n(150, 900)):
        n = int(rng.integers(2, 7))
        cme = float(10 ** rng.uniform(-2, 5))
        m = _ps.random_masses(rng, n, cme)
        r = Rambo(cme, m)
        hist = []
        for step in range(6):
            if rng.random() < 0.5:
                lo = max(m.sum(), cme * 1e-6)
                new = float(lo * (1 + 10 ** rng.uniform(-3, 3)))
                r.cme = new
                cme = new
                hist.append(("cme", new))
            else:
                n = int(rng.integers(2, 7))
                m = _ps.random_masses(rng, n, cme)
                r.masses = m if rng.random() < 0.5 else list(m)
                hist.append(("masses", n))
            if rng.random() < 0.3:
                r.generate(5, seed=3)
                hist.append(("use",))
            seed = int(rng.integers(1 << 30))
            ps, ws = r.generate(60, seed=seed)
            judge(rec, ps, ws, cme, m, "reassigned", hist=str(hist[-3:]))
            f = Rambo(cme, m)
            ps2, ws2 = f.generate(60, seed=seed)
            rec.close(ps, ps2, "reassigned:same-as-fresh", rtol=1e-7, atol=1e-9 * cme, hist=str(hist[-3:]))
            rec.close(ws, ws2, "reassigned:weight-same-as-fresh", rtol=1e-6, hist=str(hist[-3:]))
            rec.ok(r.cme == cme and np.array_equal(np.atleast_1d(r.masses), m), "reassigned:readback", hist=str(hist[-3:]))


def batches(rec, i):
    from hazma.phase_space import Rambo
    rng = rec.rng
    for _ in range(rec.n(200, 1500)):
        n = int(rng.integers(2, 7))
        cme = float(10 ** rng.uniform(-1, 4))
        m = _ps.random_masses(rng, n, cme)
        N = int(rng.integers(1, 400))
        b = int(rng.integers(1, N + 5))
        tot = 0
        first = None
        for ps, ws in Rambo(cme, m).generator(N, b, seed=11):
            judge(rec, ps, ws, cme, m, "generator", N=N, b=b)
            tot += ps.shape[-1]
            if first is not None:
                rec.ok(not np.array_equal(first, ps), "generator:batches-differ", N=N, b=b)
            first = ps.copy()
        rec.ok(N <= tot < N + b, "generator:count", N=N, b=b, tot=tot)


def msqrd(rec, i):
    from hazma.phase_space import Rambo
    rng = rec.rng
    for _ in range(rec.n(200, 1500)):
        n = int(rng.integers(2, 7))
        cme = float(10 ** rng.uniform(-1, 4))
        m = _ps.random_masses(rng, n, cme)
        a, b = rng.integers(0, n, 2)
        c = rng.normal()
        calls = []

        def msq(ps):
            calls.append(ps.shape)
            q = ps[:, a] + ps[:, b]
            return c + (q[0] ** 2 - (q[1:] ** 2).sum(0)) / cme**2

        r = Rambo(cme, m, msqrd=msq)
        seed = int(rng.integers(1 << 30))
        ps, ws = r.generate(50, seed=seed)
        judge(rec, ps, ws, cme, m, "msqrd", msq=msq)
        flat, wf = Rambo(cme, m).generate(50, seed=seed)
        rec.ok(np.array_equal(flat, ps), "msqrd:does-not-change-momenta", n=n, cme=cme)
        rec.close(ws, wf * msq(flat), "msqrd:weights", rtol=1e-9, n=n, cme=cme)
        rec.ok(len(calls) > 0 and calls[0][:2] == (4, n), "msqrd:called-with-momenta", calls=str(calls[:1]))
        for psb, wsb in r.generator(50, 13, seed=seed):
            judge(rec, psb, wsb, cme, m, "msqrd-batch", msq=msq)


def f32(rec, i):
    from hazma.phase_space import Rambo
    rng = rec.rng
    for _ in range(rec.n(150, 900)):
        n = int(rng.integers(2, 7))
        cme = float(10 ** rng.uniform(-1, 4))
        m = _ps.random_masses(rng, n, cme, edge=False)
        r = Rambo(cme, m)
        ps, ws = r.generate(100, seed=5, dtype=np.float32)
        judge(rec, ps.astype(float), ws.astype(float), cme, m, "float32", tol=3e-4)
        # a float32 run must not degrade a later float64 one
        ps, ws = r.generate(100, seed=5)
        judge(rec, ps, ws, cme, m, "float64-after-float32")


def isotropy(rec, i):
    """Statistical monitor: directions are isotropic and particles exchangeable."""
    from hazma.phase_space import Rambo
    rng = rec.rng
    N = rec.n(40000, 400000)
    for n in (2, 3, 4, 6):
        cme = 100.0
        m = np.full(n, rng.uniform(0, 0.8) * cme / n)
        ps, ws = Rambo(cme, m).generate(N, seed=int(rng.integers(1 << 30)))
        nh = ps[1:] / np.sqrt((ps[1:] ** 2).sum(0))
        for a in range(n):
            for k in range(3):
                z = nh[k, a].mean() * np.sqrt(3 * N)
                rec.ok(abs(z) < 6, "isotropy:dipole", n=n, a=a, k=k, z=float(z))
                z2 = ((nh[k, a] ** 2).mean() - 1 / 3) / np.sqrt(4 / 45 / N)
                rec.ok(abs(z2) < 6, "isotropy:quadrupole", n=n, a=a, k=k, z=float(z2))
            for k, l in ((0, 1), (0, 2), (1, 2)):
                z = (nh[k, a] * nh[l, a]).mean() * np.sqrt(15 * N)
                rec.ok(abs(z) < 6, "isotropy:cross", n=n, a=a, z=float(z))
            if n > 2:
                x = ps[0, a] * ws
                y = ps[0, (a + 1) % n] * ws
                z = (x - y).mean() / ((x - y).std() / np.sqrt(N))
                rec.ok(abs(z) < 6, "exchange-symmetry", n=n, a=a, z=float(z))


def stress(rec, i):
    """Many generators interleaved in one process must not influence each other."""
    from hazma.phase_space import Rambo
    rng = rec.rng
    for _ in range(rec.n(8, 60)):
        conf = []
        for _k in range(4):
            n = int(rng.integers(2, 6))
            cme = float(10 ** rng.uniform(0, 3))
            conf.append((cme, _ps.random_masses(rng, n, cme), int(rng.integers(1 << 30))))
        rs = [Rambo(c, m) for c, m, _s in conf]
        gens = [r.generator(60, 20, seed=s) for r, (_c, _m, s) in zip(rs, conf)]
        out = [[] for _k in conf]
        live = list(range(4))
        while live:
            j = int(rng.choice(live))
            try:
                ps, ws = next(gens[j])
                out[j].append(ps.copy())
                judge(rec, ps, ws, conf[j][0], conf[j][1], "interleaved")
            except StopIteration:
                live.remove(j)
        for j, (c, m, s) in enumerate(conf):
            alone = [p for p, _w in Rambo(c, m).generator(60, 20, seed=s)]
            rec.close(np.array(out[j]), np.array(alone), "interleaved:same-as-alone", rtol=0, atol=0, n=len(m))


def tasks(ck):
    t = []
    for i in range(4):
        t.append((f"fresh-{i}", fresh, i))
        t.append((f"histories-{i}", histories, i))
    t.append(("edges", edges, 0))
    for f in (batches, msqrd, f32, isotropy, stress):
        t.append((f.__name__, f, 0))
    return t
