"""Right-handed neutrino: widths and squared amplitudes against V-A currents, spectra against phase-space averages, histories."""
import itertools
import numpy as np

PROPERTY = "P21"
RULE = ("one judged width, squared amplitude, distribution or spectrum per event: random masses, mixing angles (both signs), flavors and "
        "generations; oracle = V-A current contractions integrated over phase space, meson decay constants normalised to the charged-pion "
        "and kaon lifetimes, energy conservation, and fresh-object equality; non-trivial = an open channel with a non-zero value")
NATIVE = "all"
LEP = ("e", "mu", "tau")
NU = ("ve", "vm", "vt")
GX, GW = np.polynomial.legendre.leggauss(24)
VEC = dict(rho=0.162e6, omega=0.153e6, phi=0.234e6)


def par():
    import hazma.parameters as P
    return P


def uu(theta):
    return (0.5 * np.tan(2 * theta))**2


def kal(a, b, c):
    return a * a + b * b + c * c - 2 * (a * b + a * c + b * c)


def dots(M, ms, s, t):
    """Products of momenta of N -> 1 2 3 with s = (p2 + p3)^2, t = (p1 + p3)^2."""
    m1, m2, m3 = ms
    r = M * M + m1 * m1 + m2 * m2 + m3 * m3 - s - t
    a, b, c = (r - m1 * m1 - m2 * m2) / 2, (t - m1 * m1 - m3 * m3) / 2, (s - m2 * m2 - m3 * m3) / 2
    return a, b, c, m1 * m1 + a + b, m2 * m2 + a + c, m3 * m3 + b + c     # 12 13 23 N1 N2 N3


def amp_lll(M, own, gv, g1, g2):
    """|M|^2 / u^2 of N -> nu_gv l_g1 l_g2, averaged over the spin and over the two lepton-number modes."""
    P = par()
    m = (P.electron_mass, P.muon_mass, P.tau_mass)
    ms = (0.0, m[g1], m[g2])
    k = 64 * P.GF**2
    if gv == own and g1 == g2:
        sw2 = P.sin_theta_weak**2
        gl, gr = sw2 - 0.5 + (g1 == own), sw2

        def f(s, t):
            a, b, c, n1, n2, n3 = dots(M, ms, s, t)
            return k * ((gl * gl + gr * gr) / 2 * (a * n3 + b * n2) + gl * gr * ms[1]**2 * n1)
    elif gv == g2 and g1 == own:            # N -> l1 (nu l2bar): (N.l2bar)(l1.nu)
        def f(s, t):
            a, b, c, n1, n2, n3 = dots(M, ms, s, t)
            return k * a * n3
    elif gv == g1 and g2 == own:
        def f(s, t):
            a, b, c, n1, n2, n3 = dots(M, ms, s, t)
            return k * b * n2
    else:
        f = lambda s, t: 0.0 * (s + t)
    return ms, f


def amp_nnn(M, own, g):
    k = 16 * par().GF**2
    ms = (0.0, 0.0, 0.0)

    def f(s, t):
        a, b, c, n1, n2, n3 = dots(M, ms, s, t)
        return k * (2 / 3 * 2 * (a * n3 + b * n2 + c * n1) if g == own else a * n3 / 2 + b * n2 / 2)
    # one flavor: amplitude doubled and two identical particles, averaged over who is the odd one out
    return ms, f


def amp_pipi(M, ml, ff, charged):
    P = par()
    m = P.charged_pion_mass
    ms = (ml, m, m)
    k = 4 * P.GF**2 * (abs(P.Vud)**2 if charged else (1 - 2 * P.sin_theta_weak**2)**2 / 2)

    def f(s, t):
        a, b, c, n1, n2, n3 = dots(M, ms, s, t)
        F = np.abs(ff.form_factor(q=np.sqrt(s), couplings=(2 / 3, -1 / 3)))**2
        return k * F * (2 * (n2 - n3) * (a - b) - (4 * m * m - s) * n1)
    return ms, f


def grid(M, ms, n=220, extra=()):
    """Nodes (s, t, weight) over the Dalitz region, normalised to dGamma = |M|^2 ds dt / (256 pi^3 M^3)."""
    m1, m2, m3 = ms
    lo, hi = (m2 + m3)**2, (M - m1)**2
    cuts = np.unique([0.0, np.pi / 2] + [np.arcsin(np.sqrt((x - lo) / (hi - lo))) for x in extra if lo < x < hi])
    gx, gw = np.polynomial.legendre.leggauss(max(n // (len(cuts) - 1), 40))
    th = np.concatenate([(a + b) / 2 + (b - a) / 2 * gx for a, b in zip(cuts[:-1], cuts[1:])])
    wt = np.concatenate([(b - a) / 2 * gw for a, b in zip(cuts[:-1], cuts[1:])])
    s = lo + (hi - lo) * np.sin(th)**2
    wt = wt * (hi - lo) * np.sin(2 * th)
    q = np.sqrt(s)
    e3, e1 = (s + m3**2 - m2**2) / (2 * q), (M * M - s - m1**2) / (2 * q)
    k3, k1 = np.sqrt(np.maximum(e3**2 - m3**2, 0)), np.sqrt(np.maximum(e1**2 - m1**2, 0))
    mid, half = m1**2 + m3**2 + 2 * e1 * e3, 2 * k1 * k3
    return (s[:, None] + 0 * GX, mid[:, None] + half[:, None] * GX,
            (wt * half)[:, None] * GW / (256 * np.pi**3 * M**3))


def dalitz(M, ms, f, **kw):
    if sum(ms) >= M:
        return 0.0
    s, t, w = grid(M, ms, **kw)
    return float(np.sum(w * f(s.ravel(), t.ravel()).reshape(s.shape)))


RES = tuple((x * 1e3)**2 for x in (0.70, 0.76, 0.7824, 0.80, 0.95, 1.4, 1.8, 2.4))


def width_ref(M, th, own, key, ff):
    """Partial width summed over the charge modes the key stands for."""
    P = par()
    u, GF2 = uu(th), P.GF**2
    m = (P.electron_mass, P.muon_mass, P.tau_mass)
    w = key.split()
    ml = m[own]
    if w[1:] == ["a"]:
        return 9 * P.alpha_em * GF2 * M**5 * u / (256 * np.pi**4)
    if len(w) == 2:
        mes = w[1]
        mass = dict(pi0=P.neutral_pion_mass, eta=P.eta_mass, rho=P.rho_mass, omega=P.omega_mass, phi=P.phi_mass, pi=P.charged_pion_mass,
                    k=P.charged_kaon_mass)[mes]
        neutral = w[0] in NU
        m1 = 0.0 if neutral else ml
        if M <= m1 + mass:
            return 0.0
        l1, q1, lq = (M * M + m1**2 - mass**2) / 2, (M * M - m1**2 + mass**2) / 2, (M * M - m1**2 - mass**2) / 2     # N.l N.q l.q
        mom = np.sqrt(kal(M * M, m1**2, mass**2)) / (2 * M)
        if mes in VEC:
            sw2 = P.sin_theta_weak**2
            kap = dict(rho=1 - 2 * sw2, omega=4 / 3 * sw2, phi=4 / 3 * sw2 - 1)[mes]
            msq = 2 * GF2 * VEC[mes]**2 * (kap**2 / 2 if neutral else abs(P.Vud)**2) * (2 * lq * q1 / mass**2 + l1)
        else:
            f = dict(pi0=P.fpi0, eta=P.feta, pi=P.fpi, k=P.fk)[mes]
            ckm = dict(pi=P.Vud, k=P.Vus).get(mes)
            msq = 4 * GF2 * f * f * (0.5 if neutral else abs(ckm)**2) * (2 * lq * q1 - mass**2 * l1)
        return u * msq * mom / (8 * np.pi * M * M) * (1 if neutral else 2)
    if w[1:] == ["pi", "pi"]:
        return u * dalitz(M, *amp_pipi(M, 0.0, ff, False), extra=RES)
    if w[1:] == ["pi", "pi0"]:
        return 2 * u * dalitz(M, *amp_pipi(M, ml, ff, True), extra=RES)
    if w[1] in NU:
        return GF2 * M**5 * u / (768 * np.pi**3) * (2 if w[1] == NU[own] else 1)
    return u * dalitz(M, *amp_lll(M, own, NU.index(w[0]), LEP.index(w[1]), LEP.index(w[2])))


def sample(rng, lo=1.0, hi=2e4):
    from hazma.rh_neutrino import RHNeutrino
    P = par()
    fl = int(rng.integers(0, 3))
    M = float(10 ** rng.uniform(np.log10(lo), np.log10(hi)))
    if rng.random() < 0.3:      # near a threshold
        sm = P.standard_model_masses
        base = sum(float(sm[str(s)]) for s in rng.choice(("e", "mu", "tau", "pi", "pi0", "eta", "rho", "omega", "phi", "k"), rng.integers(1, 4)))
        M = float(np.clip(base * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -1)), lo, hi))
    th = float(rng.choice([-1, 1]) * (rng.uniform(0.1, 0.7) if rng.random() < 0.3 else 10 ** rng.uniform(-8, -0.3)))
    return RHNeutrino(M, th, LEP[fl]), M, th, fl


def keys(own):
    l, v = LEP[own], NU[own]
    out = {f"{v} a", f"{v} pi0", f"{v} eta", f"{v} rho", f"{v} omega", f"{v} phi", f"{l} k", f"{l} pi", f"{l} rho", f"{v} pi pi", f"{l} pi pi0"}
    out |= {f"{v} {a} {a}" for a in LEP + NU}
    for g in range(3):
        if g != own:
            out |= {f"{NU[g]} {l} {LEP[g]}", f"{NU[g]} {LEP[g]} {l}"}
    return out


def widths(rec, _):
    from hazma.rh_neutrino import RHNeutrino as RHN
    rng = rec.rng
    P = par()
    for _ in range(rec.n(12, 150)):
        m, M, th, own = sample(rng)
        got = m.decay_widths()
        rec.ok(set(got) == keys(own) | {"total"} and set(m.list_decay_final_states()) == keys(own), "widths:keys", flavor=LEP[own], have=sorted(got))
        total = 0.0
        for k in sorted(keys(own)):
            want = width_ref(M, th, own, k, m._ff_pi)
            total += got[k]
            slow = k.endswith(("pi pi", "pi pi0"))
            rec.close(got[k], want, "width:" + ("nu " if k.split()[0] in NU else "l ") + " ".join(k.split()[1:]) if len(k.split()) == 2 else
                      "width:three-lepton" if not slow else "width:pipi", rtol=2e-2 if slow and M > 1500 else 3e-3 if slow else 5e-5, atol=1e-9 * want + 1e-80,
                      mx=M, theta=th, flavor=LEP[own], channel=k)
            one = m.decay_width([k])
            rec.close(one[k], got[k], "width:one-state", rtol=1e-12, atol=1e-300, channel=k)
        rec.close(got["total"], total, "widths:total", rtol=1e-12, mx=M)
        bf = m.decay_branching_fractions()
        rec.close(sum(bf.values()), 1.0, "widths:branching", rtol=1e-9, mx=M)
        for k, v in bf.items():
            rec.close(v, got[k] / total, "widths:branching", rtol=1e-9, atol=1e-300, channel=k)
        rec.raises(lambda: m.decay_width(["zz"]), KeyError, "widths:unknown")
        n3, ng = sum(got[f"{NU[own]} {x} {x}"] for x in NU), got[f"{NU[own]} a"]
        ratio = ng / n3 / (27 * P.alpha_em / (8 * np.pi))
        rec.ok(abs(ratio - 1) < 1e-6 or abs(ratio - 2) < 1e-6, "widths:radiative-ratio", ratio=ratio, mx=M)
        rec.close(ng / n3, 27 * P.alpha_em / (8 * np.pi), "majorana:radiative-to-invisible", rtol=1e-6)
    # every width depends on the mixing angle through the same factor
    for own in range(3):
        M = float(rng.uniform(2500.0, 6000.0))
        a, b = RHN(M, 1e-4, LEP[own]).decay_widths(), RHN(M, float(rng.uniform(0.3, 0.7)), LEP[own])
        f, b = uu(b.theta) / uu(1e-4), b.decay_widths()
        for k in sorted(keys(own)):
            rec.close(b[k], a[k] * f, "widths:mixing", rtol=1e-6, atol=1e-300, channel=k, mx=M)
    # both meson constants reproduce the measured lifetimes of their own leptonic decays through the crossed amplitude
    for mass, f, ckm, br, life in ((P.charged_pion_mass, P.fpi, P.Vud, 0.999877, 2.6033e-8), (P.charged_kaon_mass, P.fk, P.Vus, 0.6356, 1.238e-8)):
        w = P.GF**2 * abs(ckm)**2 * f * f * mass * P.muon_mass**2 * (1 - P.muon_mass**2 / mass**2)**2 / (4 * np.pi)
        rec.close(6.582119569e-22 * br / w, life, "constants:lifetime", rtol=0.04, mass=mass)


def squared(rec, _):
    """Squared amplitudes pointwise, and their integrals against the widths."""
    from hazma.rh_neutrino import _widths as W
    from hazma.rh_neutrino._proto import Generation
    rng = rec.rng
    for _ in range(rec.n(14, 150)):
        m, M, th, own = sample(rng, 5.0)
        u = uu(th)
        ff = m._ff_pi
        cases = []
        for gv, g1, g2 in itertools.product(range(3), repeat=3):
            ms, f = amp_lll(M, own, gv, g1, g2)
            if sum(ms) < M:
                cases.append(("lll", (gv, g1, g2), ms, f, *W._make_msqrd_and_masses_v_l_l(m, *map(Generation, (gv, g1, g2)))))
        for g in range(3):
            ms, f = amp_nnn(M, own, g)
            cases.append(("nnn", (g,), ms, f, lambda s, t, g=g: W.msqrd_v_v_v(s, t, m, Generation(g)), ms))
        for charged in (0, 1):
            ms, f = amp_pipi(M, m.ml if charged else 0.0, ff, charged)
            if sum(ms) < M < 4000:
                cases.append(("pipi", (charged,), ms, f, (lambda s, t: W.msqrd_l_pi0_pi(s, t, m, ff)) if charged else
                              (lambda s, t: W.msqrd_v_pi_pi(s, t, m, ff)), ms))
        for name, tag, ms, f, g, masses in cases:
            rec.ok(np.allclose(masses, ms, rtol=1e-12, atol=0), "squared:masses", states=tag, own=own, have=masses, expected=ms)
            s, t, w = grid(M, ms, n=40)
            s, t = s.ravel(), t.ravel()
            want, got = u * f(s, t), np.asarray(g(s, t))
            top = float(np.max(np.abs(want)))
            if name == "nnn":       # normalisation over identical particles is a convention: the shape is what distributions use
                got, want = got / max(float(np.max(np.abs(got))), 1e-300), want / top
                top = 1.0
            rec.close(got, want, "squared:" + name, rtol=1e-6, atol=1e-7 * top, states=tag, own=own, mx=M, theta=th)
            i = int(rng.integers(0, len(s)))
            rec.close(np.asarray(g(float(s[i]), float(t[i]))), g(s, t)[i], "squared:scalar", rtol=1e-9, atol=1e-9 * float(np.max(np.abs(g(s, t)))) + 1e-300, states=tag)
            if name == "lll":
                wd = W.width_v_l_l(m, *map(Generation, tag))
                # the width's dimensionless integral carries scipy's absolute tolerance, which shows next to threshold
                rec.close(wd, u * dalitz(M, ms, f), "squared:width", rtol=2e-6, atol=1.5e-8 * u * 1.1663787e-11**2 * M**5 / (192 * np.pi**3), states=tag, own=own, mx=M)


def hist(M, ms, f, edges, i, ff=False):
    """Energy histogram of particle i from a dense Dalitz sum (probability per bin)."""
    s, t, w = grid(M, ms, n=900, extra=RES if ff else ())
    v = w * f(s.ravel(), t.ravel()).reshape(s.shape)
    r = M * M + sum(x * x for x in ms) - s - t
    e = (M * M + ms[i]**2 - (s, t, r)[i]) / (2 * M)
    h, _ = np.histogram(e, bins=edges, weights=v)
    return h / h.sum()


def distributions(rec, _):
    from hazma.rh_neutrino import _widths as W
    from hazma.rh_neutrino._proto import Generation
    rng = rec.rng
    for _ in range(rec.n(5, 40)):
        m, M, th, own = sample(rng, 5.0, 4000.0)
        ff = m._ff_pi
        todo = []
        gens = [(own, g, g) for g in range(3)] + [(g, own, g) for g in range(3) if g != own] + [(g, g, own) for g in range(3) if g != own]
        for i in rng.permutation(len(gens))[:3]:
            ms, f = amp_lll(M, own, *gens[i])
            if sum(ms) < 0.98 * M:
                a = tuple(map(Generation, gens[i]))
                todo.append((("lll",) + gens[i], ms, f, lambda n, a=a: W.energy_distributions_v_l_l(m, *a, n), lambda n, a=a: W.invariant_mass_distributions_v_l_l(m, *a, n)))
        g = int(rng.integers(0, 3))
        todo.append((("nnn", g), *amp_nnn(M, own, g), lambda n: W.energy_distributions_v_v_v(m, Generation(g), n), lambda n: W.invariant_mass_distributions_v_v_v(m, Generation(g), n)))
        for charged in (0, 1):
            ms, f = amp_pipi(M, m.ml if charged else 0.0, ff, charged)
            if sum(ms) < 0.95 * M and M < 1500 and rng.random() < 0.4:
                todo.append((("pipi", charged), ms, f, (lambda n: W.energy_distributions_l_pi0_pi(m, ff, n)) if charged else (lambda n: W.energy_distributions_v_pi_pi(m, ff, n)),
                             (lambda n: W.invariant_mass_distributions_l_pi0_pi(m, ff, n)) if charged else (lambda n: W.invariant_mass_distributions_v_pi_pi(m, ff, n))))
        for tag, ms, f, ed, md in todo:
            nb = 10 if tag[0] == 'pipi' else 16
            tol = 0.03 if tag[0] == 'pipi' else 0.006
            es = ed(nb)
            rec.ok(len(es) == 3, "dist:three", tag=tag)
            for i, d in enumerate(es):
                b = np.asarray(d.bins)
                p = np.asarray(d.probabilities) * np.diff(b)
                h = hist(M, ms, f, b, i, tag[0] == "pipi")
                # means are insensitive to how a bin's value is sampled
                c = (b[:-1] + b[1:]) / 2
                rec.close(float(np.sum(c * p)) / float(np.sum(p)), float(np.sum(c * h)), "dist:energy-mean", rtol=0.0, atol=tol * (b[-1] - b[0]), tag=tag, mx=M, particle=i)
                rec.ok(0.5 * float(np.sum(np.abs(p / p.sum() - h))) < 12 * tol, "dist:energy-shape", tag=tag, mx=M, particle=i, tv=0.5 * float(np.sum(np.abs(p / p.sum() - h))))
            pair = md(nb)
            rec.ok(set(pair) == {(0, 1), (0, 2), (1, 2)}, "dist:pairs", tag=tag, have=sorted(pair))
            s, t, w = grid(M, ms, n=900, extra=RES if tag[0] == "pipi" else ())
            v = w * f(s.ravel(), t.ravel()).reshape(s.shape)
            r = M * M + sum(x * x for x in ms) - s - t
            for k, x in (((1, 2), s), ((0, 2), t), ((0, 1), r)):
                b = np.asarray(pair[k].bins)
                c = (b[:-1] + b[1:]) / 2
                p = np.asarray(pair[k].probabilities) * np.diff(b)
                h, _ = np.histogram(np.sqrt(np.maximum(x, 0)), bins=b, weights=v)
                rec.close(float(np.sum(c * p) / np.sum(p)), float(np.sum(c * h) / h.sum()), "dist:mass-mean", rtol=0.0, atol=tol * (b[-1] - b[0]), tag=tag, mx=M, pair=str(k))


def states_of(key, own):
    return tuple({"rho": "rho0" if key.split()[0] in NU else "rho"}.get(s, s) for s in key.split())


def spectra_(rec, part):
    """Every channel's spectrum of every product = the n-body spectrum of its particles weighted by the V-A amplitude."""
    from hazma import spectra as sp
    rng = rec.rng
    sm = par().standard_model_masses
    for it in range(rec.n(2, 14)):
        lo, hi = ((30.0, 450.0), (450.0, 1300.0), (1300.0, 4000.0))[part]
        m, M, th, own = sample(rng, lo, hi)
        ff = m._ff_pi
        funcs = dict(photon=m._spectrum_funcs(), positron=m._positron_spectrum_funcs(), neutrino=m._neutrino_spectrum_funcs())
        for product, fd in funcs.items():
            rec.ok(set(fd) == keys(own), "spectra:keys", product=product, have=sorted(fd))
            for key in sorted(keys(own)):
                w = key.split()
                fs = states_of(key, own)
                if product == "photon" and "rho" in key and rng.random() < 0.7:
                    continue
                if len(w) == 3 and rng.random() < (0.8 if "pi" in w else 0.5):
                    continue
                if "tau" in w and M > sum(sm[s] for s in fs):
                    continue            # no decay spectra of the tau exist
                es = np.geomspace(0.52 if product == "positron" else 1e-3 * M, 0.55 * M, 9)
                shape = (3, len(es)) if product == "neutrino" else es.shape
                kw = dict(nbins=10) if len(w) == 3 else {}
                good, got = rec.guard("spectra:raises", lambda: np.asarray(fd[key](es, **kw)), product=product, channel=key, mx=M)
                if not good:
                    continue
                rec.ok(got.shape == shape, "spectra:shape", product=product, channel=key, mx=M, have=got.shape, expected=shape)
                if got.shape != shape:
                    continue
                if w[1:] == ["a"] or M < sum(sm[s] for s in fs):
                    rec.ok(not np.any(got), "spectra:closed", product=product, channel=key, mx=M)
                    continue
                if len(w) == 3:
                    if w[1] == "pi":
                        ms, f = amp_pipi(M, 0.0 if w[0] in NU else m.ml, ff, w[0] not in NU)
                        fs = fs if w[0] in NU else (w[0], "pi0", "pi")
                    elif w[1] in NU:
                        ms, f = amp_nnn(M, own, NU.index(w[1]))
                    else:
                        ms, f = amp_lll(M, own, NU.index(w[0]), LEP.index(w[1]), LEP.index(w[2]))
                    scale = uu(th)      # the quadratures' absolute tolerances see the scale
                    kw = dict(nbins=10, msqrd=lambda s, t: scale * f(s, t), msqrd_signature="st", three_body_integrator="quad")
                if product == "photon":
                    want = sp.dnde_photon(es, M, fs, include_fsr=True, average_fsr=True, **kw)
                else:
                    want = getattr(sp, "dnde_" + product)(es, M, fs, **kw)
                rec.close(got, want, "spectra:" + product, rtol=3e-3, atol=1e-6 * float(np.max(np.abs(want))) + 1e-300, channel=key, mx=M, flavor=LEP[own])
        # the Monte-Carlo route of the three-body channels is another estimate of the same spectra
        for key in sorted(keys(own)):
            w, fs = key.split(), states_of(key, own)
            if len(w) != 3 or "tau" in w or M < sum(sm[s] for s in fs) * 1.02 or ("pi" in w and rng.random() < 0.7) or rng.random() < 0.4:
                continue
            product = str(rng.choice(list(funcs)))
            es = np.geomspace(0.52 if product == "positron" else 2e-3 * M, 0.55 * M, 120)
            want = np.asarray(funcs[product][key](es, nbins=24))
            good, got = rec.guard("spectra:rambo-raises", lambda: np.asarray(funcs[product][key](es, nbins=24, three_body_integrator="rambo")),
                                  product=product, channel=key, mx=M)
            if good:
                d = np.max(np.trapezoid(np.abs(got - want) * es, np.log(es), axis=-1))
                s = np.max(np.trapezoid(np.abs(want) * es, np.log(es), axis=-1))
                rec.ok(d <= 0.15 * s + 1e-9, "spectra:rambo", product=product, channel=key, mx=M, l1=d, norm=s)
                rec.count("monte-carlo three-body spectra")
        # the model-level photon and positron totals are the branching-weighted sums
        bf = m.decay_branching_fractions()
        es = np.geomspace(1e-3 * M, 0.5 * M, 4)
        if part == 0:
            for tot, parts in ((m.spectra(es), m.spectrum_funcs()), (m.positron_spectra(es), m.positron_spectrum_funcs())):
                rec.close(tot["total"], sum(bf[k] * np.asarray(fn(es)) for k, fn in parts.items()), "spectra:total", rtol=1e-6, atol=1e-300, mx=M)


def conserve(rec, _):
    """Energy carried by photons, electrons, positrons and neutrinos of one decay adds up to the mass."""
    rng = rec.rng
    P = par()
    me, mpi, mpi0, mmu = P.electron_mass, P.charged_pion_mass, P.neutral_pion_mass, P.muon_mass
    from hazma.rh_neutrino import RHNeutrino
    for _ in range(rec.n(3, 14)):
        own = int(rng.integers(0, 2))
        M = float(rng.uniform(270, 600))
        m = RHNeutrino(M, 1e-3, LEP[own])
        x = np.geomspace(1e-4 * M, 0.56 * M, 900)
        xp = me + np.geomspace(1e-3, 0.56 * M, 900)
        fg, fp, fn = m._spectrum_funcs(), m._positron_spectrum_funcs(), m._neutrino_spectrum_funcs()
        l, v = LEP[own], NU[own]
        for key in (f"{v} pi0", f"{l} pi", f"{v} pi pi", f"{v} mu mu", f"{v} {l} {l}", f"{v} e e", f"{NU[1 - own]} e mu", f"{NU[1 - own]} mu e", f"{v} ve ve", f"{v} vt vt"):
            w = key.split()
            masses = [P.standard_model_masses[s] for s in w]
            if M < 1.1 * sum(masses):
                continue
            e = np.trapezoid(fg[key](x) * x * x, np.log(x)) + np.trapezoid(fp[key](xp) * xp * (xp - me), np.log(xp - me))
            e += np.trapezoid(np.sum(fn[key](x), 0) * x * x, np.log(x))
            line = 0.0
            if len(w) == 2:         # monochromatic primaries are reported as lines
                a, b = masses
                ea = (M * M + a * a - b * b) / (2 * M)
                line = ea if w[0] in NU or w[0] == "e" else 0.0
                ref = m._neutrino_line_energies() if w[0] in NU else m._positron_line_energies()
                if line:
                    rec.close(ref.get(key, np.nan), ea, "lines:" + ("neutrino" if w[0] in NU else "positron"), rtol=1e-12, channel=key)
            # the pion's electron-flavor line and the legacy radiative muon tables limit the balance
            rec.ok(0.93 < (e + line) / M < 1.07, "energy-balance", channel=key, mx=M, energy=float(e + line), ratio=float((e + line) / M))


def histories(rec, _):
    """Setter histories end in the same observables as a fresh model; lines follow the current state."""
    from hazma.rh_neutrino import RHNeutrino
    rng = rec.rng
    P = par()
    sm = P.standard_model_masses
    for _ in range(rec.n(12, 100)):
        m, M, th, own = sample(rng)
        for _ in range(int(rng.integers(1, 7))):
            k = rng.integers(0, 4)
            if k == 0:
                M = float(10 ** rng.uniform(0, 4))
                m.mx = M
            elif k == 1:
                th = float(10 ** rng.uniform(-6, -0.5))
                m.theta = th
            elif k == 2:
                own = int(rng.integers(0, 3))
                m.flavor = LEP[own]
            else:
                rec.raises(lambda: setattr(m, "flavor", "zz"), ValueError, "history:flavor")
        f = RHNeutrino(M, th, LEP[own])
        rec.ok((m.mx, m.theta, m.flavor, m.ml, int(m.gen)) == (M, th, LEP[own], sm[LEP[own]], own), "history:state", state=str((m.mx, m.theta, m.flavor)))
        ks = sorted(f.list_decay_final_states())
        rec.ok(sorted(m.list_decay_final_states()) == ks, "history:states")
        easy = [k for k in ks if not k.endswith(("pi pi", "pi pi0"))]
        rec.ok(m.decay_width(easy) == f.decay_width(easy), "history:widths", mx=M, flavor=LEP[own])
        es = np.geomspace(1, M, 5)
        two = [k for k in easy if len(k.split()) == 2 and "rho" not in k]
        for name in ("_spectrum_funcs", "_positron_spectrum_funcs", "_neutrino_spectrum_funcs"):
            a, b = getattr(m, name)(), getattr(f, name)()
            for k in two:
                rec.ok(np.array_equal(a[k](es), b[k](es)), "history:spectra", channel=k, mx=M)
        for name in ("_gamma_ray_line_energies", "_positron_line_energies", "_neutrino_line_energies"):
            rec.ok(getattr(m, name)() == getattr(f, name)(), "history:lines", which=name)
        v = NU[own]
        rec.close(m._gamma_ray_line_energies()[f"{v} a"], M / 2, "lines:photon", rtol=1e-14)
        nl = m._neutrino_line_energies()
        rec.ok({f"{v} {s}" for s in ("pi0", "eta") if M > sm[s]} | {f"{v} a"} == set(nl), "lines:neutrino-keys", mx=M, have=sorted(nl))
        for s in ("pi0", "eta"):
            if M > sm[s]:
                rec.close(nl[f"{v} {s}"], (M * M - sm[s]**2) / (2 * M), "lines:neutrino", rtol=1e-12)
        pl = m._positron_line_energies()
        rec.ok(set(pl) == ({"e pi", "e k"} if own == 0 else set()), "lines:positron-keys", have=sorted(pl), flavor=LEP[own])
        for k, x in pl.items():
            rec.close(x, (M * M + sm["e"]**2 - sm[k.split()[1]]**2) / (2 * M), "lines:positron", rtol=1e-12)
    rec.raises(lambda: RHNeutrino(1.0, 1e-3, "zz"), ValueError, "history:init")


def tasks(ck):
    return [("widths", widths, None), ("squared", squared, None), ("distributions", distributions, None), ("conserve", conserve, None),
            ("histories", histories, None)] + [(f"spectra-{i}", spectra_, i) for i in range(3)]
