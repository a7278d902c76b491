"""Amplitude oracle: thin access layer over the herwig4dm reference implementation (GeV)."""
import cmath
import importlib
import math
import pathlib
import sys

import numpy as np

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
H = {n: importlib.import_module("herwig4dm." + n) for n in (
    "Resonance", "F2pi", "FK", "FPiGamma_new", "FEtaGamma", "FOmegaPion", "FPhiPi", "FEtaOmega", "FEtaPhi", "FEtaPiPi",
    "FEtaPrimePiPi", "FOmegaPiPi", "F3pi", "FKKpi", "F4pi")}
FW = H["Resonance"].BreitWignerFW
H["FKKpi"].readHadronic_Current = lambda: None
H["F2pi"].resetParameters(1.0, 1.0, 2.0, 1.0, 1.0, 0.0, 0.0)
MPI, MPI0 = 0.13957039, 0.1349768
H["F3pi"].mPi_ = MPI


def _hrho(Qp2, Qm2, Q02, m, g):
    bw = H["F3pi"].BWrho
    return bw(Q02, m, g, MPI, MPI) + bw(Qp2, m, g, MPI0, MPI) + bw(Qm2, m, g, MPI0, MPI)


H["F3pi"].Hrho = _hrho


def _set(mod, c):
    H[mod].resetParameters(1.0, 1.0, 2.0, 1.0, *c)
    return H[mod]


def _phipi(e, c):
    M = _set("FPhiPi", c)
    s = e * e
    if M.cI1_ == 0:
        return 0j
    tot = 0j
    for w, m, g, b in zip(M.wgts, M.rhoMasses, M.rhoWidths, M.br4pi):
        wid = g * (1 - b + b * m * m / s * ((s - 16 * M.mpi**2) / (m * m - 16 * M.mpi**2)) ** 1.5)
        tot += w * m * m / (m * m - s - 1j * e * wid)
    return tot


def _etav(mod, v, k):
    def f(e, c):
        M = _set(mod, c)
        g = lambda n: getattr(M, n)
        a = (FW(e * e, g(f"m{v}_p_"), g(f"g{v}_p_")) * g(f"a_{v}_p_") * cmath.exp(1j * g(f"phi_{v}_p_"))
             + FW(e * e, g(f"m{v}_pp_"), g(f"g{v}_pp_")) * g(f"a_{v}_pp_") * cmath.exp(1j * g(f"phi_{v}_pp_")))
        return a * (M.cI0_ if k == 0 else M.cS_)
    return f


TWO = dict(
    PiPi=lambda e, c: (c[0] - c[1]) * H["F2pi"].Fpi(e * e, 1),          # linear in the isovector coupling
    Pi0Pi0=lambda e, c: (c[0] - c[1]) * H["F2pi"].Fpi(e * e, 0),
    KK=lambda e, c: _set("FK", c).Fkaon(e * e, 1),
    K0K0=lambda e, c: _set("FK", c).Fkaon(e * e, 0),
    Pi0Gamma=lambda e, c: 1e-3 * _set("FPiGamma_new", c).FPiGamma(e * e),
    EtaGamma=lambda e, c: 1e-3 * _set("FEtaGamma", c).FEtaGamma(e * e),
    Pi0Omega=lambda e, c: 1e-3 * _set("FOmegaPion", c).FOmPiGamma(e * e),
    Pi0Phi=lambda e, c: 1e-3 * _phipi(e, c),
    EtaOmega=lambda e, c: 1e-3 * _etav("FEtaOmega", "Omega", 0)(e, c),
    EtaPhi=lambda e, c: 1e-3 * _etav("FEtaPhi", "Phi", 1)(e, c),
    PiPiOmega=lambda e, c: _set("FOmegaPiPi", c).FOmegaPiPi(e * e),
    Pi0Pi0Omega=lambda e, c: _set("FOmegaPiPi", c).FOmegaPiPi(e * e),
)


def _kkpi(mode):
    def f(e, s, t, c):
        M = _set("FKKpi", c)
        a0, a1 = M.isoSpinAmplitudes(e * e)
        bw = lambda x, m, n: H["Resonance"].BreitWignerPWave(x, M.mKS, M.gKS, m, n) / M.mKS**2
        r6 = 2 * M.g2 / math.sqrt(6)
        if mode == 0:
            return r6 * (a0 + a1) * (bw(s, M.mK0, M.mpi0) + bw(t, M.mK0, M.mpi0))
        if mode == 1:
            return r6 * (a0 - a1) * (bw(s, M.mKp, M.mpi0) + bw(t, M.mKp, M.mpi0))
        # s: charged kaon + pion, t: neutral kaon + pion
        return r6 * ((a0 - a1) * bw(s, M.mKp, M.mpip) + (a0 + a1) * bw(t, M.mK0, M.mpip))
    return f


def _3pi(e, s, t, c):
    u = e * e + MPI0**2 + 2 * MPI**2 - s - t
    return _set("F3pi", c).F3pi(e * e, t, u, s)


THREE = dict(
    PiPiEta=lambda e, s, t, c: _set("FEtaPiPi", c).FEtaPiPi(e * e, s),
    PiPiEtaPrime=lambda e, s, t, c: _set("FEtaPrimePiPi", c).FEtaPrimePiPi(e * e, s),
    PiPiPi0=_3pi, Pi0K0K0=_kkpi(0), Pi0KpKm=_kkpi(1), PiKK0=_kkpi(2),
)


def four(mode, p1, p2, p3, p4):
    """-J.J* (isovector coupling one) without symmetry factors; mode 0: (pi+, pi-, pi0, pi0), mode 1: (pi+, pi-, pi+, pi-)."""
    F = H["F4pi"]
    Q = p1 + p2 + p3 + p4
    q2 = F.m2(Q)

    def neutral(a, b, c, d):       # a, b neutral; c = pi+, d = pi-
        j = F.c_a1 * F.Frho(q2, F.beta1_a1, F.beta2_a1, F.beta3_a1) * (
            F.Ja1(q2, c, b, a, d) + F.Ja1(q2, c, a, b, d) - F.Ja1(q2, d, b, a, c) - F.Ja1(q2, d, a, b, c))
        j = j - F.c_omega * F.Frho(q2, F.beta1_omega, F.beta2_omega, F.beta3_omega) * (F.Jomega(a, b, c, d) + F.Jomega(b, a, c, d))
        j = j - F.c_f0 * F.Frho(q2, F.beta1_f0, F.beta2_f0, F.beta3_f0) * F.Jf0(q2, a, b, c, d)
        return j - F.c_rho * F.Jrho(q2, a, b, c, d)

    if mode == 0:
        return neutral(p3, p4, p1, p2)
    return neutral(p3, p4, p1, p2) + neutral(p1, p4, p3, p2) + neutral(p3, p2, p1, p4) + neutral(p1, p2, p3, p4)
