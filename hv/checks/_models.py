"""Random instances of every shipped model."""
import numpy as np

NAMES = ["ScalarMediator", "HiggsPortal", "HeavyQuark", "VectorMediator", "KineticMixing", "QuarksOnly",
         "VectorMediatorGeV", "KineticMixingGeV", "BLGeV", "RHNeutrino"]
SLOW = {"VectorMediatorGeV", "KineticMixingGeV", "BLGeV", "RHNeutrino"}


def params(name, rng):
    lo, hi = (0.5, 600.0)
    mx = float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    mm = float(np.exp(rng.uniform(np.log(1.0), np.log(1500.0))))
    c = lambda: float(10 ** rng.uniform(-4, 0.3) * rng.choice([-1, 1]))
    if rng.random() < 0.25:
        mm = 2 * mx * float(rng.uniform(0.7, 1.3))
    if name == "ScalarMediator":
        p = dict(mx=mx, ms=mm, gsxx=c(), gsff=c(), gsGG=c(), gsFF=c(), lam=float(10 ** rng.uniform(3, 6)))
    elif name == "HiggsPortal":
        p = dict(mx=mx, ms=mm, gsxx=c(), stheta=c() / 2)
    elif name == "HeavyQuark":
        p = dict(mx=mx, ms=mm, gsxx=c(), gsQ=c(), mQ=float(10 ** rng.uniform(3, 6)), QQ=float(rng.choice([-1 / 3, 2 / 3, 1.0])))
    elif name == "VectorMediator":
        p = dict(mx=mx, mv=mm, gvxx=c(), gvuu=c(), gvdd=c(), gvss=c(), gvee=c(), gvmumu=c())
    elif name == "KineticMixing":
        p = dict(mx=mx, mv=mm, gvxx=c(), eps=c())
    elif name == "QuarksOnly":
        p = dict(mx=mx, mv=mm, gvxx=c(), gvuu=c(), gvdd=c(), gvss=c())
    elif name == "VectorMediatorGeV":
        p = dict(mx=mx, mv=mm, gvxx=c(), gvuu=c(), gvdd=c(), gvss=c(), gvee=c(), gvmumu=c(), gvveve=c(), gvvmvm=c(), gvvtvt=c())
    elif name == "KineticMixingGeV":
        p = dict(mx=mx, mv=mm, gvxx=c(), eps=c())
    elif name == "BLGeV":
        p = dict(mx=mx, mv=mm, gvxx=c(), g=c())
    elif name == "RHNeutrino":
        p = dict(mx=mx, theta=float(10 ** rng.uniform(-5, -1)), flavor=str(rng.choice(["e", "mu", "tau"])))
    return p


def cls(name):
    if name in ("ScalarMediator", "HiggsPortal", "HeavyQuark"):
        import hazma.scalar_mediator as m
    elif name == "RHNeutrino":
        import hazma.rh_neutrino as m
    else:
        import hazma.vector_mediator as m
    return getattr(m, name)


def build(name, rng):
    p = params(name, rng)
    return cls(name)(**p), p


def pin_mc():
    """Make the library's unseeded Monte-Carlo integrals repeatable within this (forked) process."""
    orig = np.random.default_rng
    np.random.default_rng = lambda seed=None: orig(987654321 if seed is None else seed)
