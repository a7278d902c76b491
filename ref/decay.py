"""Independent decay spectra: rest-frame shapes from decay amplitudes, boosts as differences of a cumulative integral.

A distribution of a product of mass `m` is held in the coordinate w with dE/p = dw (w = ln E for m = 0, the rapidity
for m > 0): boosting by a parent rapidity Y is  f'(w) = [F(w-Y) - F(w+Y)] / (2 sinh Y)  with F the integral of f from w up, and a line of
weight N at w0 becomes N/(2 sinh Y p0) on (w0-Y, w0+Y).
"""
import numpy as np
from numpy.polynomial import chebyshev as C
from numpy.polynomial.legendre import leggauss

ALPHA = 1 / 137.035999084
ME, MMU, MPI, MPI0 = 0.5109989461, 105.6583745, 139.57039, 134.9768
META, METAP, MK, MK0, MRHO, MOMEGA, MPHI = 547.862, 957.78, 493.677, 497.611, 775.26, 782.66, 1019.461
BR_PI_MU, BR_PI_E, BR_PI0_AA = 0.9998770, 1.230e-4, 0.98823
FV, FA, FV_SLOPE, FPI = 0.0254, 0.0119, 0.10, 130.41


class Dist:
    """Piecewise-Chebyshev dN/dE(w) on given breakpoints, zero outside, plus lines [(energy, weight)]."""

    def __init__(self, f, breaks, m=0.0, lines=(), deg=48):
        self.m, self.lines = m, list(lines)
        self.b = np.unique(np.asarray(breaks, float))
        self.c = []
        for a, b in zip(self.b[:-1], self.b[1:]):
            x = (a + b) / 2 + (b - a) / 2 * np.cos(np.pi * (np.arange(deg + 1) + 0.5) / (deg + 1))
            y = np.asarray(f(self.energy(x)), float)
            k = np.arange(deg + 1)[:, None]
            t = np.cos(k * np.pi * (np.arange(deg + 1) + 0.5)[None, :] / (deg + 1))
            co = 2 / (deg + 1) * t @ y
            co[0] /= 2
            it = C.chebint(co) * (b - a) / 2
            it = -it
            it[0] -= C.chebval(1.0, it)          # integral from x to the right end
            self.c.append((co, it))
        # cumulative from the top: spectra grow towards small energies, and a sum from below would lose the small tail
        self.cum = [0.0]
        for co, it in reversed(self.c):
            self.cum.append(self.cum[-1] + C.chebval(-1.0, it))
        self.cum = self.cum[-2::-1]
        self.below = self.cum[0] + C.chebval(-1.0, self.c[0][1])

    def energy(self, w):
        return np.exp(w) if self.m == 0 else self.m * np.cosh(w)

    def coord(self, e):
        e = np.asarray(e, float)
        return np.log(e) if self.m == 0 else np.arccosh(np.maximum(e / self.m, 1.0))

    def _eval(self, w, which):
        w = np.atleast_1d(np.asarray(w, float))
        out = np.zeros(w.shape)
        i = np.searchsorted(self.b, w, side="right") - 1
        if which:
            out[i < 0] = self.below
        for j, (co, it) in enumerate(self.c):
            k = i == j
            if k.any():
                x = (2 * w[k] - self.b[j] - self.b[j + 1]) / (self.b[j + 1] - self.b[j])
                out[k] = (self.cum[j] + C.chebval(x, it)) if which else C.chebval(x, co)
        return out

    def __call__(self, e):
        e = np.asarray(e, float)
        ok = (e > 0) if self.m == 0 else (e >= self.m)
        return np.where(ok, self._eval(self.coord(np.where(ok, e, 1.0 + self.m)), False).reshape(e.shape), 0.0)

    def boosted(self, e, parent_energy, parent_mass):
        """dN/dE at lab energies for a parent in flight."""
        e = np.asarray(e, float)
        g = parent_energy / parent_mass
        s = np.sqrt((parent_energy - parent_mass) * (parent_energy + parent_mass)) / parent_mass
        Y = np.log(g + s)
        ok = (e > 0) if self.m == 0 else (e > self.m)
        w = self.coord(np.where(ok, e, 1.0 + self.m))
        # rapidity is even: F is odd about w = 0 for massive products
        lo = w - Y
        F = lambda v: self._eval(v, True).reshape(v.shape)
        if self.m > 0:
            out = (F(np.abs(lo)) - F(w + Y)) / (2 * s)     # E'min is |w - Y|
        else:
            out = (F(lo) - F(w + Y)) / (2 * s)
        for e0, n in self.lines:
            w0 = float(self.coord(e0))
            p0 = np.sqrt(e0 * e0 - self.m ** 2)
            lowest = np.abs(lo) if self.m > 0 else lo
            out = out + n / (2 * s * p0) * ((lowest <= w0) & (w0 <= w + Y))
        return np.where(ok, out, 0.0)

    def kinks(self, Y):
        """Lab coordinates where the boosted distribution has corners."""
        ws = list(self.b) + [float(self.coord(e0)) for e0, _ in self.lines]
        out = [w + Y for w in ws] + [w - Y for w in ws] + [Y - w for w in ws]
        return [w for w in out if self.m == 0 or w >= 0]

    def total(self):
        """Number of products: sum of  f p dw  plus lines."""
        x, wt = leggauss(64)
        n = 0.0
        for a, b in zip(self.b[:-1], self.b[1:]):
            w = (a + b) / 2 + (b - a) / 2 * x
            e = self.energy(w)
            n += np.sum(wt * (b - a) / 2 * self(e) * np.sqrt(e * e - self.m**2))
        return n + sum(k for _, k in self.lines)


def subdivide(b, step=0.7):
    b = np.unique(b)
    out = [b[0]]
    for x, y in zip(b[:-1], b[1:]):
        n = max(1, int(np.ceil((y - x) / step)))
        out += list(x + (y - x) * np.arange(1, n + 1) / n)
    return np.array(out)


def graded(lo, hi, n=6):
    """Break points accumulating towards the upper end (logarithmic endpoint singularities)."""
    return [hi - (hi - lo) * 4.0**-k for k in range(n)] + [hi]


def in_frame(d, energy, mass, parts=()):
    """Rest-frame distribution in the grandparent's frame of a daughter of `energy` and `mass` decaying as `d`."""
    s = np.sqrt((energy - mass) * (energy + mass)) / mass
    Y = np.log(energy / mass + s)
    k = np.array(d.kinks(Y))
    b = [w for w in k]
    if d.m > 0:
        b.append(0.0)
    hi = max(b)
    lo = min(b)
    b = [w for w in b if w >= lo]
    bs = subdivide(np.array(sorted(set(b))))
    # drop slivers below rounding
    keep = [bs[0]] + [y for x, y in zip(bs[:-1], bs[1:]) if y - x > 1e-13]
    return Dist(lambda e: d.boosted(e, energy, mass), keep, d.m)


def add(ds, ws, lines=()):
    """Weighted sum of continuous distributions (same product mass)."""
    b = np.unique(np.concatenate([d.b for d in ds]))
    b = np.array([b[0]] + [y for x, y in zip(b[:-1], b[1:]) if y - x > 1e-13])
    return Dist(lambda e: sum(w * d(e) for d, w in zip(ds, ws)), b, ds[0].m, lines)


# ------------------------------------------------------------------ photons
EMIN = 1e-9


def muon_photon_rest(e):
    """mu -> e nu nu gamma, hep-ph/9909265 to O(alpha), leading in m_e."""
    e = np.asarray(e, float)
    y = 2 * e / MMU
    r = (ME / MMU) ** 2
    ok = (y > 0) & (y < 1 - r)
    y = np.where(ok, y, 0.5)
    jm = (3 - 5 * y + 6 * y**2 - 6 * y**3 + 2 * y**4) * np.log((1 - y) / r) + (1 - y) * (-102 + 46 * y - 101 * y**2 + 55 * y**3) / 12
    return np.where(ok, 2 / MMU * ALPHA / (3 * np.pi) * jm / y, 0.0)


def pion_radiative(e, ml):
    """pi -> l nu gamma per pi -> l nu: inner bremsstrahlung, structure dependent parts and interference (Bryman et al.),
    integrated over the lepton energy."""
    e = np.atleast_1d(np.asarray(e, float))
    r = (ml / MPI) ** 2
    x = 2 * e / MPI
    ok = (x > 0) & (x < 1 - r)
    x = np.where(ok, x, 0.3 * (1 - r))[:, None]
    gx, gw = leggauss(80)
    ylo, yhi = 1 - x + r / (1 - x), 1 + r
    # z = x + y - 1 - r runs over decades: logarithmic map
    zlo, zhi = ylo + x - 1 - r, yhi + x - 1 - r
    lz = (np.log(zlo) + np.log(zhi)) / 2 + (np.log(zhi) - np.log(zlo)) / 2 * gx[None, :]
    z = np.exp(lz)
    jac = z * (np.log(zhi) - np.log(zlo)) / 2 * gw[None, :]
    y = z - x + 1 + r
    v = FV * (1 + FV_SLOPE * (1 - x))
    a = FA
    f = 1 + r - y
    ib = f / (x * x * z) * (x * x + 2 * (1 - x) * (1 - r) - 2 * x * r * (1 - r) / z)
    sdp = z * ((x + y - 1) * (1 - x) - r)
    sdm = f * ((1 - x) * (1 - y) + r)
    ip = f / (x * z) * ((1 - x) * (1 - x - y) + r)
    im = f / (x * z) * (x * x - (1 - x) * (1 - x - y) - r)
    sd = (MPI / (2 * FPI)) ** 2 / r * ((v + a) ** 2 * sdp + (v - a) ** 2 * sdm)
    it = MPI / FPI * ((v + a) * ip + (v - a) * im)
    dndx = ALPHA / (2 * np.pi) / (1 - r) ** 2 * np.sum((ib + sd + it) * jac, axis=1)
    return np.where(ok, 2 / MPI * dndx, 0.0)



def muon_photon():
    hi = MMU / 2 * (1 - (ME / MMU) ** 2)
    return Dist(muon_photon_rest, subdivide(np.array([np.log(EMIN)] + list(np.log(graded(1.0, hi, 16)))), 1.0))


def pion_photon():
    """Charged pion at rest, per pion: radiative pi -> l nu gamma plus photons from the muon."""
    emu = (MPI**2 + MMU**2) / 2 / MPI
    mu = in_frame(muon_photon(), emu, MMU)
    parts = [mu]
    for ml in (MMU, ME):
        hi = (MPI**2 - ml**2) / 2 / MPI
        parts.append(Dist(lambda e, ml=ml: pion_radiative(e, ml), subdivide(np.array([np.log(EMIN)] + list(np.log(graded(1.0, hi, 16)))), 1.0)))
    lo = max(d.b[0] for d in parts)
    out = add(parts, [BR_PI_MU, BR_PI_MU, BR_PI_E])
    return out


def two_body(M, m, other):
    return (M * M + m * m - other * other) / (2 * M)


def rho_photon(charged, pion=None):
    pion = pion or pion_photon()
    if not charged:
        d = in_frame(pion, MRHO / 2, MPI)
        return Dist(lambda e: 2 * d(e), d.b)
    d = in_frame(pion, two_body(MRHO, MPI, MPI0), MPI)
    e0 = two_body(MRHO, MPI0, MPI)
    p0 = np.sqrt(e0 * e0 - MPI0 * MPI0)
    lo, hi = np.log((e0 - p0) / 2), np.log((e0 + p0) / 2)
    box = Dist(lambda e: 0 * e + 2 * BR_PI0_AA / p0, [lo, hi])
    b = np.unique(np.concatenate([d.b, box.b]))
    return Dist(lambda e: d(e) + box(e), b)


# ------------------------------------------------------------------ positrons and neutrinos from muons
def michel_positron_rest(e):
    """Unpolarised Michel spectrum with the electron mass kept, normalised numerically to one positron."""
    e = np.asarray(e, float)
    W = (MMU**2 + ME**2) / (2 * MMU)
    ok = (e > ME) & (e < W)
    x = np.where(ok, e, (ME + W) / 2)
    p = np.sqrt(np.maximum(x * x - ME * ME, 0))
    shape = lambda e, p: p * (3 * e * (MMU**2 + ME**2) - 4 * MMU * e * e - 2 * MMU * ME**2)
    gx, gw = leggauss(200)
    hi = np.arccosh(W / ME)
    w = hi / 2 * (gx + 1)
    ew, pw = ME * np.cosh(w), ME * np.sinh(w)
    norm = np.sum(gw * hi / 2 * shape(ew, pw) * pw)
    return np.where(ok, shape(x, p) / norm, 0.0)


def michel_neutrino_rest(e, flavour):
    """Two-body reduction of |M|^2 ~ (p_mu . k_e)(p_e . k_mu); k_e the electron-type and k_mu the muon-type neutrino."""
    e = np.atleast_1d(np.asarray(e, float))
    top = (MMU**2 - ME**2) / (2 * MMU)

    def raw(e):
        Q2 = MMU * (MMU - 2 * e)                                  # invariant mass of the other two
        ps = 1 - ME**2 / Q2
        if flavour == "e":
            return e * (MMU * e) * (Q2 - ME**2) / 2 * ps
        # average (p_mu . k_e)(p_e . k_mu) over the angle of k_e in the Q frame
        gx, gw = leggauss(8)
        Q = np.sqrt(Q2)
        k = (Q2 - ME**2) / (2 * Q)
        Emu = (MMU**2 + Q2) / (2 * Q)                             # muon energy in the Q frame; neutrino k_mu along +z
        pmu = Emu - Q                                             # k_mu energy = |p| = E_mu - Q
        tot = 0.0
        for c, w in zip(gx, gw):
            pk = Emu * k - pmu * k * c
            pe = (Q - k) * pmu + k * c * pmu                      # p_e = (Q - k, -k n): p_e . k_mu
            tot = tot + w / 2 * pk * pe
        return e * tot * ps
    gx, gw = leggauss(64)
    g = [0.0] + list(top * (1 - 2.0 ** -np.arange(1, 40))) + [top]
    norm = sum(np.sum(gw * (b - a) / 2 * raw((a + b) / 2 + (b - a) / 2 * gx)) for a, b in zip(g[:-1], g[1:]))
    ok = (e > 0) & (e < top)
    return np.where(ok, raw(np.where(ok, e, top / 2)) / norm, 0.0)


def muon_positron():
    W = (MMU**2 + ME**2) / (2 * MMU)
    return Dist(michel_positron_rest, subdivide(np.array([0.0, np.arccosh(W / ME)]), 0.5), ME)


def muon_neutrino(flavour):
    hi = (MMU**2 - ME**2) / 2 / MMU
    return Dist(lambda e: michel_neutrino_rest(e, flavour), subdivide(np.array([np.log(1e-6)] + list(np.log(graded(1.0, hi, 16)))), 0.7))


def pion_positron():
    """(continuum through the muon, line pi -> e nu) of a charged pion at rest."""
    d = in_frame(muon_positron(), two_body(MPI, MMU, 0.0), MMU)
    return Dist(lambda e: BR_PI_MU * d(e), d.b, ME, [(two_body(MPI, ME, 0.0), BR_PI_E)])


def pion_neutrino(flavour):
    d = in_frame(muon_neutrino(flavour), two_body(MPI, MMU, 0.0), MMU)
    line = [(two_body(MPI, 0.0, ME), BR_PI_E)] if flavour == "e" else [(two_body(MPI, 0.0, MMU), BR_PI_MU)]
    return Dist(lambda e: BR_PI_MU * d(e), d.b, 0.0, line)
