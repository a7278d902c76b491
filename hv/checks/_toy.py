"""Randomly generated theories whose every observable is known in closed form."""
import numpy as np


class Chan:
    def __init__(self, name, sig, amp, k, line=None, thr=0.0, pos=None):
        self.name, self.sig, self.amp, self.k, self.line, self.thr, self.pos = name, sig, amp, k, line, thr, pos
        self.calls = 0

    def sigma(self, e):
        return self.sig * (1 + 0.1 * np.log(e)) if e > self.thr else 0.0

    def dnde(self, es, emax):
        """Soft power law with an endpoint."""
        self.calls += 1
        es = np.asarray(es, float)
        return self.amp * es ** (-self.k) * np.exp(-es / (0.3 * emax)) * (es < emax)


def chans(rng, mx, ann=True, closed=True, lines=True):
    e_cm = 2 * mx if ann else mx
    out = []
    for i in range(int(rng.integers(1, 6))):
        name = f"c{i}"
        thr = 0.0
        if closed and rng.random() < 0.3:
            thr = 10 * e_cm if rng.random() < 0.5 else e_cm * float(rng.uniform(0.95, 1.25))
        out.append(Chan(name, float(10 ** rng.uniform(-20, -8)) if rng.random() < 0.5 else float(rng.uniform(1, 3) * 1e-12),
                        float(10 ** rng.uniform(-3, 1)), float(rng.uniform(-1, 1.5)), thr=thr,
                        pos=float(rng.uniform(0.1, 2)),
                        line=float(rng.uniform(0.05, 0.5) * e_cm) if rng.random() < 0.3 and lines else None))
    if lines and rng.random() < 0.5:
        out.append(Chan("g g", float(rng.uniform(0.1, 3) * 1e-12), 0.0, 0.0, line=e_cm / 2, pos=0.0))
    if lines and rng.random() < 0.5:
        out.append(Chan("e e", float(rng.uniform(0.1, 3) * 1e-12), 0.3, 0.5, pos=0.0))
    return out


def make_ann(mx, cs):
    from hazma.theory import TheoryAnn

    class ToyAnn(TheoryAnn):
        def __init__(self):
            self.mx, self.cs, self.scale = mx, cs, 1.0

        def list_annihilation_final_states(self):
            return [c.name for c in self.cs]

        def annihilation_cross_section_funcs(self):
            return {c.name: (lambda e, c=c: self.scale * c.sigma(e)) for c in self.cs}

        def partial_widths(self):
            return {"total": 1.0}

        def _spectrum_funcs(self):
            return {c.name: (lambda es, e, c=c: c.dnde(es, e / 2)) for c in self.cs}

        def _gamma_ray_line_energies(self, e_cm):
            return {c.name: c.line for c in self.cs if c.line is not None}

        def _positron_spectrum_funcs(self):
            return {c.name: (lambda es, e, c=c: c.pos * c.dnde(es, e / 2)) for c in self.cs}

        def _positron_line_energies(self, e_cm):
            return {c.name: e_cm / 2 for c in self.cs if c.name == "e e"}

        def constraints(self):
            return {}
    return ToyAnn()


def make_dec(mx, cs):
    from hazma.theory import TheoryDec

    class ToyDec(TheoryDec):
        def __init__(self):
            self.mx, self.cs, self.scale = mx, cs, 1.0

        def list_decay_final_states(self):
            return [c.name for c in self.cs]

        def _decay_widths(self):
            return {c.name: self.scale * c.sigma(self.mx) for c in self.cs}

        def _spectrum_funcs(self):
            return {c.name: (lambda es, c=c: c.dnde(es, self.mx / 2)) for c in self.cs}

        def _gamma_ray_line_energies(self):
            return {c.name: c.line for c in self.cs if c.line is not None}

        def _positron_spectrum_funcs(self):
            return {c.name: (lambda es, c=c: c.pos * c.dnde(es, self.mx / 2)) for c in self.cs}

        def _positron_line_energies(self):
            return {c.name: self.mx / 2 for c in self.cs if c.name == "e e"}

        def constraints(self):
            return {}
    return ToyDec()
