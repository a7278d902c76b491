"""Native numerics: quadrature, interpolation and special functions."""
import warnings
import numpy as np

PROPERTY = "P24"
NATIVE = "all"
RULE = ("one integral, rule application, interpolation or special-function value per event; quadratures are watched through the trace of abscissae "
        "they request and judged against scipy's QUADPACK on the same integrand and against mpmath or closed forms; non-trivial = non-zero value")
ASSUME = ["cephes' k0/k1 come from this framework's stand-in of the spec_math crate; the repository's code around it is what is judged"]


def q():
    from hazma import _core
    return _core.quad


# ---------------------------------------------------------------- integrands: (function, a, b, exact or None, smooth?)

def integrand(rng):
    k = int(rng.integers(0, 13))
    a = float(rng.normal() * 10 ** rng.uniform(-2, 2))
    b = a + float(10 ** rng.uniform(-2, 2))
    L = b - a
    if k == 0:
        c = rng.normal(size=int(rng.integers(1, 25)))
        p = np.polynomial.Polynomial(c, domain=[a, b])
        P = p.integ()
        return (lambda x: float(p(x))), a, b, float(P(b) - P(a)), "entire"
    if k == 1:
        w = float(rng.uniform(0, 60)) / L
        return (lambda x: np.cos(w * x)), a, b, float((np.sin(w * b) - np.sin(w * a)) / w) if w else L, "entire"
    if k == 2:
        m, g = a + L * float(rng.uniform(-0.2, 1.2)), L * float(10 ** rng.uniform(-5, 0))
        return (lambda x: 1 / ((x - m)**2 + g * g)), a, b, float((np.arctan((b - m) / g) - np.arctan((a - m) / g)) / g), True
    if k == 3:
        p = float(rng.uniform(-0.9, 2))
        return (lambda x: (x - a) ** p), a, b, L ** (p + 1) / (p + 1), False
    if k == 4:
        p, c = float(rng.uniform(0, 1.5)), a + L * float(rng.random())
        return (lambda x: abs(x - c) ** p), a, b, ((c - a) ** (p + 1) + (b - c) ** (p + 1)) / (p + 1), False
    if k == 5:
        c = a + L * float(rng.random())
        return (lambda x: 1.0 if x > c else 0.0), a, b, b - c, False
    if k == 6:
        return (lambda x: np.log((x - a) / L)), a, b, -L, False
    if k == 7:
        s = float(10 ** rng.uniform(-2, 1)) / L
        return (lambda x: np.exp(-s * (x - a))), a, b, float(-np.expm1(-s * L) / s), "entire"
    if k == 8:
        return (lambda x: 0.0), a, b, 0.0, "entire"
    if k == 9:
        c = a + L * float(rng.random())
        return (lambda x: np.exp(-(((x - c) / (0.01 * L)) ** 2))), a, b, None, True
    if k == 10:
        return (lambda x: np.sqrt(max((x - a) * (b - x), 0.0))), a, b, np.pi * L * L / 8, False
    if k == 11:
        s = float(10 ** rng.uniform(-250, 250))
        return (lambda x: s * (1 + ((x - a) / L) ** 2)), a, b, s * L * 4 / 3, "entire"
    h, n = float(rng.uniform(0, 6)), int(rng.integers(2, 30))
    return (lambda x: abs(np.sin(n * np.pi * (x - a) / L + h))), a, b, None, False


class Trace:
    """Integrand wrapper recording every abscissa asked for."""

    def __init__(self, f):
        self.f, self.x = f, []

    def __call__(self, x):
        self.x.append(x)
        return self.f(x)


def scipy_quad(f, a, b, **kw):
    from scipy.integrate import quad
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = quad(f, a, b, full_output=1, **kw)
    return r[0], r[1], r[2]["neval"], r[2]["last"], len(r) > 3


def options(rng, a, b):
    kw = {}
    if rng.random() < 0.6:
        kw = dict(epsabs=float(10 ** rng.uniform(-13, -2)) if rng.random() < 0.8 else 0.0, epsrel=float(10 ** rng.uniform(-11, -2)))
    if rng.random() < 0.4:
        kw["limit"] = int(rng.integers(3, 120))
    if rng.random() < 0.5:
        lo, hi = min(a, b), max(a, b)
        p = [float(lo + (hi - lo) * t) for t in rng.uniform(-0.3, 1.3, int(rng.integers(1, 5)))]
        if rng.random() < 0.3:
            p += [a, b]
        if rng.random() < 0.3:
            p.append(p[0])
        kw["points"] = p
        if kw.get("limit", 50) < len(p) + 2:
            kw["limit"] = len(p) + 20
    return kw


def quadrature(rec, part):
    """Entire integrands are judged one by one; for the others the adaptive choices hinge on rounding, so the share that agrees is judged."""
    Q = q().quad
    rng = rec.rng
    share = {}

    def judge(strict, cond, key, **d):
        if strict:
            rec.ok(cond, "quad:" + key, **d)
        n = share.setdefault(key, [0, 0, d])
        n[0] += 1
        n[1] += bool(cond)
        if not cond:
            n[2] = d
    for _ in range(rec.n(2500, 25000)):
        f, a, b, exact, smooth = integrand(rng)
        kw = options(rng, a, b)
        strict = smooth == "entire"
        if rng.random() < 0.2:
            a, b, exact = b, a, None if exact is None else -exact
        t, ts = Trace(f), Trace(f)
        good, r = rec.guard("quad:raises", lambda: Q(t, a, b, **kw), a=a, b=b, kw=kw)
        if not good:
            continue
        v, err, neval, last, ier = r
        sv, serr, sneval, slast, sflag = scipy_quad(ts, a, b, **kw)
        rec.count("abscissae", len(t.x))
        x = np.array(t.x)
        lo, hi = min(a, b), max(a, b)
        rec.ok(len(x) == neval, "quad:neval is the number of evaluations", neval=neval, calls=len(x))
        rec.ok(bool(np.all((x >= lo) & (x <= hi))), "quad:abscissae inside the interval", a=a, b=b)
        rec.ok(last <= max(kw.get("limit", 50), 1), "quad:no more subdivisions than allowed", last=last, kw=kw)
        rec.ok(type(ier) is int and 0 <= ier <= 6 and err >= 0, "quad:flag and estimate", ier=ier, err=err)
        top = np.max(np.abs([f(u) for u in x[:21]])) * (hi - lo)
        tol = max(kw.get("epsabs", 1.49e-8), kw.get("epsrel", 1.49e-8) * abs(sv))
        floor = tol < 1e-11 * top                                    # asks for more than rounding allows
        judge(strict and not floor, (ier != 0) == sflag, "termination flag agrees", ier=ier, scipy=sflag, kw=kw)
        alike = neval == sneval and last == slast
        judge(strict and not floor, alike, "subdivision agrees", neval=neval, scipy=sneval, kw=kw)
        rec.count("identical subdivisions", int(alike))
        if ier == 0 and not sflag:
            judge(strict, abs(v - sv) <= 0.5 * tol + 1e-13 * top, "value agrees", value=v, scipy=sv, tol=tol, kw=kw)
            judge(False, err <= max(kw.get("epsabs", 1.49e-8), kw.get("epsrel", 1.49e-8) * abs(v)) * (1 + 1e-9) + 1e-13 * top, "estimate within the request", err=err, tol=tol, kw=kw)
            if alike:
                judge(strict, abs(v - sv) <= 1e-13 * top, "same subdivision, same value", value=v, scipy=sv, err=serr)
                judge(strict, abs(err - serr) <= 0.1 * max(err, serr) + 1e-13 * top, "error estimate agrees", err=err, scipy=serr)
                judge(strict, len(ts.x) == len(x) and np.allclose(x, ts.x, rtol=1e-13, atol=1e-14 * (hi - lo)), "abscissa trace agrees")
            if exact is not None:
                judge(strict, abs(v - exact) <= 12 * tol + 1e-12 * top, "value exact within tolerance", value=v, exact=exact, tol=tol)
        rec.seen((float(v).hex(), neval), nontrivial=v != 0)
    for key, (n, ok, d) in share.items():
        rec.ok(ok >= (0.97 if key != "value exact within tolerance" else 0.9) * n, f"quad:{key}, share", agree=ok, total=n, last_exception=d)


def contract(rec, _):
    Q = q().quad
    rng = rec.rng
    from scipy.integrate import quad as S
    for _ in range(rec.n(500, 5000)):
        f, a, b, exact, smooth = integrand(rng)
        # orientation, degenerate interval, linearity, additivity at a break point
        v = Q(f, a, b)
        w = Q(f, b, a)
        rec.ok(abs(v[0] + w[0]) <= 1e-12 * abs(v[0]) + 2 * (v[1] + w[1]), "contract:orientation", forward=v, backward=w)
        z = Q(f if smooth else (lambda x: 1.0), a, a)
        rec.ok(z[0] == 0.0, "contract:empty interval", value=z)
        # a failing integrand surfaces its own exception, and is not called again
        calls = []
        stop = int(rng.integers(1, 60))

        class Boom(Exception):
            pass

        def bad(x):
            calls.append(x)
            if len(calls) >= stop:
                raise Boom(stop)
            return float(np.sqrt(abs(x - a)))
        try:
            Q(bad, a, b, epsabs=1e-14, epsrel=1e-12)
        except Boom:
            rec.ok(len(calls) == stop, "contract:no calls after a failure", calls=len(calls), stop=stop)
        except Exception as e:
            rec.fail("contract:other exception", error=repr(e))
        else:
            rec.ok(len(calls) < stop, "contract:failure swallowed", calls=len(calls), stop=stop)
        try:
            Q(lambda x: "text", a, b)
        except TypeError:
            rec.count("typed refusals")
        except Exception as e:
            rec.fail("contract:non-number", error=repr(e))
        else:
            rec.fail("contract:non-number accepted")
        # refusals agree with scipy's
        for kw in (dict(limit=0), dict(limit=-3), dict(epsabs=0.0, epsrel=0.0), dict(epsabs=-1.0, epsrel=1e-30), dict(limit=2, points=[a + (b - a) * t for t in (.2, .4, .6)]),
                   dict(points=[]), dict(points=[a, b]), dict(points=[b + 1, a - 1]), dict(limit=1), dict(epsabs=1e-3, epsrel=-1.0)):
            def outcome(fn):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        return "value", fn(f, a, b, **kw)[0]
                    except Exception as e:
                        return "raise", type(e).__name__
            x, y = outcome(Q), outcome(S)
            rec.ok(x[0] == y[0] and (x[1] == y[1] if x[0] == "raise" else abs(x[1] - y[1]) <= 1e-9 * abs(y[1]) + 1e-7 or not smooth or kw.get("limit") == 1),
                   ("contract:options agree with scipy", sorted(kw)), native=x, scipy=y, kw=kw)
            rec.count("option outcomes")
        # hostile integrands: no crash, same order of outcome
        for g in (lambda x: float("nan"), lambda x: float("inf"), lambda x: 1e308, lambda x: -float("inf") if x > (a + b) / 2 else 0.0):
            good, r = rec.guard("contract:hostile integrand", lambda: Q(g, a, b))
            if good:
                rec.ok(len(r) == 5, "contract:hostile result")
                rec.count("hostile integrals")
        rec.seen((a, b, stop))


def rules(rec, _):
    """Gauss-Kronrod rules: node count, symmetry, exactness on polynomials up to their degree, first failing degree."""
    rng = rec.rng
    for _ in range(rec.n(600, 6000)):
        for name, n, deg in (("qk15", 15, 22), ("qk21", 21, 31)):
            rule = getattr(q(), name)
            a = float(rng.normal() * 10 ** rng.uniform(-1, 2))
            b = a + float(10 ** rng.uniform(-2, 2)) * (1 if rng.random() < 0.8 else -1)
            c, h = (a + b) / 2, (b - a) / 2
            d = int(rng.integers(0, deg + 1))
            co = rng.normal(size=d + 1)
            p = np.polynomial.Polynomial(co)
            P = p.integ()
            t = Trace(lambda x: float(p((x - c) / h)))
            res, err, rabs, rasc = rule(t, a, b)
            x = np.array(t.x)
            u = np.sort((x - c) / abs(h))
            scale = np.sum(np.abs(co)) * abs(h)
            rec.ok(len(x) == n and np.max(np.abs(u)) < 1, (name, "nodes"), count=len(x))
            rec.ok(np.allclose(u, -u[::-1], atol=4e-15 * (1 + abs(c / h))), (name, "symmetric nodes"))
            rec.close(res, float(h * (P(1) - P(-1))), (name, "polynomial exactness"), rtol=1e-13, atol=2e-14 * scale * (1 + abs(c / h)), degree=d)
            rec.ok(err >= 0 and rabs >= abs(res) * (1 - 1e-12) and rasc >= 0, (name, "estimates"), err=err, resabs=rabs, resasc=rasc)
            # the average modulus and the deviation from the mean, on the same nodes
            f = lambda s: (s + 1.5)
            r2, _, ra2, rs2 = rule(lambda x: f((x - c) / h), a, b)
            rec.close(ra2, abs(r2), (name, "resabs of a positive function"), rtol=1e-13)
            rec.close(rs2, abs(h), (name, "resasc of a line"), rtol=0.02)
            rec.seen((name, a, b, d))
        for name, first in (("qk15", 24), ("qk21", 32)):
            r = getattr(q(), name)(lambda s: s**first, -1.0, 1.0)[0]
            rec.ok(1e-17 < abs(r - 2 / (first + 1)) < 1e-3, (name, "exact only up to its degree"), value=r)


def interpolation(rec, _):
    from hazma import _core
    I = _core.interp.interp
    rng = rec.rng
    for _ in range(rec.n(1500, 15000)):
        n = int(rng.choice([1, 2, 3, 5, 40, 500]))
        xp = np.sort(rng.choice([rng.normal(size=n) * 10 ** rng.uniform(-5, 5), np.round(rng.uniform(-3, 3, n), 1), np.geomspace(1e-3, 1e3, n)][int(rng.integers(0, 3))], n))
        fp = rng.normal(size=n) * 10 ** rng.uniform(-8, 8)
        if rng.random() < 0.2:
            fp[rng.integers(0, n)] = rng.choice([np.inf, -np.inf, np.nan, 0.0, -0.0])
        span = xp[-1] - xp[0] + 1e-3
        x = np.concatenate([rng.uniform(xp[0] - 0.3 * span, xp[-1] + 0.3 * span, 20), rng.choice(xp, 6), np.nextafter(rng.choice(xp, 3), np.inf),
                            [np.nan, np.inf, -np.inf, xp[0], xp[-1]]])
        got = I(x, xp, fp)
        want = np.interp(x, xp, fp)
        top = np.max(np.abs(fp[np.isfinite(fp)]), initial=0.0)
        dup = np.any(np.diff(xp) == 0)
        clean = np.isfinite(fp).all()
        inside = (x > xp[0]) & (x < xp[-1])
        if clean and not dup:
            rec.close(got[~np.isnan(x)], want[~np.isnan(x)], "interp:values", rtol=1e-15 * 8, atol=1e-14 * top, n=n)
        else:
            both = np.isnan(got) == np.isnan(want)
            rec.ok(bool(np.all(both | ~np.isfinite(want) | (not clean))), "interp:nan pattern", n=n)
            fin = np.isfinite(want) & np.isfinite(got)
            rec.ok(np.allclose(got[fin], want[fin], rtol=1e-12, atol=1e-12 * top), "interp:values with ties or non-finite ordinates", n=n)
        rec.ok(np.isnan(got[np.isnan(x)]).all() if n > 1 else not np.isnan(got[np.isnan(x)]).any() or np.isnan(fp[0]), "interp:nan abscissa", n=n)
        lo, hi = x < xp[0], x > xp[-1]
        rec.ok(np.array_equal(got[lo], np.full(lo.sum(), fp[0]), equal_nan=True) and np.array_equal(got[hi], np.full(hi.sum(), fp[-1]), equal_nan=True), "interp:clamps", n=n)
        j = np.flatnonzero(np.isin(x, xp) & ~np.isnan(x))
        last = np.searchsorted(xp, x[j], side="right") - 1
        rec.ok(np.array_equal(got[j], fp[last], equal_nan=True), "interp:node values (last of equal nodes)", n=n)
        if clean:
            k = np.clip(np.searchsorted(xp, x[inside], side="right") - 1, 0, n - 2)
            a, b = np.minimum(fp[k], fp[k + 1]), np.maximum(fp[k], fp[k + 1])
            e = 1e-14 * top
            rec.ok(bool(np.all((got[inside] >= a - e) & (got[inside] <= b + e))), "interp:stays between neighbours", n=n)
        rec.seen((n, xp.tobytes()[:64], x.tobytes()[:32]))
        rec.count("points", len(x))
    for xp, fp, exc in (([], [], ValueError), ([1.0, 2.0], [1.0], ValueError)):
        rec.raises(lambda: I(1.0, np.array(xp), np.array(fp)), exc, "interp:refusals")


def special(rec, _):
    from hazma import _core
    import mpmath as mp
    mp.mp.dps = 40
    S = _core.special
    rng = rec.rng
    for _ in range(rec.n(700, 9000)):
        x = float([10 ** rng.uniform(-300, -1), rng.uniform(0, 1), rng.uniform(1, 3), 10 ** rng.uniform(0, 300), 1 + rng.normal() * 10 ** rng.uniform(-15, -1), rng.choice([0.5, 1.5, 2.0, 1.0])][int(rng.integers(0, 6))])
        if x >= 0:
            want = float(mp.re(mp.polylog(2, 1 - mp.mpf(x))))
            rec.close(S.spence(x), want, "spence", rtol=4e-15, atol=4e-16 * (1 if 0.3 < x < 3 else 0), x=x)
            # reflection: spence(x) + spence(1 - x) = pi^2/6 - ln x ln(1-x)
            if 1e-12 < x < 1 - 1e-12:
                rec.close(S.spence(x) + S.spence(1 - x), np.pi**2 / 6 - np.log(x) * np.log1p(-x), "spence:reflection", rtol=2e-14, x=x)
            rec.count("spence")
        n = int(rng.integers(-4, 25))
        z = float(10 ** rng.uniform(-6, 2.9))
        k1 = mp.besselk(1, z)
        if k1 > mp.mpf("1e-300"):
            rec.close(S.bessel_k1(z), float(k1), "k1", rtol=1e-14, x=z)
        kn = mp.besselk(n, z)
        if mp.mpf("1e-300") < kn < mp.mpf("1e300"):
            rec.close(S.bessel_kn(n, z), float(kn), "kn", rtol=1e-12, n=n, x=z)
            rec.count("kn")
            if n >= 1:
                a, b, c = S.bessel_kn(n - 1, z), S.bessel_kn(n, z), S.bessel_kn(n + 1, z)
                if np.isfinite(c):
                    rec.close(c, a + 2 * n / z * b, "kn:recurrence", rtol=1e-12, n=n, x=z)
        rec.close(S.bessel_kn(-n, z), S.bessel_kn(n, z), "kn:even in the order", rtol=0, n=n, x=z)
        rec.close(S.bessel_kn(1, z), S.bessel_k1(z), "kn:order one", rtol=1e-14, x=z)
        rec.seen((x, n, z))
    for f, at, want in ((S.spence, 0.0, np.pi**2 / 6), (S.spence, 1.0, 0.0), (S.bessel_k1, 0.0, np.inf), (lambda v: S.bessel_kn(2, v), 0.0, np.inf), (S.bessel_k1, 1e4, 0.0),
                        (lambda v: S.bessel_kn(3, v), 1e5, 0.0)):
        v = f(at)
        rec.ok(v == want or abs(v - want) < 1e-15, "special:edges", at=at, value=v, expected=want)
    for f in (S.spence, S.bessel_k1, lambda v: S.bessel_kn(2, v)):
        rec.ok(np.isnan(f(-1.0)) and np.isnan(f(float("nan"))), "special:outside the domain")


def tasks(ck):
    return [(f"quad-{i}", quadrature, i) for i in range(4)] + [("contract", contract, None), ("rules", rules, None), ("interp", interpolation, None), ("special", special, None)]
