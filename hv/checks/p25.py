"""Memory and undefined-behaviour safety of the native half, under sanitizers."""
import os
import subprocess
import sys
import warnings
import numpy as np
from . import _models

PROPERTY = "P25"
NATIVE = "sanitize"
LIMIT = {"quick": 300, "thorough": 3000}
RULE = ("one call of a compiled function per event, under AddressSanitizer (Rust and Cython, heap, stack and globals), UndefinedBehaviorSanitizer (Cython) and debug "
        "assertions with overflow checks (Rust); the oracle is: no sanitizer report, no signal, no panic, no swallowed exception, a value or an ordinary exception. "
        "Growth events: bytes held by malloc after many repetitions of one call")
ASSUME = ["numpy, scipy and CPython themselves are not instrumented; the Rust bindings are the stand-ins built by this framework"]

HOSTILE = [0.0, -0.0, 5e-324, 1e-300, 1e-12, 0.05, 0.1, 0.51099895, 0.5109989, 1.0, -1.0, 69.7, 105.6583755, 134.9768, 139.57039, 211.316751, 279.14078, 493.677, 547.862,
           1e4, 1e8, 1e17, 1e155, 1e300, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), -139.57039]
FINE = (ValueError, TypeError, AssertionError, ZeroDivisionError, OverflowError, IndexError, FloatingPointError, NotImplementedError)
SWALLOWED = []


def watch():
    sys.unraisablehook = lambda u: SWALLOWED.append((repr(u.exc_value), repr(u.object)))


def hval(rng, scale=300.0):
    u = rng.random()
    if u < 0.45:
        return float(rng.choice(HOSTILE))
    if u < 0.9:
        return float(scale * 10 ** rng.uniform(-2, 1))
    return float(np.nextafter(rng.choice(HOSTILE[5:17]), rng.choice([-np.inf, np.inf])))


def harray(rng, n=None, scale=300.0):
    n = int(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 40])) if n is None else n
    a = np.array([hval(rng, scale) for _ in range(n)]) if n else np.zeros(0)
    lay = int(rng.integers(0, 5))
    if lay == 1:
        w = np.full(3 * n + 1, np.nan)
        w[1::3][:n] = a
        return w[1::3][:n]
    if lay == 2:
        return a[::-1].copy()[::-1]
    if lay == 3:
        a.flags.writeable = False
    if lay == 4 and n:
        return np.broadcast_to(a[:1], (n,))
    return a


def call(rec, key, f, *args, **kw):
    """One observed call: a value or an ordinary exception."""
    n0 = len(SWALLOWED)
    try:
        r = f(*args, **kw)
    except FINE as e:
        rec.count("refused: " + type(e).__name__)
        r = None
    except Exception as e:
        rec.fail((key, "exception", type(e).__name__), error=repr(e), args=args)
        return None
    except BaseException as e:
        rec.fail((key, "panic", type(e).__name__), error=repr(e), args=args)
        return None
    rec.ok(len(SWALLOWED) == n0, (key, "exception swallowed"), seen=SWALLOWED[n0:n0 + 2], args=args)
    rec.seen((key, repr(args)), nontrivial=r is not None and bool(np.any(np.asarray(r, dtype=float) != 0)))
    return r


def mediators(rec, which):
    watch()
    from hazma.scalar_mediator.scalar_mediator_decay_spectrum import scalar_mediator_decay_spectrum as SG
    from hazma.vector_mediator import vector_mediator_decay_spectrum as V
    from hazma.scalar_mediator import scalar_mediator_positron_spec as SP
    from hazma.vector_mediator import vector_mediator_positron_spec as VP
    rng = rec.rng
    modes = ["total", "pi pi", "mu mu", "pi0 pi0", "g g", "e e g", "pi pi g", "mu mu g", "e e", "pi0 g", "", "nonsense", "ππ", "total\0"]

    def widths(n):
        k = int(rng.choice([0, 1, 2, 3, 4, 5, 6, 9], p=[.04, .04, .06, .2, .2, .3, .1, .06]))
        u = rng.random()
        if u < 0.55:
            return rng.dirichlet(np.ones(n))
        a = rng.dirichlet(np.ones(k)) if k and u < 0.8 else harray(rng, k)
        return a
    odd = [None, 3.0, "abc", np.zeros((2, 2)), np.arange(4), np.zeros(3, np.float32), [1.0, 2.0], [], {}, np.array(1.0), b"12345678"]
    for _ in range(rec.n(110, 2200)):
        m = float(10 ** rng.uniform(0, 3.4)) if rng.random() < 0.65 else hval(rng)
        E = m * float(1 + 10 ** rng.uniform(-4, 1)) if rng.random() < 0.65 else hval(rng)
        es = harray(rng, scale=E if np.isfinite(E) and 0 < E < 1e6 else 300.0)
        mode = str(rng.choice(modes[:10])) if rng.random() < 0.9 else str(rng.choice(modes))
        e = float(es[0]) if len(es) else hval(rng)
        if which == "scalar photon":
            ms = [[mode], [], "pi pi", modes, ("g g", "mu mu"), None, 3][int(rng.choice(7, p=[.4, .08, .1, .2, .18, .02, .02]))]
            pw = widths(5)
            call(rec, which, SG, es, E, m, pw, ms)
            call(rec, which, SG, e, E, m, pw, ms)
            call(rec, which, SG, list(es), E, m, list(pw))
        else:
            n, arr, pt = {"vector photon": (4, V.dnde_decay_v, V.dnde_decay_v_pt), "scalar positron": (3, SP.dnde_decay_s, SP.dnde_decay_s_pt),
                          "vector positron": (3, VP.dnde_decay_v, VP.dnde_decay_v_pt)}[which]
            pw = widths(n)
            call(rec, which, arr, es, E, m, pw, mode)
            call(rec, which, pt, e, E, m, pw, mode)
        if rng.random() < 0.5:                          # one argument of the wrong kind
            f = SG if which == "scalar photon" else arr
            args = [np.array([10.0, 50.0]), 500.0, 400.0, np.array([.1, .2, .3, .4, .5]), ["pi pi"] if f is SG else "total"]
            i = int(rng.integers(0, 5))
            args[i] = odd[int(rng.integers(0, len(odd)))]
            call(rec, which + ": wrong kind", lambda *a: np.zeros(1) if f(*a) is None else 0.0, *args)


def capi(rec, _):
    """The C-level helpers the extensions export to each other."""
    watch()
    from . import p12
    import hazma._utils.boost as B
    rng = rec.rng
    cy = p12.cython_funcs()
    for _ in range(rec.n(1500, 30000)):
        v = [hval(rng) for _ in range(5)]
        call(rec, "boost_delta_function", cy["boost_delta_function"], *v[:4])
        call(rec, "boost_jac", cy["boost_jac"], *v)
        call(rec, "boost_eng", cy["boost_eng"], *v)
        n = int(rng.choice([0, 1, 2, 3, 5, 50]))
        x = np.sort(10 ** rng.uniform(-1, 3, n)) if rng.random() < 0.8 else harray(rng, n)
        y = rng.random(n) if rng.random() < 0.8 else harray(rng, n + int(rng.integers(-1, 2)) if n else 0)
        e = float(10 ** rng.uniform(-3, 4)) if rng.random() < 0.8 else hval(rng)
        b = float(rng.choice([rng.random(), 1 - 1e-12, 1e-9, hval(rng)]))
        call(rec, "boost_integrate_linear_interp", cy["boost_integrate_linear_interp"], e, b, x, y)
        call(rec, "boost_integrate_linear_interp", cy["boost_integrate_linear_interp"], e, b, rng.choice([None, 3, "x"]), y)
    rec.count("exported C functions", len(B.__pyx_capi__))


def rust(rec, mod):
    watch()
    from hazma import _core
    m = getattr(_core, mod)
    rng = rec.rng
    names = sorted(n for n in dir(m) if callable(getattr(m, n)) and not n.startswith("_"))
    for n in names:
        f = getattr(m, n)
        k = len([p for p in (f.__text_signature__ or "()").strip("()").split(",") if p.strip() and not p.strip().startswith("$")])
        if not k:
            rec.count("no signature")
            continue
        slow = mod == "photon" and n not in ("dnde_photon_muon", "dnde_photon_neutral_pion")
        for _ in range(rec.n(40 if slow else 150, 600 if slow else 3000)):
            v = [hval(rng) for _ in range(k)]
            if n == "bessel_kn":
                v[0] = int(rng.choice([0, 1, 2, 3, 50, -1, 20000, -20000, 2**40])) if rng.random() < 0.5 else int(rng.integers(-5, 40))
            if n == "boost_integrate_linear_interp":
                nn = int(rng.choice([0, 1, 2, 3, 30]))
                x = np.sort(10 ** rng.uniform(-1, 3, nn)) if rng.random() < 0.8 else harray(rng, nn)
                y = rng.random(nn) if rng.random() < 0.8 else harray(rng, int(rng.integers(0, nn + 2)))
                v = [v[0], float(rng.random()) if rng.random() < 0.8 else hval(rng), x, y]
            call(rec, n, f, *v)
            if mod in ("photon", "positron", "neutrino", "scalar_mediator", "vector_mediator"):
                a = harray(rng, int(rng.choice([0, 1, 2, 3, 17])))
                call(rec, n, f, a, *v[1:])
        call(rec, n, f)
        call(rec, n, f, *[None] * k)


def numerics(rec, _):
    watch()
    from hazma import _core
    Q, I = _core.quad, _core.interp.interp
    rng = rec.rng
    for _ in range(rec.n(500, 10000)):
        a, b = hval(rng), hval(rng)
        if rng.random() < 0.5:
            a, b = sorted(rng.normal(size=2))
        kw = {}
        if rng.random() < 0.5:
            kw["limit"] = int(rng.choice([-2**63, -1, 0, 1, 2, 3, 50, 300, 2**31, 2**40, 2**63 - 1]))
        if rng.random() < 0.5:
            kw["points"] = [[], [a], [b, a], list(harray(rng)), harray(rng), [float("nan")] * 3, [0.5] * 60, (0.1, 0.2), 3.0, None, "ab", np.zeros((2, 2))][int(rng.integers(0, 12))]
        if rng.random() < 0.4:
            kw["epsabs"], kw["epsrel"] = hval(rng), hval(rng)
        depth = [0]

        def g(x):
            if depth[0] < 2 and rng.random() < 0.01:                   # re-entrant use
                depth[0] += 1
                try:
                    return Q.quad(g, 0.0, 1.0, limit=3)[0]
                finally:
                    depth[0] -= 1
            return float(np.cos(x)) if np.isfinite(x) else 0.0
        funcs = [g, lambda x: hval(rng), lambda x: np.float64(x), lambda x: None, lambda x: "no", lambda x: 1 / 0, lambda x: np.ones(3), lambda x: True, lambda: 0.0,
                 lambda x: kw.get("points") and 1.0, None, 3, len]
        f = funcs[int(rng.choice(len(funcs), p=[.4, .15] + [.45 / 11] * 11))]
        try:
            call(rec, "quad", lambda *z, **k: Q.quad(*z, **k)[:2], f, a, b, **kw)
        except BaseException as e:
            rec.fail(("quad", "escaped", type(e).__name__), error=repr(e))
        for r in (Q.qk15, Q.qk21):
            call(rec, "qk", r, f, a, b)
        n = int(rng.choice([0, 1, 2, 3, 50]))
        xp = np.sort(rng.normal(size=n)) if rng.random() < 0.7 else harray(rng, n)
        fp = harray(rng, n if rng.random() < 0.8 else int(rng.integers(0, n + 3)))
        call(rec, "interp", I, hval(rng), xp, fp)
        call(rec, "interp", I, harray(rng), xp, fp)
        call(rec, "interp", I, rng.choice([None, "x"]), xp, fp)


def library(rec, part):
    """The public layers on ordinary and hostile inputs, over instrumented native code."""
    watch()
    import hazma.spectra as S
    rng = rec.rng
    names = sorted(n for n in dir(S) if n.startswith("dnde_") and getattr(S, n).__module__.startswith("hazma.spectra")
                   and not any(w in n for w in ("boost", "fsr", "ap_", "dnde_photon", "dnde_positron", "dnde_neutrino")) or n.startswith(("dnde_photon_", "dnde_positron_", "dnde_neutrino_")))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if part == "spectra":
            for _ in range(rec.n(3, 60)):
                for n in names:
                    f = getattr(S, n)
                    if "ap_" in n or "fsr" in n:
                        continue
                    es = harray(rng)
                    try:
                        r = f(es, hval(rng, 800.0))
                        rec.seen((n, repr(es)), nontrivial=bool(np.any(np.asarray(r) != 0)))
                    except FINE:
                        rec.count("refused")
                    rec.evals += 1
        else:
            for _ in range(rec.n(2, 30)):
                for name in ("ScalarMediator", "HiggsPortal", "HeavyQuark", "VectorMediator", "KineticMixing", "QuarksOnly"):
                    o, p = _models.build(name, rng)
                    cme = 2 * p["mx"] * float(1 + 10 ** rng.uniform(-4, -0.5))
                    for f in (o.total_spectrum, o.total_positron_spectrum):
                        r = f(np.sort(rng.uniform(1e-3, 1, 6)) * cme / 2, cme)
                        rec.seen((name, repr(p), cme), nontrivial=bool(np.any(r != 0)))
                        rec.evals += 1
                    call(rec, name, lambda: np.array(list(o.annihilation_cross_sections(cme).values())))
    rec.ok(not SWALLOWED, "library:exception swallowed", seen=SWALLOWED[:3])


GROWTH = r'''
import ctypes, gc, json, sys, warnings
import numpy as np
from hv import inject
inject.install()
warnings.simplefilter("ignore"); np.seterr(all="ignore")
class MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
lib = ctypes.CDLL(None); lib.mallinfo2.restype = MI
def held():
    gc.collect(); m = lib.mallinfo2(); return m.uordblks + m.hblkhd
from hazma import _core
import hazma.spectra as S
from hazma.scalar_mediator.scalar_mediator_decay_spectrum import scalar_mediator_decay_spectrum as SG
from hazma.vector_mediator import vector_mediator_decay_spectrum as V
from hazma.scalar_mediator import scalar_mediator_positron_spec as SP
from hazma.vector_mediator import vector_mediator_positron_spec as VP
rng = np.random.default_rng(int(sys.argv[1])); reps = int(sys.argv[2])
x = np.sort(rng.uniform(1, 200, 30))
w = rng.dirichlet(np.ones(5))
jobs = {}
for m in ("photon", "positron", "neutrino"):
    mod = getattr(_core, m)
    for n in sorted(dir(mod)):
        f = getattr(mod, n)
        if callable(f) and not n.startswith("_"):
            slow = m == "photon" and n not in ("dnde_photon_muon", "dnde_photon_neutral_pion")
            jobs[n] = (lambda f=f: f(x, 1500.0), 0.2 if slow else 1)
            jobs[n + " scalar"] = (lambda f=f: f(20.0, 1500.0), 1)
            jobs[n + " refused"] = (lambda f=f: f(np.zeros((2, 2)), 1500.0), 1)
            jobs[n + " list"] = (lambda f=f: f([1.0, 2.0], 1500.0), 0.5)
def boom(v):
    raise ValueError("stop")
jobs["quad"] = (lambda: _core.quad.quad(lambda t: t * t, 0.0, 1.0, points=[0.3, 0.4]), 1)
jobs["quad raising"] = (lambda: _core.quad.quad(boom, 0.0, 1.0), 1)
jobs["quad wrong"] = (lambda: _core.quad.quad(lambda t: "x", 0.0, 1.0), 1)
jobs["interp"] = (lambda: _core.interp.interp(50.0, x, x), 1)
jobs["interp array"] = (lambda: _core.interp.interp(x, x, x), 1)
jobs["boost table"] = (lambda: _core.boost.boost_integrate_linear_interp(x, 0.5, x, x), 1)
jobs["boost table refused"] = (lambda: _core.boost.boost_integrate_linear_interp(x, 1.5, x, x), 1)
jobs["boost line"] = (lambda: _core.boost.boost_delta_function(x, 50.0, 0.0, 0.5), 1)
for m in ("scalar_mediator", "vector_mediator"):
    mod = getattr(_core, m)
    for n in sorted(dir(mod)):
        f = getattr(mod, n)
        if callable(f) and not n.startswith("_"):
            k = (f.__text_signature__ or "").count(",") 
            jobs[n] = (lambda f=f, k=k: f(x + 500.0, *[250.0] * k), 1)
e = x[:4].copy()
jobs["scalar photon"] = (lambda: SG(e, 500.0, 400.0, w), 0.04)
jobs["vector photon"] = (lambda: V.dnde_decay_v(e, 500.0, 400.0, w[:4].copy(), "total"), 0.04)
jobs["scalar positron"] = (lambda: SP.dnde_decay_s(e, 500.0, 400.0, w[:3].copy(), "total"), 0.04)
jobs["vector positron"] = (lambda: VP.dnde_decay_v(e, 500.0, 400.0, w[:3].copy(), "total"), 0.04)
jobs["scalar photon short"] = (lambda: SG(e, 500.0, 400.0, w[:1].copy()), 0.04)
jobs["vector photon short"] = (lambda: V.dnde_decay_v(e, 500.0, 400.0, w[:1].copy(), "total"), 0.04)
out = {}
for name, (f, share) in jobs.items():
    def go(k):
        for _ in range(k):
            try: f()
            except Exception: pass
    n = max(8, int(reps * share))
    go(max(4, n // 4)); go(3)
    h = [held()]
    while len(h) < 60 and not (len(h) > 2 and min(b - a for a, b in zip(h, h[1:])) < 8 * n):
        go(n); h.append(held())
    out[name] = (n, [b - a for a, b in zip(h, h[1:])])
print(json.dumps(out))
'''


def growth(rec, _):
    """Repeating a call holds no more memory than making it once (plain build: the sanitizer's allocator hides the count)."""
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS")}
    env["PYTHONMALLOC"] = "malloc"
    env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0:glibc.malloc.arena_max=1"    # freed blocks count as free at once
    p = subprocess.run([sys.executable, "-B", "-c", GROWTH, str(rec.seed), str(rec.n(30, 1500))], capture_output=True, text=True, env=env, timeout=2500)
    if p.returncode:
        rec.fail("growth:died", status=p.returncode, stderr=p.stderr[-3000:])
        return
    import json
    for name, (n, grown) in json.loads(p.stdout.splitlines()[-1]).items():
        per = min(grown) / n
        rec.ok(per < 8.0, ("growth", name), calls=n, bytes_per_batch=grown)
        rec.seen((name, n))
        rec.count("repetitions", n * len(grown))


def alive(rec, _):
    """The monitors themselves: an instrumented process, reports that would reach the harness."""
    rec.ok("libclang_rt.asan" in open("/proc/self/maps").read(), "alive:runtime not loaded")
    import hazma.vector_mediator.vector_mediator_decay_spectrum as m
    import hazma._core as c
    for x in (m, c):
        p = subprocess.run(["nm", "-D", x.__file__], capture_output=True, text=True, env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}).stdout
        rec.ok("__asan_report_load8" in p, ("alive:not instrumented", x.__name__))
        rec.count("instrumented modules")
        rec.seen(x.__name__)


def tasks(ck):
    return ([(f"mediators-{k}-{i}", mediators, k) for k in ("scalar photon", "vector photon", "scalar positron", "vector positron") for i in range(2)]
            + [(f"rust-{m}", rust, m) for m in ("photon", "positron", "neutrino", "scalar_mediator", "vector_mediator", "boost", "special")]
            + [("capi", capi, None), ("numerics", numerics, None), ("spectra", library, "spectra"), ("models", library, "models"), ("growth", growth, None), ("alive", alive, None)])
