"""Argument-and-error contract of every native entry point."""
import fractions
import inspect
import re
import struct
import numpy as np

PROPERTY = "P23"
NATIVE = "all"
RULE = ("every callable exported by the native core, called through every accepted and rejected argument form with random ordinary and hostile "
        "values; each outcome (type, shape, bits, aliasing, exception type and wording) is one event, judged against the scalar calls themselves")
ASSUME = ["pyo3/numpy bindings are the stand-ins built by this framework; what is judged is the repository's dispatch on top of them"]

SPECTRA = {"photon": "Photon energies", "positron": "Positron energies", "neutrino": "Neutrino energies"}
XS = {"scalar_mediator": "e_cms", "vector_mediator": "e_cms"}
HOSTILE = [0.0, -0.0, 5e-324, 1e-300, -1.0, 1e300, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), 139.57039, 105.6583755]


def bits(x):
    return struct.pack("<d", float(x))


def same(a, b):
    return bits(a) == bits(b) or (np.isnan(a) and np.isnan(b))


def names(mod):
    return sorted(n for n in dir(mod) if callable(getattr(mod, n)) and not n.startswith("_"))


def entries(rng, hostile):
    """(label, function of the swept argument, flavors?, quantity or None, ordinary sweep values)."""
    from hazma import _core
    out = []
    for m, q in SPECTRA.items():
        mod = getattr(_core, m)
        for n in names(mod):
            f = getattr(mod, n)
            E = float(rng.choice(HOSTILE)) if hostile else float(10 ** rng.uniform(2, 3.7))
            if hostile and re.search("kaon|eta|omega|phi", n) and m == "photon" and not (E < 1e3 or E > 0):
                E = 1e4
            out.append((f"{m}.{n}", lambda x, f=f, E=E: f(x, E), m == "neutrino", q, E if np.isfinite(E) and E > 0 else 100.0))
    one = lambda: float(rng.choice(HOSTILE)) if hostile else float(10 ** rng.uniform(-3, 0))
    for n in names(_core.scalar_mediator):
        f = getattr(_core.scalar_mediator, n)
        mx, ms = float(10 ** rng.uniform(1, 3)), float(10 ** rng.uniform(1, 3))
        a = [mx, ms, one(), one(), one(), one(), 1e5, one(), 0.0]
        if n in ("sigma_xx_to_s_to_ff", "sigma_xl_to_xl"):
            a.append(float(rng.choice([0.511, 105.66])))
        if n.startswith("thermal"):
            continue
        out.append((f"scalar.{n}", lambda x, f=f, a=a: f(x, *a), False, None, 4 * mx + 2 * ms))
    for n in names(_core.vector_mediator):
        f = getattr(_core.vector_mediator, n)
        mx, mv = float(10 ** rng.uniform(1, 3)), float(10 ** rng.uniform(1, 3))
        if n.startswith("thermal"):
            continue
        a = [mx, mv, one(), one(), one(), float(rng.choice([0.511, 105.66]))] if n == "sigma_xx_to_v_to_ff" else [mx, mv] + [one() for _ in range(7)]
        out.append((f"vector.{n}", lambda x, f=f, a=a: f(x, *a), False, None, 4 * mx + 2 * mv))
    out.append(("roundtrip", _core.roundtrip, False, "Input values", 3.0))
    q = f"quantity {rng.integers(0, 99)}"
    out.append(("dispatch.roundtrip", lambda x: _core.dispatch.roundtrip(x, q), False, q, 3.0))
    out.append(("dispatch.roundtrip_flavors", lambda x: _core.dispatch.roundtrip_flavors(x, q), True, q, 3.0))
    out.append(("special.spence", _core.special.spence, False, "Spence arguments", 3.0))
    out.append(("special.bessel_k1", _core.special.bessel_k1, False, "Bessel arguments", 3.0))
    k = int(rng.integers(0, 6))
    out.append(("special.bessel_kn", lambda x: _core.special.bessel_kn(k, x), False, "Bessel arguments", 3.0))
    xp = np.sort(rng.uniform(0, 5, 9))
    fp = rng.normal(size=9)
    out.append(("interp.interp", lambda x: _core.interp.interp(x, xp, fp), False, "Interpolation abscissae", 3.0))
    b = float(rng.uniform(0.05, 0.95))
    out.append(("boost.boost_beta", lambda x: _core.boost.boost_beta(x, 1.0), False, "Parent energies", 3.0))
    out.append(("boost.boost_gamma", lambda x: _core.boost.boost_gamma(x, 1.0), False, "Parent energies", 3.0))
    out.append(("boost.boost_delta_function", lambda x: _core.boost.boost_delta_function(2.0, x, 0.5, b), False, "Product energies", 3.0))
    out.append(("boost.integrate", lambda x: _core.boost.boost_integrate_linear_interp(x, b, xp, fp), False, "Photon energies", 3.0))
    return out


def scalar(f, x):
    """Outcome of a scalar call: ('ok', values) or ('raise', type, text)."""
    try:
        r = f(x)
    except Exception as e:
        return ("raise", type(e).__name__, str(e))
    return ("ok", r)


def accepted(rec, part):
    rng = rec.rng
    for rnd in range(rec.n(3, 24)):
        for hostile in (False, True):
            for label, f, flav, _, scale in entries(rng, hostile)[part::4]:
                xs = np.concatenate([rng.uniform(0, 1.2, 5) * scale, rng.choice(HOSTILE, 3 if hostile else 0)])
                rng.shuffle(xs)
                outs = [scalar(f, float(x)) for x in xs]
                bad = [o for o in outs if o[0] == "raise"]
                for o, x in zip(outs, xs):
                    if o[0] == "raise":
                        rec.ok(o[1] in ("ValueError", "TypeError"), ("scalar raises", label, o[1]), x=x, error=o)
                        rec.count("scalar refusals")
                        continue
                    good = type(o[1]) is tuple and len(o[1]) == 3 and all(type(v) is float for v in o[1]) if flav else type(o[1]) is float
                    rec.ok(good, ("scalar result type", label), x=x, value=repr(o[1]))
                    rec.seen((label, float(x).hex(), repr(o[1])), nontrivial=bool(np.any(np.asarray(o[1]) != 0)))
                # other scalar spellings
                for mk in (np.float64, lambda v: np.array(v), np.float32, lambda v: np.float32(v) if abs(v) < 1e30 else np.float64(v),
                           lambda v: np.array(v, dtype=np.float32), lambda v: int(min(abs(v), 1e6)) if np.isfinite(v) else 3,
                           lambda v: np.int64(min(abs(v), 1e6)) if np.isfinite(v) else np.int64(3), lambda v: np.array(7), lambda v: np.array(True), lambda v: True,
                           lambda v: np.bool_(True), lambda v: np.uint8(9), lambda v: fractions.Fraction(7, 3)):
                    with np.errstate(all="ignore"):
                        v = mk(float(xs[0]))
                    a, b = scalar(f, v), scalar(f, float(v))
                    same_ = a[0] == b[0] and (a[1] == b[1] if a[0] == "raise" else all(type(p) is float and same(p, q) for p, q in zip(*(
                        (a[1], b[1]) if flav else ((a[1],), (b[1],))))))
                    rec.ok(same_, ("scalar spelling", label, type(v).__name__ + str(getattr(v, "ndim", ""))), arg=repr(v), value=a, plain=b)
                    rec.count("scalar spellings")
                # arrays and sequences
                wide = np.full(2 * len(xs), np.nan)
                wide[::2] = xs
                grid = np.full((len(xs), 3), np.nan)
                grid[:, 1] = xs
                ro = xs.copy()
                ro.flags.writeable = False
                back = xs[::-1].copy()
                forms = {"array": xs.copy(), "strided": wide[::2], "column": grid[:, 1], "reversed view": back[::-1], "readonly": ro, "list": [float(v) for v in xs],
                         "tuple": tuple(float(v) for v in xs), "list of numpy floats": list(xs), "unaligned": np.frombuffer(b"\0" + xs.tobytes(), np.uint8)[1:].view("<f8")}
                for form, arg in forms.items():
                    keep = np.array(arg, dtype=float, copy=True)
                    try:
                        r = f(arg)
                    except Exception as e:
                        ok = bool(bad) and type(e).__name__ in {o[1] for o in bad}
                        if form == "unaligned":
                            ok = ok or isinstance(e, (ValueError, TypeError))
                        rec.ok(ok, ("array refused", label, form), error=repr(e), scalars=bad[:2])
                        continue
                    rec.ok(not bad, ("array accepted what a scalar refuses", label, form), scalars=bad[:2])
                    want = (3, len(xs)) if flav else (len(xs),)
                    okk = type(r) is np.ndarray and r.dtype == np.float64 and r.shape == want and r.flags.writeable and r.flags.aligned
                    rec.ok(okk, ("array result", label, form), shape=str(getattr(r, "shape", None)))
                    if okk and not bad:
                        cols = [o[1] for o in outs]
                        rec.ok(all(same(r[k, j], cols[j][k]) for j in range(len(xs)) for k in range(3)) if flav else all(same(r[j], cols[j]) for j in range(len(xs))),
                               ("array differs from scalars", label, form), x=xs, array=r, scalars=cols)
                    rec.ok(np.array_equal(np.array(arg, dtype=float), keep, equal_nan=True), ("input changed", label, form))
                    if isinstance(arg, np.ndarray) and isinstance(r, np.ndarray):
                        rec.ok(not np.shares_memory(r, arg), ("result aliases input", label, form))
                    rec.count("array calls")
                if not hostile:
                    for empty in (np.zeros(0), []):
                        r = f(empty)
                        rec.ok(type(r) is np.ndarray and r.shape == ((3, 0) if flav else (0,)), ("empty", label), shape=str(np.shape(r)))


class Len:
    def __len__(self):
        return 2


class BadFloat:
    def __float__(self):
        raise RuntimeError("no")


def rejected(rec, part):
    rng = rec.rng
    for rnd in range(rec.n(3, 20)):
        for label, f, flav, quantity, scale in entries(rng, False)[part::4]:
            x = rng.uniform(0.1, 1, 4) * scale
            rank = {"2-d": x.reshape(2, 2), "3-d": x.reshape(1, 2, 2), "1x1": x[:1].reshape(1, 1), "nested list": [[1.0, 2.0]], "column vector": x[:, None],
                    "2-d int": np.ones((2, 2), int), "empty 2-d": np.zeros((0, 3))}
            dtype = {"float32": x.astype(np.float32), "int": np.arange(3), "bool": np.array([True, False]), "complex": x.astype(complex), "object": x.astype(object),
                     "str": np.array(["1.0", "2.0"]), "0-d complex": np.array(1.0 + 0j), "0-d str": np.array("15.0"), "0-d object": np.array(None), "float16": x.astype(np.float16),
                     "longdouble": x.astype(np.longdouble), "datetime": np.array(["2020-01-01"], dtype="M8[D]"), "str scalar": "15.0", "bytes": b"15.0", "int list": [1, 2],
                     "range": range(3), "dict": {1.0: 2.0}, "set": {1.0}, "str list": ["1.0"], "length-only": Len(), "0-d date": np.array("2020-01-01", dtype="M8[D]"),
                     "big-endian": x.astype(">f8"), "structured": np.zeros(2, dtype=[("a", float)])}
            kind = {"None": None, "object": object(), "complex": 1j, "function": len, "class": float, "BadFloat": BadFloat(), "iterator": iter([1.0]), "slice": slice(1)}
            for group, exc in ((rank, ValueError), (dtype, ValueError), (kind, TypeError)):
                for nm, arg in group.items():
                    try:
                        r = f(arg)
                    except Exception as e:
                        rec.ok(type(e) is exc, ("wrong exception", label, nm, type(e).__name__), text=str(e))
                        if group is rank:
                            rec.ok(re.fullmatch(".+ must be 0 or 1-dimensional\\.", str(e)) is not None, ("rank wording", label, nm), text=str(e))
                        if quantity is not None:
                            rec.ok(str(e).startswith(quantity + " must be"), ("quantity named", label, nm), text=str(e))
                        rec.count("refusals")
                    else:
                        rec.fail(("accepted", label, nm), value=repr(r))
                    rec.seen((label, nm, rnd))


def vector(rec, _):
    """require_vector: a 1-D float64 array or sequence, never a scalar."""
    from hazma import _core
    rng = rec.rng
    f = _core.dispatch.roundtrip_vector
    for _ in range(rec.n(60, 600)):
        q = f"Q{rng.integers(0, 999)}"
        x = np.concatenate([rng.normal(size=int(rng.integers(0, 7))) * 10 ** rng.uniform(-300, 300), rng.choice(HOSTILE, 2)])
        for arg in (x, x[::-1], np.repeat(x, 2)[::2], list(x), tuple(x)):
            r = f(arg, q)
            w = np.array(arg, float)
            rec.ok(type(r) is np.ndarray and r.shape == w.shape and all(same(a, b) for a, b in zip(r, w)), "vector round trip", arg=w, value=r)
            rec.ok(not isinstance(arg, np.ndarray) or not np.shares_memory(r, arg), "vector aliases")
            rec.seen((tuple(w), type(arg).__name__))
        for arg, text in ((1.0, " must be a list or array."), (None, " must be a list or array."), (3, " must be a list or array."), (np.float64(2), " must be a list or array."),
                          (np.array(2.0), " must be 1-dimensional."), (np.ones((2, 2)), " must be 1-dimensional."), ([[1.0]], " must be 1-dimensional."), ("abc", " must be 1-dimensional."),
                          (np.arange(3), " must be a float64 array; got dtype int64."), ([1, 2], " must be a float64 array; got dtype int64."),
                          (np.ones(2, np.float32), " must be a float64 array; got dtype float32.")):
            try:
                r = f(arg, q)
            except ValueError as e:
                rec.ok(str(e) == q + text, ("vector wording", text), text=str(e))
            except Exception as e:
                rec.fail(("vector exception", type(e).__name__), error=repr(e))
            else:
                rec.fail(("vector accepted", text), value=repr(r))
            rec.count("vector refusals")


def signatures(rec, _):
    """Every argument is reachable by its published name; wrong arity and non-numbers are TypeErrors; nothing panics on any float."""
    from hazma import _core
    rng = rec.rng
    for m in ("photon", "positron", "neutrino", "scalar_mediator", "vector_mediator", "boost", "special"):
        mod = getattr(_core, m)
        rec.ok(__import__("sys").modules.get(f"hazma._core.{m}") is mod, ("module importable by name", m))
        for n in names(mod):
            f = getattr(mod, n)
            sig = f.__text_signature__
            if not sig:
                rec.count("unsigned")
                continue
            ps = [p.strip().split("=")[0] for p in sig.strip("()").split(",") if p.strip() and not p.strip().startswith("$")]
            if any("x" == p or "y" == p for p in ps) and n == "boost_integrate_linear_interp":
                continue
            for _ in range(rec.n(6, 60)):
                vals = [float(rng.choice(HOSTILE)) if rng.random() < 0.4 else float(10 ** rng.uniform(-2, 4)) for _ in ps]
                if n == "bessel_kn":
                    vals[0] = int(rng.integers(-3, 9))
                pos = scalar(lambda v: f(*v), vals)
                kw = scalar(lambda v: f(**dict(zip(ps, v))), vals)
                rec.ok(repr(pos) == repr(kw), ("keyword call differs", m, n), positional=pos, keyword=kw, args=vals)
                mix = int(rng.integers(0, len(ps) + 1))
                kw2 = scalar(lambda v: f(*v[:mix], **dict(zip(ps[mix:], v[mix:]))), vals)
                rec.ok(repr(pos) == repr(kw2), ("mixed call differs", m, n), positional=pos, keyword=kw2)
                rec.ok(pos[0] == "ok" or pos[1] in ("ValueError", "TypeError"), ("unexpected exception", m, n, pos[1]), outcome=pos, args=vals)
                rec.seen((m, n, tuple(vals)))
            v = [100.0] * len(ps)
            if n == "bessel_kn":
                v[0] = 1
            rec.raises(lambda: f(*v[:-1]), TypeError, ("missing argument", m, n))
            rec.raises(lambda: f(*v, 1.0), TypeError, ("extra argument", m, n))
            rec.raises(lambda: f(*v, nonsense=1.0), TypeError, ("unknown keyword", m, n))
            rec.raises(lambda: f(*v, **{ps[0]: v[0]}), TypeError, ("duplicate argument", m, n))
            for k in range(1, len(ps)):
                for wrong in ("5", None, [1.0], np.ones(2), 1j):
                    w = list(v)
                    w[k] = wrong
                    if n in ("bessel_kn", "boost_delta_function"):
                        continue
                    rec.raises(lambda: f(*w), TypeError, ("non-number parameter", m, n))


def public(rec, _):
    """The public wrappers hand their arguments to the core unchanged."""
    from hazma import _core
    import hazma.spectra as S
    rng = rec.rng
    for m in SPECTRA:
        mod = getattr(_core, m)
        for n in names(mod):
            g, f = getattr(S, n, None), getattr(mod, n)
            if g is None:
                continue
            for _ in range(rec.n(4, 40)):
                E = float(10 ** rng.uniform(2, 3.7))
                for arg in (rng.uniform(0, 1.1, 6) * E, float(rng.uniform(0, 1) * E), list(rng.uniform(0, 1, 3) * E), np.array(0.3 * E), np.zeros((2, 2)), None, "x", np.arange(3)):
                    a, b = scalar(lambda v: g(v, E), arg), scalar(lambda v: f(v, E), arg)
                    eq = a[0] == b[0] and (a[1:] == b[1:] if a[0] == "raise" else np.array_equal(np.asarray(a[1]), np.asarray(b[1]), equal_nan=True)
                                           and type(a[1]).__name__ == type(b[1]).__name__ or (m == "neutrino" and np.allclose(np.asarray(a[1]), np.asarray(b[1]), equal_nan=True)))
                    rec.ok(eq, ("public wrapper differs", n), public=a, core=b)
                    rec.seen((n, E, repr(arg)))


def tasks(ck):
    return ([(f"accepted-{i}", accepted, i) for i in range(4)] + [(f"rejected-{i}", rejected, i) for i in range(4)]
            + [("vector", vector, None), ("signatures", signatures, None), ("public", public, None)])
