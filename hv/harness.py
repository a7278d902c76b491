"""Check harness: tasks run in forked processes under a recorder (the monitor's
event log); the parent merges what the monitors saw, decides, and writes the
evidence file.

A check module defines PROPERTY, RULE and tasks(ck): a list of (name, func, arg)
where func(rec, arg) drives the real code and reports every judged event to rec.
Each task runs in its own forked process, so native crashes (signals, sanitizer
aborts), hangs and uncaught exceptions are all observed as events.
"""

from __future__ import annotations

import fnmatch
import hashlib
import importlib
import itertools
import json
import os
import pathlib
import pickle
import signal
import sys
import tempfile
import time
import traceback
import warnings

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

import numpy as np

VERIF = pathlib.Path(__file__).resolve().parents[1]
EVID = VERIF / "evidence"
KNOWN = VERIF / "known_findings.json"


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 24:
            return {"shape": list(x.shape), "head": _jsonable(x.ravel()[:12])}
        return _jsonable(x.tolist())
    if isinstance(x, (np.floating, float)):
        return repr(float(x))
    if isinstance(x, (np.integer, int)):
        return int(x)
    if x is None or isinstance(x, (str, bool)):
        return x
    return repr(x)


class Rec:
    """Event recorder handed to a task."""

    MAXV = 200

    def __init__(self, task, seed, tier):
        self.task = task
        self.seed = seed
        self.tier = tier
        h = int.from_bytes(hashlib.sha256(task.encode()).digest()[:4], "big")
        self.rng = np.random.default_rng([seed, h])
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.viol = []
        self.counters = {}

    # -- sizes ------------------------------------------------------------
    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough or 8 * quick)

    # -- event reporting ---------------------------------------------------
    def seen(self, key, nontrivial=True, **counters):
        self.evals += 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + int(k)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(_jsonable(kw))

    def fail(self, key, **detail):
        if len(self.viol) < self.MAXV:
            self.viol.append({"key": str(key), "task": self.task, "detail": _jsonable(detail)})

    def ok(self, cond, key, **detail):
        """One judged event.  `detail` identifies the case (and makes it distinct)."""
        self.seen((key, sorted((k, repr(v)[:80]) for k, v in detail.items())))
        if not bool(np.all(cond)):
            self.fail(key, **detail)
            return False
        self.sample(event=key, **detail)
        return True

    def close(self, got, want, key, rtol=1e-9, atol=0.0, **detail):
        got = np.asarray(got)
        want = np.asarray(want)
        shape_ok = got.shape == want.shape or want.ndim == 0
        with np.errstate(all="ignore"):
            if shape_ok:
                err = np.abs(got - want)
                lim = atol + rtol * np.abs(want)
                good = (err <= lim) | (np.isnan(got) & np.isnan(want)) | (got == want)
                good = bool(np.all(good))
            else:
                good = False
        self.seen((key, sorted((k, repr(v)[:80]) for k, v in detail.items())),
                  nontrivial=bool(np.any(want != 0)))
        if not good:
            if shape_ok and got.ndim and got.size > 4:
                bad = ~((err <= lim) | (got == want))
                i = np.argmax(np.where(bad, 1, 0))
                detail["index"] = int(i)
                detail["got_at"] = got.ravel()[i]
                detail["want_at"] = (want.ravel()[i] if want.ndim else want)
            self.fail(key, got=got, want=want, rtol=rtol, atol=atol, **detail)
        else:
            self.sample(event=key, got=got, want=want, **detail)
        return good

    def raises(self, func, exc, key, **detail):
        self.seen((key, sorted((k, repr(v)[:80]) for k, v in detail.items())))
        try:
            out = func()
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(key, raised=repr(e), expected=str(exc), **detail)
            return False
        self.fail(key, returned=out, expected=str(exc), **detail)
        return False

    def guard(self, key, func, **detail):
        """Run func; an exception is a violation of `key`.  Returns (ok, value)."""
        try:
            return True, func()
        except Exception as e:  # noqa: BLE001
            self.seen((key, "exc"))
            self.fail(key, raised=repr(e), tb=traceback.format_exc()[-1500:], **detail)
            return False, None


class Check:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed

    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough or 8 * quick)


def _child(name, func, arg, seed, tier, out, err):
    fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 2)
    os.dup2(fd, 1)
    rec = Rec(name, seed, tier)
    lines = _watch_lines() if os.environ.get("HV_COV") else None
    base = (seed * 7919 + int.from_bytes(hashlib.sha256(name.encode()).digest()[:3], "big")) % 2**32
    np.random.seed(base)
    # the library's unseeded generators draw distinct but repeatable streams, so a verdict depends on VERIF_SEED alone
    fresh, streams = np.random.default_rng, itertools.count()
    np.random.default_rng = lambda seed=None: fresh([base, next(streams)] if seed is None else seed)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                func(rec, arg)
    except BaseException as e:  # noqa: BLE001
        rec.fail(f"{name}:exception:{type(e).__name__}", error=repr(e),
                 tb=traceback.format_exc()[-3000:])
    rec.rng = None
    if lines is not None:
        with open(f"{os.environ['HV_COV']}/{os.getpid()}.json", "w") as f:
            json.dump(sorted(lines), f)
    with open(out, "wb") as f:
        pickle.dump(rec, f)


def _watch_lines():
    """Which lines of the library a task executes (see tools/reach.py)."""
    lines, mon = set(), sys.monitoring

    def line(code, no):
        if "/hazma/" in code.co_filename:
            lines.add((code.co_filename, no))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "reach")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return lines


def run_tasks(tasks, seed, tier, limit, jobs=8):
    """Fork one process per task; yields (name, rec | None, status, stderr)."""
    tmp = tempfile.mkdtemp(prefix="hv-")
    pending = list(enumerate(tasks))
    live = {}
    results = []
    try:
        while pending or live:
            while pending and len(live) < jobs:
                i, (name, func, arg) = pending.pop(0)
                out, err = f"{tmp}/{i}.pkl", f"{tmp}/{i}.err"
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        _child(name, func, arg, seed, tier, out, err)
                    finally:
                        os._exit(0)
                live[pid] = (name, out, err, time.time())
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (name, out, err, t0) in list(live.items()):
                    if now - t0 > limit:
                        os.killpg(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                        live.pop(p)
                        results.append((name, None, f"hang: no result after {limit} s", _tail(err), now - t0))
                time.sleep(0.01)
                continue
            if pid not in live:
                continue
            name, out, err, t0 = live.pop(pid)
            dt = time.time() - t0
            if os.path.exists(out):
                with open(out, "rb") as f:
                    rec = pickle.load(f)
                results.append((name, rec, None, _tail(err), dt))
            else:
                results.append((name, None, f"crash: wait status {status}", _tail(err), dt))
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return results


def _tail(p, n=6000):
    try:
        with open(p, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def load_known(prop):
    if not KNOWN.exists():
        return []
    data = json.loads(KNOWN.read_text())
    return [k for k in data.get("findings", []) if k["property"] == prop]


ASAN = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"


def sanitized():
    """Run again under the sanitizer runtime, once everything is built."""
    if os.environ.get("LD_PRELOAD") == ASAN:
        return
    from . import build
    build.build_all(True)
    env = dict(os.environ, LD_PRELOAD=ASAN, PYTHONMALLOC="malloc",
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=8000",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=0")
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable, "-B", "-m", "hv.run", *sys.argv[1:]], env)


def main(prop, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(f"hv.checks.{prop.lower()}")
    from . import inject
    mode = getattr(mod, "NATIVE", "all")
    if mode == "sanitize":
        sanitized()
    if mode:
        inject.install(sanitize=(mode == "sanitize"))
    else:
        inject.install_python_only()
    tb = time.time() - t0
    ck = Check(prop, tier, seed)
    tasks = mod.tasks(ck)
    if only:
        tasks = [t for t in tasks if fnmatch.fnmatch(t[0], only)]
    limit = getattr(mod, "LIMIT", {"quick": 300, "thorough": 3000})[tier]
    results = run_tasks(tasks, seed, tier, limit)
    evals, distinct, samples, viol, counters, slow = 0, set(), [], [], {}, []
    for name, rec, status, err, dt in sorted(results, key=lambda r: r[0]):
        slow.append((round(dt, 2), name))
        if rec is None:
            viol.append({"key": f"{name}:{status.split(':')[0]}", "task": name,
                         "detail": {"status": status, "stderr": err}})
            evals += 1
            continue
        evals += rec.evals
        distinct |= {(name, d) for d in rec.distinct}
        samples += rec.samples[:1]
        for v in rec.viol:
            if err and "Sanitizer" in err:
                v["detail"]["stderr"] = err
            viol.append(v)
        if mode == "sanitize" and ("ERROR: AddressSanitizer" in err or "runtime error:" in err):
            viol.append({"key": f"{name}:sanitizer", "task": name, "detail": {"stderr": err}})
        for k, c in rec.counters.items():
            counters[k] = counters.get(k, 0) + c
    known = load_known(prop)
    hit, fresh = {}, []
    for v in viol:
        for k in known:
            if fnmatch.fnmatchcase(v["key"], k["key"]):
                hit.setdefault(k["key"], (k, v))
                break
        else:
            fresh.append(v)
    for k, v in hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    EVID.mkdir(exist_ok=True)
    rdir = EVID / "replay"
    replays = []
    shown = {}
    for v in fresh:
        if v["key"] in shown:
            shown[v["key"]] += 1
            continue
        shown[v["key"]] = 1
        rdir.mkdir(exist_ok=True)
        h = hashlib.sha256((prop + v["key"]).encode()).hexdigest()[:10]
        p = rdir / f"{prop}-{h}.json"
        p.write_text(json.dumps({"property": prop, "seed": seed, "tier": tier, **v,
                                 "rerun": f"cd /verif && VERIF_SEED={seed} ./check.sh {prop} {tier} '{v['task']}'"},
                                indent=1))
        replays.append((v["key"], p))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct),
                       "rule": mod.RULE, "samples": samples[:12],
                       "tasks": len(tasks), "monitored_events": counters,
                       "known_findings_observed": len(hit)},
          "assumptions": getattr(mod, "ASSUME", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if not only:
        (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    slow.sort(reverse=True)
    print(f"{prop} {tier}: {evals} events judged, {len(distinct)} distinct non-trivial, "
          f"{len(tasks)} tasks, build {tb:.1f}s, total {time.time()-t0:.1f}s, slowest {slow[:3]}")
    for key, p in replays[:20]:
        print(f"VIOLATION property={prop} replay={p.relative_to(VERIF)}  [{key}] x{shown[key]}")
    if os.environ.get("HV_SHOW"):
        uniq = {v["key"]: v for v in reversed(fresh)}
        for v in list(uniq.values())[:int(os.environ["HV_SHOW"])]:
            print(json.dumps(v, indent=1)[:2500])
    return 1 if fresh else 0
