"""Build the native half of hazma from /repo's working tree, outside /repo.

* ``hazma._core``: /repo/rust/src compiled unmodified by rustc against the
  stand-ins in /verif/shim for pyo3, numpy and spec_math (the real crates cannot
  be fetched offline).  Debug assertions and overflow checks are on.
* the Cython extensions: every .pyx of /repo/hazma, cythonised and compiled,
  optionally with AddressSanitizer and UndefinedBehaviorSanitizer.

Build products are cached under /verif/.build, keyed by the content of every
input, so nothing stale can be picked up.
"""

from __future__ import annotations

import hashlib
import os
import pathlib
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = pathlib.Path(os.environ.get("HV_REPO", "/repo"))
VERIF = pathlib.Path(__file__).resolve().parents[1]
SHIM = VERIF / "shim"
CACHE = pathlib.Path(os.environ.get("HV_CACHE", VERIF / ".build"))
PY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def _run(cmd, cwd=None, env=None):
    p = subprocess.run(
        [str(c) for c in cmd], cwd=cwd, env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True, errors="replace",
    )
    if p.returncode:
        raise BuildError(f"{' '.join(map(str, cmd))}\n{p.stdout[-6000:]}")
    return p.stdout


def _digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(str(f).encode() + b"\0")
        h.update(pathlib.Path(f).read_bytes() + b"\0")
    return h.hexdigest()[:24]


def _publish(tmp, dest):
    try:
        os.rename(tmp, dest)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return dest


def _tmp():
    CACHE.mkdir(parents=True, exist_ok=True)
    return pathlib.Path(tempfile.mkdtemp(prefix="tmp-", dir=CACHE))


def _rustc_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    return env


def rust_sources():
    return [p for p in (REPO / "rust" / "src").rglob("*") if p.is_file()]


# the sanitized core is compiled by the nightly toolchain against clang's shared runtime
RUST_SAN = ["-Zsanitizer=address", "-Zexternal-clangrt"]


def _rustc(sanitize):
    return ["rustc", "+nightly"] if sanitize else ["rustc"]


def build_shim(sanitize=False):
    key = _digest(SHIM.glob("*.rs"), f"shim1{sanitize or ''}")
    dest = CACHE / f"shim-{key}"
    rc, san = _rustc(sanitize), RUST_SAN if sanitize else []
    if (dest / "libnumpy.rlib").exists():
        return dest
    t = _tmp()
    env = _rustc_env()
    L = f"dependency={t}"
    _run([*rc, "--edition", "2021", "--crate-type", "proc-macro", "--crate-name",
          "pyo3_macros", SHIM / "pyo3_macros.rs", "-o", t / "libpyo3_macros.so"], env=env)
    _run([*rc, "--edition", "2024", "-O", *san, "--crate-type", "rlib", "--crate-name", "pyo3",
          SHIM / "pyo3.rs", "--extern", f"pyo3_macros={t}/libpyo3_macros.so",
          "-o", t / "libpyo3.rlib"], env=env)
    _run([*rc, "--edition", "2024", "-O", *san, "--crate-type", "rlib", "--crate-name",
          "spec_math", SHIM / "spec_math.rs", "-o", t / "libspec_math.rlib"], env=env)
    _run([*rc, "--edition", "2024", "-O", *san, "--crate-type", "rlib", "--crate-name", "numpy",
          SHIM / "numpy.rs", "--extern", f"pyo3={t}/libpyo3.rlib", "-L", L,
          "-o", t / "libnumpy.rlib"], env=env)
    return _publish(t, dest)


def build_core(sanitize=False):
    """The cdylib, as <dir>/_core.abi3.so."""
    shim = build_shim(sanitize)
    key = _digest(rust_sources(), "core2" + shim.name)
    dest = CACHE / f"core-{key}"
    if (dest / "_core.abi3.so").exists():
        return dest
    t = _tmp()
    _run([*_rustc(sanitize), "--edition", "2024", "-O", *(RUST_SAN if sanitize else []), "-C", "debug-assertions=on", "-C",
          "overflow-checks=on", "-A", "warnings", "--cap-lints", "allow",
          "--crate-type", "cdylib", "--crate-name", "_core",
          "--cfg", 'feature="extension-module"', REPO / "rust/src/lib.rs",
          "--extern", f"pyo3={shim}/libpyo3.rlib", "--extern", f"numpy={shim}/libnumpy.rlib",
          "--extern", f"spec_math={shim}/libspec_math.rlib", "-L", f"dependency={shim}",
          "-o", t / "_core.abi3.so"], env=_rustc_env())
    return _publish(t, dest)


def cython_sources():
    out = []
    for p in (REPO / "hazma").rglob("*"):
        if p.suffix in (".pyx", ".pxd", ".pxi") and "experimental" not in p.parts:
            out.append(p)
    return out


SAN_FLAGS = ["-fsanitize=address,undefined", "-fno-omit-frame-pointer", "-g", "-O1",
             "-fno-sanitize=function,vptr"]


def build_cython(sanitize=False):
    """The Cython extensions, laid out as a partial ``hazma`` tree."""
    srcs = cython_sources()
    key = _digest(srcs, f"cy3{sanitize}")
    dest = CACHE / f"cython-{'san-' if sanitize else ''}{key}"
    if (dest / ".ok").exists():
        return dest
    t = _tmp()
    for s in srcs:
        d = t / s.relative_to(REPO)
        d.parent.mkdir(parents=True, exist_ok=True)
        shutil.copy(s, d)
    for d in [t / "hazma", *[p for p in (t / "hazma").rglob("*") if p.is_dir()]]:
        (d / "__init__.py").touch()
    pyx = sorted((t / "hazma").rglob("*.pyx"))
    import numpy

    inc = [f"-I{numpy.get_include()}", f"-I{sysconfig.get_paths()['include']}"]
    ext = sysconfig.get_config_var("EXT_SUFFIX")

    def one(p):
        rel = p.relative_to(t)
        _run([PY, "-m", "cython", "-3", "-I", ".", rel], cwd=t)
        c = p.with_suffix(".c")
        o = p.with_name(p.stem + ext)
        if sanitize:
            _run(["clang", "-shared", "-fPIC", "-shared-libasan", *SAN_FLAGS, *inc, "-w",
                  "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION", c, "-o", o, "-lm"], cwd=t)
        else:
            _run(["gcc", "-shared", "-fPIC", "-O2", "-DNDEBUG", "-w", *inc, c, "-o", o, "-lm"],
                 cwd=t)
        c.unlink()

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, pyx))
    for d in (t / "hazma").rglob("__init__.py"):
        d.unlink()
    (t / ".ok").touch()
    return _publish(t, dest)


def build_all(sanitize=False):
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(build_core, sanitize)
        b = ex.submit(build_cython, sanitize)
        return a.result(), b.result()


if __name__ == "__main__":
    import time

    t0 = time.time()
    print(*build_all("--san" in sys.argv), f"{time.time() - t0:.1f}s")
