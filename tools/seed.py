"""python3 tools/seed.py ID... : confirm each planted bug in /repo (applies, undoes) and run its property's quick check."""
import json, pathlib, subprocess, sys, os
V = pathlib.Path(__file__).resolve().parents[1]
BASE = set()
b = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests():
    sh("bash /opt/vp/test.sh /tmp/seed_out.json", timeout=600)
    return json.load(open("/tmp/seed_out.json"))
def passed(d):
    for k in ("passed", "pass", "stable"):
        if k in d: return set(d[k])
    return {t for t, s in d.get("tests", d).items() if s in ("passed", "pass", True)}
ids = sys.argv[1:] or sorted(p.name for p in (V / "seeded").iterdir())
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
for i in ids:
    d = V / "seeded" / i
    meta = json.load(open(d / "meta.json"))
    p = (d / "patch.diff")
    out = [i, meta["property"]]
    clean = sh(f"bash {d}/demo.sh", cwd="/repo").returncode
    out.append(f"demo-clean={clean}")
    r = sh(f"git -C /repo apply {p}")
    if r.returncode: print(out, "DOES NOT APPLY", r.stderr); continue
    try:
        if any(x in p.read_text() for x in (".pyx", ".pxd", ".rs\n")):
            r = sh("bash /opt/vp/build.sh"); out.append(f"build={r.returncode}")
        if "--no-tests" not in os.environ.get("SEED", ""):
            miss = passed(b) - passed(tests()); out.append(f"tests-broken={sorted(miss)[:3]}")
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); out.append(f"demo-patched={r.returncode}")
        r = sh(f"VERIF_SEED=1 VERIF_TIER=quick ./check.sh {meta['property']} quick", cwd=V)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append(f"check rc={r.returncode} violations={len(v)}")
    finally:
        sh("git -C /repo checkout -- .")
        if any(x in p.read_text() for x in (".pyx", ".pxd", ".rs\n")): sh("bash /opt/vp/build.sh")
    print(*out, flush=True)
