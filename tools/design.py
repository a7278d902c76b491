"""Write DESIGN.md from tools/design_head.md, the property list, the check modules and the seeded bugs."""
import importlib, json, pathlib, sys
V = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V))
from hv import props
out = [(V / "tools/design_head.md").read_text().rstrip(), "", "## Properties and how each is decided", ""]
known = json.load(open(V / "known_findings.json"))
seeds = {}
for d in sorted((V / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    seeds.setdefault(m["property"], []).append((d.name, m))
WALL = json.load(open(V / "tools/cost.json")) if (V / "tools/cost.json").exists() else {}
for p in sorted(props.P, key=lambda p: p["prop"]["id"]):
    i, q, c = p["prop"]["id"], p["prop"], p["check"]
    mod = importlib.import_module("hv.checks." + i.lower())
    out += [f"### {i} {q['title']}", ""]
    out += [f"*Workload, oracle, counting.* {mod.RULE}.", ""]
    out += [f"*Technique.* {c['technique']}. {c['level_note']}", ""]
    out += [f"*Beyond the tests.* {q['why_tests_cant']}", ""]
    if getattr(mod, "ASSUME", None):
        out += ["*Assumes.* " + "; ".join(mod.ASSUME) + ".", ""]
    if i in WALL:
        w = WALL[i]
        out += [f"*Cost and reach.* quick run: {w['wall']:.0f} s on 8 cores, {w['events']} judged events, {w['distinct']} distinct non-trivial, {w['tasks']} tasks.", ""]
    k = [f for f in known["findings"] if f["property"] == i]
    x = [f for f in known["fixed"] if f.startswith(f"fixed: property={i} ")]
    if k:
        out += [f"*Known findings.* " + " ".join(f"`{f['key']}`: {f['what']}" for f in k), ""]
    if x:
        out += ["*Repaired.* " + "; ".join(f.split(" ", 2)[2] for f in x) + ".", ""]
    if i in seeds:
        out += ["*Planted bugs.* " + "; ".join(f"{n} ({m['what_it_breaks']}; needs {m['needs']})" for n, m in seeds[i]) + " — " +
                ("caught" if all(m.get("caught", True) for _, m in seeds[i]) else "; ".join(f"{n}: {'caught' if m.get('caught', True) else 'missed'}" for n, m in seeds[i])) + ".", ""]
tail = V / "tools/design_tail.md"
if tail.exists():
    out += [tail.read_text().rstrip(), ""]
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
