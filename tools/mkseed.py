"""mkseed(id, prop, [(file, old, new)], needs, breaks, demo_py, native=False): write /verif/seeded/<id>/ from /repo HEAD."""
import os, pathlib, subprocess, json
R = os.environ.get("HV_REPO", "/repo")
V = pathlib.Path(__file__).resolve().parents[1]
def mk(id, prop, edits, needs, breaks, demo, sh=None, files=()):
    d = V / "seeded" / id
    d.mkdir(parents=True, exist_ok=True)
    saved = {}
    try:
        for f, old, new in edits:
            p = pathlib.Path(R) / f
            s = p.read_text(); saved.setdefault(p, s)
            assert s.count(old) == 1, (id, f, s.count(old))
            p.write_text(s.replace(old, new))
        diff = subprocess.run(f"git -C {R} diff", shell=True, capture_output=True, text=True).stdout
    finally:
        for p, s in saved.items(): p.write_text(s)
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    (d / "demo.py").write_text(demo.lstrip())
    (d / "demo.sh").write_text(sh or '#!/bin/bash\nexport PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
