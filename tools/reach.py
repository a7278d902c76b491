"""Lines and functions of /repo/hazma that no quick check executes: tools/reach.py [P01 ...]"""
import ast, collections, glob, json, os, pathlib, subprocess, sys, tempfile
REPO = pathlib.Path("/repo/hazma")
props = sys.argv[1:] or [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
hit = collections.defaultdict(set)
with tempfile.TemporaryDirectory() as d:
    for p in props:
        subprocess.run(["./check.sh", p, "quick"], cwd="/verif", env=dict(os.environ, HV_COV=d), stdout=subprocess.DEVNULL)
    for f in glob.glob(d + "/*.json"):
        for name, no in json.load(open(f)):
            hit[name].add(no)
for f in sorted(REPO.rglob("*.py")):
    if "experimental" in f.parts or f.name.endswith("_test.py"):
        continue
    tree = ast.parse(f.read_text())
    tot = miss = 0
    names = []
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            body = {n.lineno for s in fn.body for n in ast.walk(s) if isinstance(n, ast.stmt)
                    and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))}
            gone = body - hit[str(f)]
            tot, miss = tot + len(body), miss + len(gone)
            if gone and len(gone) == len(body):
                names.append(fn.name)
            elif gone:
                names.append(f"{fn.name}:" + ",".join(map(str, sorted(gone)[:12])))
    if tot:
        print(f"{f.relative_to(REPO)}: {tot - miss}/{tot}" + ("  unreached: " + " ".join(names) if names else ""))
