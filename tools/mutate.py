"""Random source mutants of hazma's Python code against the quick checks that execute the mutated line.

tools/mutate.py hits OUT.json          record which checks execute which lines (runs every quick check)
tools/mutate.py run OUT.json N SEED    N mutants in scratch copies under /tmp; prints one line per mutant
"""
import ast, collections, copy, glob, json, os, pathlib, random, shutil, subprocess, sys, tempfile
REPO, VERIF = pathlib.Path("/repo"), pathlib.Path("/verif")


def props():
    cost = json.load(open(VERIF / "tools/cost.json"))
    return sorted((c["property"] for c in json.load(open(VERIF / "MANIFEST.json"))["checks"]), key=lambda p: cost[p]["wall"])


def hits(out):
    res = {}
    for p in props():
        with tempfile.TemporaryDirectory() as d:
            subprocess.run(["./check.sh", p, "quick"], cwd=VERIF, env=dict(os.environ, HV_COV=d), stdout=subprocess.DEVNULL)
            s = set()
            for f in glob.glob(d + "/*.json"):
                s |= {(n.split("/repo/")[1], no) for n, no in json.load(open(f))}
        for n, no in s:
            res.setdefault(n, {}).setdefault(str(no), []).append(p)
    json.dump(res, open(out, "w"))


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def sites(tree):
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for st in fn.body:
            for n in ast.walk(st):
                if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                    yield n, "op"
                elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                    yield n, "cmp"
                elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    yield n, "const"
                elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                    yield n, "swap"
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id[-1] in "12":
                    yield n, "name"
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                    yield n, "neg"
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
                    yield n, "drop"
                elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    yield n, "drop"
                elif isinstance(n, ast.If):
                    yield n, "if"


def replace(n, kind, rng):
    """New source text of node n."""
    m = copy.deepcopy(n)
    if kind == "op":
        m.op = BIN[type(n.op)]()
    elif kind == "cmp":
        m.ops = [CMP[type(n.ops[0])]()]
    elif kind == "const":
        m.value = (n.value + rng.choice([1, -1])) if isinstance(n.value, int) else n.value * rng.choice([1.05, 0.9, 2.0]) if n.value else 0.01
    elif kind == "swap":
        m.args[0], m.args[1] = n.args[1], n.args[0]
    elif kind == "name":
        m.id = n.id[:-1] + ("2" if n.id[-1] == "1" else "1")
    elif kind == "neg":
        m = m.operand
    elif kind == "drop":
        return "pass"
    elif kind == "if":
        m = ast.UnaryOp(ast.Not(), m.test)
    return "(" + ast.unparse(m) + ")" if kind not in ("drop",) else ast.unparse(m)


def run(hitfile, count, seed):
    H = json.load(open(hitfile))
    rng = random.Random(seed)
    order = props()
    work = pathlib.Path(tempfile.mkdtemp(prefix="mut-"))
    rp, vf = work / "repo", work / "verif"
    rp.mkdir(), vf.mkdir()
    for src, dst in ((REPO, rp), (VERIF, vf)):
        subprocess.run(f"git ls-files -z | xargs -0 tar cf - | tar xf - -C {dst}", shell=True, cwd=src, check=True)
    for f in (REPO / "hazma").rglob("*.so"):
        shutil.copy2(f, rp / f.relative_to(REPO))
    env = dict(os.environ, HV_REPO=str(rp), HV_CACHE=str(work / "cache"))
    files = [f for f in H if (REPO / f).exists() and "experimental" not in f]
    pool = []
    only = os.environ.get("MUT_ONLY")
    for f in files:
        if only and not any(o in f for o in only.split(",")):
            continue
        for n, k in sites(ast.parse((REPO / f).read_text())):
            if str(n.lineno) in H[f] and n.lineno == getattr(n.test if k == "if" else n, "end_lineno"):
                pool.append((f, n, k))
    rng.shuffle(pool)
    per = collections.Counter()
    done = 0
    cap = int(os.environ.get("MUT_PER_FILE", "4"))
    for f, n, k in pool:
        if done >= count:
            break
        if per[f] >= cap:
            continue
        src = (REPO / f).read_text()
        lines = src.split("\n")
        node = n.test if k == "if" else n
        line = lines[node.lineno - 1].encode()
        new = (line[:node.col_offset] + replace(n, k, rng).encode() + line[node.end_col_offset:]).decode()
        if new == lines[node.lineno - 1]:
            continue
        lines[node.lineno - 1] = new
        try:
            compile("\n".join(lines), f, "exec")
        except SyntaxError:
            continue
        per[f] += 1
        done += 1
        (rp / f).write_text("\n".join(lines))
        cand = [p for p in order if p in H[f][str(n.lineno)]]
        killed = None
        for p in cand:
            r = subprocess.run(["./check.sh", p, "quick"], cwd=vf, env=env, capture_output=True, text=True)
            if r.returncode == 1:
                killed = p
                break
        (rp / f).write_text(src)
        print(f"{'killed ' + killed if killed else 'SURVIVED'} | {f}:{n.lineno} {k} | {src.splitlines()[n.lineno - 1].strip()[:90]} => {new.strip()[:90]} | {','.join(cand)}", flush=True)
    shutil.rmtree(work)


if __name__ == "__main__":
    hits(sys.argv[2]) if sys.argv[1] == "hits" else run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
