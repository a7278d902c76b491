"""Random token mutants of hazma's Rust and Cython sources against the quick checks.

tools/mutate_native.py N SEED [substring,...]    N mutants in scratch copies under /tmp; prints one line per mutant
"""
import collections, os, pathlib, random, re, shutil, subprocess, sys, tempfile
REPO, VERIF = pathlib.Path("/repo"), pathlib.Path("/verif")
ORDER = [("photon", "P13"), ("positron", "P14"), ("neutrino", "P15"), ("scalar_xs", "P18"), ("scalar_mediator", "P18"), ("vector_xs", "P19"), ("vector_mediator", "P19"),
         ("soft_complex", "P19"), ("dispatch", "P23"), ("lib.rs", "P23"), ("quad", "P24"), ("special", "P24"), ("interp", "P24"), ("boost", "P12"),
         ("_spectrum.pyx", "P26"), ("_spec.pyx", "P26"), ("constants", "P28"), ("tables", "P13")]
REST = ["P23", "P24", "P13", "P14", "P15", "P12", "P18", "P19", "P26", "P28", "P25", "P27", "P32", "P17", "P16", "P20", "P21", "P05"]
TOK = re.compile(r"(?P<num>(?<![\w.])\d+\.?\d*(?:[eE][-+]?\d+)?(?![\w]))|(?P<op>(?<= )[-+*/](?= ))|(?P<cmp>(?<= )(?:<=|>=|==|!=|<|>)(?= ))|(?P<logic>&&|\|\|)|(?P<call>\.(?:max|min|sqrt|abs|ln|exp)\()")
FLIP = {"+": "-", "-": "+", "*": "/", "/": "*", "<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "&&": "||", "||": "&&",
        ".max(": ".min(", ".min(": ".max(", ".sqrt(": ".abs(", ".abs(": ".sqrt(", ".ln(": ".abs(", ".exp(": ".abs("}


def sites():
    files = sorted((REPO / "rust/src").rglob("*.rs")) + sorted((REPO / "hazma").rglob("*.pyx"))
    for f in files:
        rel = str(f.relative_to(REPO))
        if "probe" in rel:
            continue
        doc = False
        for no, line in enumerate(f.read_text().split("\n")):
            s = line.strip()
            if "#[cfg(test)]" in s:
                break
            if rel.endswith(".pyx"):
                if s.count('"""') % 2:
                    doc = not doc
                    continue
                if doc or s.startswith(("#", "cimport", "from", "import", "@")):
                    continue
            code = line.split("//")[0] if rel.endswith(".rs") else line.split("#")[0]
            if not code.strip() or code.strip().startswith(("#[", "use ", "mod ", "///", "assert", "debug_assert")) or '"' in code:
                continue
            for m in TOK.finditer(code):
                yield rel, no, m


def mutate(m, rng):
    t = m.group()
    if m.lastgroup != "num":
        return FLIP[t]
    if "." in t or "e" in t:
        return repr(float(t) * rng.choice([1.05, 0.9, 2.0]) or 0.01)
    return str(int(t) + rng.choice([1, -1]) if int(t) else 1)


def main(count, seed, only):
    rng = random.Random(seed)
    work = pathlib.Path(tempfile.mkdtemp(prefix="mutn-"))
    rp, vf = work / "repo", work / "verif"
    rp.mkdir(), vf.mkdir()
    for src, dst in ((REPO, rp), (VERIF, vf)):
        subprocess.run(f"git ls-files -z | xargs -0 tar cf - | tar xf - -C {dst}", shell=True, cwd=src, check=True)
    shutil.copytree(VERIF / ".build", work / "cache")
    env = dict(os.environ, HV_REPO=str(rp), HV_CACHE=str(work / "cache"))
    pool = [s for s in sites() if not only or any(o in s[0] for o in only)]
    rng.shuffle(pool)
    per, done, cap = collections.Counter(), 0, int(os.environ.get("MUT_PER_FILE", "6"))
    for f, no, m in pool:
        if done >= count:
            break
        if per[f] >= cap:
            continue
        src = (REPO / f).read_text()
        lines = src.split("\n")
        old = lines[no]
        lines[no] = new = old[:m.start()] + mutate(m, rng) + old[m.end():]
        if old == new:
            continue
        (rp / f).write_text("\n".join(lines))
        order = [p for k, p in ORDER if k in f]
        order += [p for p in REST if p not in order]
        killed, built = None, True
        for p in order:
            r = subprocess.run(["./check.sh", p, "quick"], cwd=vf, env=env, capture_output=True, text=True)
            if r.returncode not in (0, 1):
                if "rror" in r.stderr + r.stdout and ("could not compile" in r.stderr or "rustc" in r.stderr or "cython" in r.stderr.lower() or "gcc" in r.stderr):
                    built = False
                    break
                killed = p + "!"
                break
            if r.returncode == 1:
                killed = p
                break
        (rp / f).write_text(src)
        for d in (work / "cache").glob("*"):
            if not (VERIF / ".build" / d.name).exists():
                shutil.rmtree(d) if d.is_dir() else d.unlink()
        if not built:
            continue
        per[f] += 1
        done += 1
        print(f"{'killed ' + killed if killed else 'SURVIVED'} | {f}:{no + 1} | {old.strip()[:100]} => {new.strip()[:100]}", flush=True)
    shutil.rmtree(work)


if __name__ == "__main__":
    main(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3].split(",") if len(sys.argv) > 3 else None)
