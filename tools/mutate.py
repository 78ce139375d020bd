"""Development tool: mutation testing on scratch copies.

usage: mutate.py COVDIR OUT [--jobs N] [--every K] [--module NAME] [--seed S]

COVDIR holds <check>.cov files: [[file, line], ...] executed by each check.  Every mutant that passes
the tests is given to the checks that execute the mutated line until one reports a violation.
"""
import argparse, ast, concurrent.futures, copy, json, os, pathlib, queue, random, shutil, subprocess, tempfile, time
ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.FloorDiv: [ast.Mod],
       ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr], ast.Pow: [ast.Mult]}
SWAP = {"min": "max", "max": "min", "any": "all", "all": "any", "ceil": "floor", "floor": "ceil", "union1d": "intersect1d", "union": "intersection",
        "sorted": "list", "isclose": "greater", "nanmedian": "nanmean", "zeros": "ones", "ones": "zeros", "conj": "copy", "real": "imag", "imag": "real",
        "sqrt": "abs", "start": "stop", "stop": "start", "issubset": "issuperset", "issuperset": "issubset", "setdefault": "get", "left": "right",
        "right": "left"}

HOME = {"signalset.py": ["C%02d" % i for i in range(1, 11)] + ["C31", "C12"], "fourier_transform.py": ["C11", "C12", "C13"],
        "mestimator.py": ["C14", "C15", "C17", "C19"], "weights.py": ["C15", "C16", "C17", "C18"], "prefilters.py": ["C23"],
        "utils.py": ["C20", "C21", "C22", "C23", "C24", "C29"], "calibrations.py": ["C27", "C28"], "data.py": ["C30", "C27"],
        "cli.py": ["C30"], "io/ats.py": ["C25"], "io/binary_file_array.py": ["C26", "C25"]}


def mutants(src):
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0])), doc.add(id(n.body[0].value))
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        alts = []
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for a in CMP.get(type(op), []):
                    alts.append(("cmp", lambda m, k=k, a=a: m.ops.__setitem__(k, a())))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for a in BIN.get(type(n.op), []):
                alts.append(("bin", lambda m, a=a: setattr(m, "op", a())))
        elif isinstance(n, ast.BoolOp):
            alts.append(("bool", lambda m: setattr(m, "op", ast.And() if isinstance(m.op, ast.Or) else ast.Or())))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    alts.append(("drop", lambda m, k=k: m.values.pop(k)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            alts.append(("not", lambda m: setattr(m, "op", ast.UAdd()) if False else m.__dict__.update(op=ast.Not(), operand=ast.UnaryOp(ast.Not(), m.operand))))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            alts.append(("neg", lambda m: setattr(m, "op", ast.UAdd())))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                alts.append(("const", lambda m: setattr(m, "value", not m.value)))
            elif isinstance(v, (int, float)):
                alts.append(("const", lambda m: setattr(m, "value", m.value + 1)))
                if v:
                    alts.append(("const", lambda m: setattr(m, "value", m.value - 1 if isinstance(m.value, int) else m.value * .9)))
            elif isinstance(v, str) and v in SWAP:
                alts.append(("str", lambda m: setattr(m, "value", SWAP[m.value])))
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            alts.append(("attr", lambda m: setattr(m, "attr", SWAP[m.attr])))
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            alts.append(("name", lambda m: setattr(m, "id", SWAP[m.id])))
        elif isinstance(n, ast.Slice):
            for f in ("lower", "upper", "step"):
                if getattr(n, f) is not None:
                    alts.append(("slice", lambda m, f=f: setattr(m, f, None)))
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                alts.append(("kw", lambda m, k=k: m.keywords.pop(k)))
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                alts.append(("swapargs", lambda m: m.args.reverse()))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            alts.append(("iftrue", lambda m: setattr(m, "test", ast.Constant(True))) if not isinstance(n, ast.While) else ("x", lambda m: None))
            if not isinstance(n, ast.While):
                alts.append(("iffalse", lambda m: setattr(m, "test", ast.Constant(False))))
        elif isinstance(n, (ast.Assign, ast.Expr, ast.Raise, ast.Assert, ast.Continue, ast.Break, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield,))):
            alts.append(("pass", None))
        elif isinstance(n, ast.Return) and n.value is not None:
            alts.append(("retnone", lambda m: setattr(m, "value", ast.Constant(None))))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in range(len(n.generators)):
                for k in range(len(n.generators[g].ifs)):
                    alts.append(("noif", lambda m, g=g, k=k: m.generators[g].ifs.pop(k)))
        for kind, f in alts:
            if kind == "x":
                continue
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            if kind == "pass":
                for p in ast.walk(t):
                    for field in ("body", "orelse", "finalbody"):
                        b = getattr(p, field, None)
                        if isinstance(b, list) and m in b:
                            b[b.index(m)] = ast.copy_location(ast.Pass(), m)
            else:
                f(m)
            try:
                new = ast.unparse(ast.fix_missing_locations(t))
                compile(new, "x", "exec")
            except Exception:
                continue
            yield n.lineno, kind, ast.get_source_segment(src, n) or "", new


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cov"), ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--module")
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--scale", default="1")
    ap.add_argument("--most", type=int, default=9, help="number of checks tried for each mutant")
    a = ap.parse_args()
    cov = {}
    for f in sorted(pathlib.Path(a.cov).glob("*.cov")):
        for fn, line in json.loads(f.read_text()):
            cov.setdefault((fn.split("/src/razorback/")[1], line), []).append(f.stem)
    cost = json.loads((pathlib.Path(a.cov) / "cost.json").read_text()) if (pathlib.Path(a.cov) / "cost.json").exists() else {}
    src = pathlib.Path("/repo/src/razorback")
    todo = []
    for p in sorted(src.rglob("*.py")):
        name = str(p.relative_to(src))
        if a.module and a.module != name or name == "_version.py":
            continue
        text = p.read_text()
        base = ast.unparse(ast.parse(text))
        seen = {base}
        for line, kind, seg, new in mutants(text):
            if new not in seen:
                seen.add(new)
                todo.append((name, line, kind, seg[:80], new, base))
    random.Random(a.seed).shuffle(todo)
    todo = todo[::a.every]
    print(len(todo), "mutants", flush=True)
    done = set()
    out = pathlib.Path(a.out)
    if out.exists():
        done = {(d["file"], d["line"], d["kind"], d["diff"]) for d in map(json.loads, out.read_text().splitlines())}
    boxes = queue.Queue()
    top = pathlib.Path(tempfile.mkdtemp(prefix="rzbv-mut-"))
    for k in range(a.jobs):
        d = top / str(k)
        shutil.copytree("/repo", d / "repo", ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(ROOT, d / "verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "out"))
        boxes.put(d)

    def run(m):
        import difflib
        name, line, kind, seg, new, base = m
        diff = "\n".join(l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), n=0, lineterm="") if l[:2] not in ("--", "++", "@@"))
        key = dict(file=name, line=line, kind=kind, diff=diff)
        if (name, line, kind, diff) in done:
            return None
        d = boxes.get()
        t0 = time.time()
        try:
            p = d / "repo/src/razorback" / name
            orig = p.read_text()
            p.write_text(new)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(d / "repo/src"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            try:
                try:
                    r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=d / "repo", env=env, capture_output=True, text=True, timeout=60)
                    if r.returncode:
                        return dict(key, res="tests")
                except subprocess.TimeoutExpired:
                    return dict(key, res="tests")
                env = dict(os.environ, RZBV_REPO=str(d / "repo"))
                home = HOME.get(name, [])
                hit = cov.get((name, line), []) + (["C30"] if name == "cli.py" else [])
                checks = sorted(hit, key=lambda c: (c not in home, cost.get(c, 10)))[:a.most]
                tried = []
                for c in checks:
                    try:
                        r = subprocess.run(["bash", "check.sh", c, "--scale", a.scale], cwd=d / "verif", env=env, capture_output=True, text=True, timeout=400)
                    except subprocess.TimeoutExpired:
                        tried.append(c + ":timeout")
                        continue
                    if r.returncode == 1 and "VIOLATION" in r.stdout:
                        return dict(key, res="caught", by=c, after=tried, t=round(time.time() - t0))
                    tried.append(c if r.returncode == 0 else f"{c}:rc{r.returncode}")
                return dict(key, res="SURVIVED", tried=tried, t=round(time.time() - t0))
            finally:
                p.write_text(orig)
        finally:
            boxes.put(d)

    with concurrent.futures.ThreadPoolExecutor(a.jobs) as pool, out.open("a") as f:
        for res in pool.map(run, todo):
            if res:
                f.write(json.dumps(res) + "\n")
                f.flush()
    shutil.rmtree(top)


main()
