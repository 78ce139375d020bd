"""Check runner.

A property is a module checks/<id>.py with SUBS, a list of Sub.  Each Sub has a
Hypothesis strategy making JSON values (the cases) and run(case, ctx), which
judges one case: it returns when the property holds and raises otherwise.  A case
is a plain JSON value and run() is deterministic, so that a (shrunk) failing case
is a replay file by itself, run without Hypothesis.

Exit codes: 0 held, 1 violated (VIOLATION line), 2 error of the check.
"""
import argparse
import concurrent.futures
import contextlib
import hashlib
import importlib
import io
import json
import os
import pathlib
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
OUT = ROOT / "out"
EVIDENCE = ROOT / "evidence"
KNOWN = ROOT / "known_findings.txt"


class Violation(AssertionError):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class Endless(BaseException):
    """The case needs far more time or memory than it should (not an Exception: nothing handles it on the way)."""


CPU_LIMIT = 120         # seconds of processor time for one case
MEMORY_LIMIT = 6 << 30  # bytes of data of a worker


def too_long(*args):
    raise Endless("does not finish: stopped after a long time")


class Ctx:
    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def refuses(what, func, exc=Exception):
    """func() must raise exc."""
    try:
        res = func()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__} instead of {exc}")
    raise Violation(f"{what}: should be refused but gave {res!r:.200}")


class Sub:
    def __init__(self, name, strategy, run, rule, quick=200, thorough=None, shards=8, qshards=1, cpu=CPU_LIMIT):
        self.name, self.strategy, self.run, self.rule = name, strategy, run, rule
        self.quick = quick
        self.thorough = thorough or quick * 20
        self.shards = shards
        self.qshards = qshards
        self.cpu = cpu


def load(pid):
    from . import deps
    deps.ensure()
    sys.path.insert(0, str(ROOT))
    return importlib.import_module(f"checks.{pid}")


def get_sub(mod, name):
    for s in mod.SUBS:
        if s.name == name:
            return s
    raise HarnessError(f"no sub-check {name}")


def run_case(sub, case):
    """run one case quietly; returns ctx; raises on violation"""
    ctx = Ctx()
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_DATA)[1]))
    signal.signal(signal.SIGVTALRM, too_long)
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu, 1)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                sub.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Endless as e:
        raise Violation(str(e)) from None
    except MemoryError:
        raise Violation("runs out of memory") from None
    return ctx


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ["%s:%d %s" % (pathlib.Path(f.filename).name, f.lineno, f.name) for f in tb[-4:]]
    return f"{type(exc).__name__}: {str(exc)[:2000]} [{' < '.join(reversed(where))}]"


def norm(case):
    return json.loads(json.dumps(case))


# ---------------------------------------------------------------- worker

def worker(pid, subname, n, seed, budget, outfile):
    mod = load(pid)
    sub = get_sub(mod, subname)
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as hce
    if hasattr(hce, "MAX_SHRINKING_SECONDS"):
        hce.MAX_SHRINKING_SECONDS = 20

    t0 = time.time()
    st = dict(evaluations=0, nontrivial=set(), labels={}, samples=[], skipped=0)
    fails = []      # (size, case, message)
    history = []    # all cases, in order, up to the first failure

    def test(case):
        if time.time() - t0 > budget and not fails:
            st["skipped"] += 1
            return
        case = norm(case)
        text = json.dumps(case, sort_keys=True)
        if not fails:
            history.append(text)
            st["evaluations"] += 1
        try:
            ctx = run_case(sub, case)
        except (HarnessError, ImportError):
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except Exception as e:
            fails.append((len(text), case, describe(e)))
            raise Violation(str(e)) from None
        if fails:
            return
        for lab in ctx.labels:
            st["labels"][lab] = st["labels"].get(lab, 0) + 1
        if ctx.is_nontrivial:
            h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if h not in st["nontrivial"]:
                st["nontrivial"].add(h)
                if len(st["samples"]) < 2:
                    st["samples"].append(text[:1200])

    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy
    t = hypothesis.given(strategy)(test)
    t = settings(
        max_examples=n, deadline=None, database=None, print_blob=False,
        report_multiple_bugs=False,
        phases=(Phase.explicit, Phase.generate, Phase.shrink),
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example],
    )(t)
    t = hypothesis.seed(seed)(t)
    error = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            t()
    except Violation:
        pass
    except BaseException as e:  # Flaky after a failure is still a failure
        if not fails:
            error = "".join(traceback.format_exception(e))[-4000:]
    res = dict(st, nontrivial=sorted(st["nontrivial"]), error=error, wall=time.time() - t0)
    if fails:
        _, case, msg = min(fails, key=lambda f: f[0])
        res["failure"] = dict(case=case, message=msg)
        res["history"] = history[-400:]
    pathlib.Path(outfile).write_text(json.dumps(res))


# ---------------------------------------------------------------- replay

def replay(pid, path):
    data = json.loads(pathlib.Path(path).read_text())
    mod = load(pid)
    sub = get_sub(mod, data["sub"])
    for case in [json.loads(c) for c in data.get("history") or []] + [data["case"]]:
        try:
            run_case(sub, norm(case))
        except (HarnessError, ImportError):
            traceback.print_exc()
            return 2
        except Exception as e:
            print(describe(e))
            print(f"VIOLATION property={pid} replay={path}")
            return 1
    print(f"replay of {path}: property {pid} holds")
    return 0


# ---------------------------------------------------------------- main

def derive(seed, *what):
    h = hashlib.blake2b(repr((seed,) + what).encode(), digest_size=6).hexdigest()
    return int(h, 16)


def spawn(args, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    return subprocess.run([sys.executable, "-m", "rzbv.engine", *args], cwd=ROOT, env=env,
                          capture_output=True, text=True, timeout=timeout)


def known_findings(pid):
    """lines 'known: property=<id> sub=<sub> match=<text> :: <what fails>'"""
    res = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith("known:") and f"property={pid} " in line:
                res.append(line)
    return res


def main_check(pid, tier, seed, scale, only=None):
    t0 = time.time()
    try:
        mod = load(pid)
    except Exception:
        traceback.print_exc()
        return 2
    workdir = pathlib.Path(tempfile.mkdtemp(prefix=f"rzbv-{pid}-"))
    jobs = []
    budget = 240 if tier == "quick" else 3000
    for sub in mod.SUBS:
        if only and sub.name not in only:
            continue
        shards = sub.qshards if tier == "quick" else sub.shards
        n = sub.quick if tier == "quick" else sub.thorough
        n = max(1, int(n * scale / shards))
        for k in range(shards):
            jobs.append((sub, k, n))
    results = {}
    errors = []

    def go(job):
        sub, k, n = job
        out = workdir / f"{sub.name}-{k}.json"
        s = derive(seed, pid, sub.name, k)
        try:
            p = spawn(["--worker", pid, sub.name, str(n), str(s), str(budget), str(out)], budget + 500)
        except subprocess.TimeoutExpired:
            return job, None, "timeout of the worker"
        if not out.exists():
            return job, None, f"worker exit {p.returncode}: {p.stderr[-3000:]}"
        return job, json.loads(out.read_text()), None

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        for job, res, err in pool.map(go, jobs):
            if err or res["error"]:
                errors.append(f"{job[0].name}[{job[1]}]: {err or res['error']}")
            if res:
                results[(job[0].name, job[1])] = res
    import shutil
    shutil.rmtree(workdir, ignore_errors=True)

    # ---- failures
    OUT.mkdir(exist_ok=True)
    for sub in mod.SUBS:
        if not only or sub.name in only:
            (OUT / f"{pid}-{sub.name}.json").unlink(missing_ok=True)
    violations = []
    seen = set()
    for (name, k), res in results.items():
        f = res.get("failure")
        if not f or name in seen:
            continue
        seen.add(name)
        path = OUT / f"{pid}-{name}.json"
        rep = dict(property=pid, sub=name, case=f["case"], message=f["message"])
        path.write_text(json.dumps(rep, indent=1))
        try:
            p = spawn([pid, "--replay", str(path)], 600)
            if p.returncode != 1:  # needs what happened before in the process
                rep["history"] = res["history"]
                path.write_text(json.dumps(rep))
                p = spawn([pid, "--replay", str(path)], 900)
            rep["reproduced"] = p.returncode == 1
        except subprocess.TimeoutExpired:
            rep["reproduced"] = None
        path.write_text(json.dumps(rep, indent=1))
        violations.append((name, path, f["message"], rep["reproduced"]))

    # ---- evidence
    per_sub = {}
    for (name, k), res in results.items():
        d = per_sub.setdefault(name, dict(evaluations=0, nontrivial=set(), labels={}, samples=[],
                                          skipped=0, wall=0., rule=get_sub(mod, name).rule))
        d["evaluations"] += res["evaluations"]
        d["skipped"] += res["skipped"]
        d["wall"] = round(max(d["wall"], res["wall"]), 2)
        d["nontrivial"].update(res["nontrivial"])
        for lab, c in res["labels"].items():
            d["labels"][lab] = d["labels"].get(lab, 0) + c
        if len(d["samples"]) < 2:
            d["samples"] += res["samples"][:2]
    total = sum(d["evaluations"] for d in per_sub.values())
    distinct = sum(len(d["nontrivial"]) for d in per_sub.values())
    samples = [dict(sub=n, case=s) for n, d in per_sub.items() for s in d["samples"][:2]]
    for d in per_sub.values():
        d["nontrivial"] = len(d["nontrivial"])
        d.pop("samples")
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=total, distinct_nontrivial=distinct,
            rule="; ".join(f"{s.name}: {s.rule}" for s in mod.SUBS),
            samples=samples, per_sub=per_sub,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{pid}.json").write_text(json.dumps(ev, indent=1))

    for name, d in per_sub.items():
        print(f"{pid} {name}: {d['evaluations']} cases, {d['nontrivial']} distinct non-trivial, "
              f"{d['wall']}s" + (f", {d['skipped']} skipped (budget)" if d["skipped"] else "")
              + ("  labels: " + ", ".join(f"{k}={v}" for k, v in sorted(d["labels"].items())) if d["labels"] else ""))
    known = known_findings(pid)
    reported = 0
    for name, path, msg, rep in violations:
        hit = [l for l in known if f"sub={name} " in l and l.split("match=")[1].split(" ::")[0] in msg]
        if hit:
            continue
        reported += 1
        print(f"{name}: {msg}\n  (reproduced from the replay file in a fresh process: {rep})")
        print(f"VIOLATION property={pid} replay={path}")
    for line in known:
        print(f"KNOWN-FINDING: property={pid} {line.split(':: ', 1)[1]}")
    if reported:
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    empty = [n for n, d in per_sub.items() if d["evaluations"] and not d["nontrivial"]]
    if empty:
        print(f"vacuous sub-checks: {empty}", file=sys.stderr)
        return 2
    return 0


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    if argv and argv[0] == "--worker":
        pid, sub, n, seed, budget, out = argv[1:]
        worker(pid, sub, int(n), int(seed), float(budget), out)
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.)
    ap.add_argument("--sub", action="append")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.property, a.replay)
    return main_check(a.property, a.tier, a.seed, a.scale, a.sub)


if __name__ == "__main__":
    sys.exit(main())
