"""Development tool: turn the specs of plants_specs.py into seeded/<id>/, after confirming them in a scratch copy.

usage: plant.py [--check] ID...   (no ID: all that are not in seeded/ yet)
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from plants_specs import SPECS

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
DEMO = """#!/bin/bash
# exit 0: the property holds on the demonstration; run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=900)


def plant(pid, spec, check):
    d = pathlib.Path(tempfile.mkdtemp(prefix="rzbv-plant-"))
    try:
        repo = d / "repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for name, old, new in spec["edits"]:
            p = repo / "src/razorback" / name
            s = p.read_text()
            assert s.count(old) == 1, (pid, name, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = sh(["git", "diff"], repo).stdout
        demo = d / "demo"
        demo.mkdir()
        (demo / "demo.py").write_text(spec["demo"].lstrip("\n"))
        (demo / "demo.sh").write_text(DEMO)
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"], repo, PYTHONPATH=str(repo / "src"))
        tests = t.stdout.strip().split("\n")[-1]
        good = sh(["bash", str(demo / "demo.sh")], "/repo")
        bad = sh(["bash", str(demo / "demo.sh")], repo)
        ok = t.returncode == 0 and good.returncode == 0 and bad.returncode != 0
        res = f"{pid}: tests {tests!r} demo {good.returncode}/{bad.returncode}"
        if not ok:
            print(res, "NOT KEPT", good.stderr[-600:], bad.stderr[-300:] + bad.stdout[-300:] if bad.returncode == 0 else "", flush=True)
            return
        out = ROOT / "seeded" / pid
        if out.exists():
            shutil.rmtree(out)
        shutil.copytree(demo, out)
        (out / "patch.diff").write_text(diff)
        (out / "meta.json").write_text(json.dumps(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), indent=1) + "\n")
        if check:
            hits = []
            for c in [spec["property"]] + spec.get("also", []):
                r = sh(["bash", str(ROOT / "check.sh"), c], ROOT, RZBV_REPO=str(repo))
                hits.append(f"{c}:{'caught' if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout else 'MISSED rc %d' % r.returncode}")
            res += " " + " ".join(hits)
        print(res, flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = sys.argv[1:]
    check = "--check" in args
    ids = [a for a in args if not a.startswith("-")] or [k for k in SPECS if not (ROOT / "seeded" / k).exists()]
    for k in ids:
        plant(k, SPECS[k], check)
