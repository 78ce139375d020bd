"""Development tool: run the quick checks on every planted bug and write the table of DESIGN.md.

usage: table.py [--all] [--jobs N] [ID...]     (default: the property's own check; --all: every check)
"""
import concurrent.futures, json, os, pathlib, re, shutil, subprocess, sys, tempfile
ROOT = pathlib.Path(__file__).resolve().parent.parent
ALL = sorted(p.stem for p in (ROOT / "checks").glob("C*.py"))


def one(args):
    pid, checks = args
    d = pathlib.Path(tempfile.mkdtemp(prefix="rzbv-table-"))
    try:
        shutil.copytree("/repo", d / "repo", symlinks=True)
        subprocess.run(["git", "apply", str(ROOT / "seeded" / pid / "patch.diff")], cwd=d / "repo", check=True)
        shutil.copytree(ROOT, d / "verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "out"))
        hits = []
        for c in checks:
            r = subprocess.run(["bash", str(d / "verif/check.sh"), c], capture_output=True, text=True, env=dict(os.environ, RZBV_REPO=str(d / "repo")))
            if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
                hits.append(c)
            elif r.returncode:
                hits.append(f"{c}(rc {r.returncode})")
        return pid, hits
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = sys.argv[1:]
    jobs = int(args[args.index("--jobs") + 1]) if "--jobs" in args else 4
    meta = {p.name: json.loads((p / "meta.json").read_text()) for p in sorted((ROOT / "seeded").iterdir())}
    ids = [a for a in args if a in meta] or list(meta)
    todo = [(i, ALL if "--all" in args else [meta[i]["property"]]) for i in ids]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        res = dict(ex.map(one, todo))
    print("| planted bug | what it breaks | caught by |\n|---|---|---|")
    for i in ids:
        own = meta[i]["property"]
        others = [c for c in res[i] if c != own]
        print(f"| {i} | {meta[i]['what_it_breaks']} | {'**' + own + '**' if own in res[i] else 'not by ' + own}{', ' + ', '.join(others) if others else ''} |")
