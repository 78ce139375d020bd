"""C30: data files and CLI paths resolve local first, then global."""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from checks.C25 import scratch
from rzbv import sut
from rzbv.engine import HarnessError, Sub, ensure

TARGETS = ["", "metronix_calibration", "other", "a/b"]
FILES = ["MFS06a.txt", "MFS07b.txt", "sub/MFS06c.txt"]
SERVER = r"""
import io, json, os, sys, warnings
warnings.simplefilter("ignore")
pkg = sys.argv[1]
sys.path.insert(0, pkg)
import razorback as rzb
import razorback.cli
from click.testing import CliRunner
assert os.path.dirname(rzb.__file__) == os.path.join(pkg, "razorback"), rzb.__file__
out, sys.stdout = sys.stdout, sys.stderr

def do(op, args):
    if op == "cd":
        os.chdir(args[0])
    elif op == "data":
        return str(rzb.data.data_path(args[0]))
    elif op == "local":
        return str(rzb.data.local_data_path(args[0]))
    elif op == "default":
        return str(rzb.data.default_data_path(args[0]))
    elif op == "get":
        return str(rzb.data.get_data_file(*args))
    elif op == "metronix":
        z = complex(rzb.calibrations.metronix(args[0], 100.)(1.))
        return [z.real, z.imag]
    elif op == "cli":
        r = CliRunner().invoke(rzb.cli.cli, args)
        return [r.exit_code, r.output, None if r.exception is None else repr(r.exception)]
    elif op == "import":
        return rzb.__file__

for line in sys.stdin:
    op, args = json.loads(line)
    try:
        res = ["ok", do(op, args)]
    except Exception as e:
        res = ["error", type(e).__name__, str(e)]
    out.write(json.dumps(res) + "\n")
    out.flush()
"""


class Server:
    """the package, copied in a scratch directory so that its own data directory can be filled"""

    def __init__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="rzbv-pkg-"))
        self.pkg = os.path.join(self.dir, "razorback")
        self.owner = os.getpid()
        atexit.register(self.close)
        shutil.copytree(sut.SRC / "razorback", self.pkg, ignore=shutil.ignore_patterns("__pycache__", "data"))
        self.version = "4.5.6+rzbv"
        with open(os.path.join(self.pkg, "_version.py"), "w") as fd:
            fd.write(f"__version__ = version = {self.version!r}\n")
        self.glob = os.path.join(self.pkg, "data")
        self.proc = subprocess.Popen([sys.executable, "-c", SERVER, self.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, cwd=self.dir)

    def __call__(self, op, *args):
        self.proc.stdin.write(json.dumps([op, args]) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise HarnessError("the server stopped")
        return json.loads(line)

    def close(self):
        if os.getpid() == self.owner:
            if hasattr(self, "proc"):
                self.proc.kill()
                self.proc.wait()
            shutil.rmtree(self.dir, ignore_errors=True)


_server = []


def server():
    if not _server:
        _server.append(Server())
    return _server[0]


# ---------------------------------------------------------------- layouts

def trees(extra=()):
    """content of a data directory: {target: kind}, and files"""
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["dir", "dir", "dir", "absent", "absent", "file", "link"] + list(extra)),
        subs=st.lists(st.tuples(st.sampled_from(TARGETS[1:] + ["metronix_calibration"]), st.sampled_from(["dir", "dir", "dir", "file", "link"])).map(list), max_size=3),
        files=st.lists(st.tuples(st.sampled_from(TARGETS + ["metronix_calibration"]), st.sampled_from(FILES)).map(list), max_size=5)))


def cases():
    q = st.one_of(
        st.tuples(st.just("cd"), st.integers(0, 2)), st.tuples(st.just("cd"), st.integers(0, 2)),
        st.tuples(st.just("data"), st.sampled_from(TARGETS)),
        st.tuples(st.just("local"), st.sampled_from(TARGETS)),
        st.tuples(st.just("default"), st.sampled_from(TARGETS)),
        st.tuples(st.just("get"), st.sampled_from(TARGETS), st.sampled_from(FILES + ["missing.txt"])),
        st.tuples(st.just("get"), st.just("metronix_calibration"), st.sampled_from(FILES)),
        st.tuples(st.just("metronix"), st.sampled_from(FILES)),
        st.tuples(st.just("path"), st.sampled_from(["base", "metronix"]), st.sampled_from(["", "", "-c", "--create"])),
        st.tuples(st.just("path"), st.sampled_from(["base", "metronix"]), st.sampled_from(["", "", "-c", "--create"])),
        st.tuples(st.just("version")),
        st.tuples(st.just("add"), st.sampled_from(["local", "global"]), st.sampled_from(TARGETS), st.sampled_from(FILES)),
        st.tuples(st.just("remove"), st.sampled_from(["local", "global"]), st.sampled_from(TARGETS), st.sampled_from(FILES + [""])),
    ).map(list)
    return st.fixed_dictionaries(dict(glob=trees(), work=st.lists(trees(), min_size=3, max_size=3), steps=st.lists(q, min_size=3, max_size=14)))


def write(path, ident):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fd:
        if ident % 6:
            fd.write(f"Chopper On\n0.5 1. 0.\n1. {ident}. 0.\n2. 1. 0.\n")


def build(data, tree, aside, ids):
    """creates the directory data"""
    if tree["kind"] == "absent":
        return
    os.makedirs(os.path.dirname(data), exist_ok=True)
    if tree["kind"] == "file":
        with open(data, "w") as fd:
            fd.write("a file")
        return
    if tree["kind"] == "link":
        os.makedirs(aside)
        os.symlink(aside, data)
    else:
        os.makedirs(data)
    for k, (t, kind) in enumerate(tree["subs"]):
        p = os.path.join(data, t)
        if os.path.lexists(p):
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if kind == "file":
            with open(p, "w") as fd:
                fd.write("x")
        elif kind == "link":
            os.makedirs(f"{aside}-{k}")
            os.symlink(f"{aside}-{k}", p)
        else:
            os.makedirs(p)
    for t, f in tree["files"]:
        add(os.path.join(data, t, f), ids)


def add(path, ids):
    ids.append(path)
    try:
        write(path, len(ids))
    except OSError:
        pass  # a file is in the way


def snapshot(*roots):
    res = {}
    for root in roots:
        for d, subs, files in os.walk(root):
            for f in subs + files:
                p = os.path.join(d, f)
                s = os.lstat(p)
                res[p] = (s.st_ino, s.st_mode, os.readlink(p) if os.path.islink(p) else open(p).read() if os.path.isfile(p) else None)
    return res


def same_path(got, want, what):
    ensure(os.path.isabs(got), "%s: %r is not absolute", what, got)
    ensure(os.path.realpath(got) == os.path.realpath(want), "%s: %r, expected %r", what, got, want)


def check_cli(work, glob, target, create, run, roots, what):
    """one path command: run() -> exit code, output"""
    local = os.path.join(work, "data", target) if target else os.path.join(work, "data")
    before = snapshot(*roots)
    way = (os.path.join(work, "data"), local)
    missing = [p for p in way if not os.path.lexists(p)]
    blocked = any(os.path.lexists(p) and not os.path.isdir(p) for p in way)
    code, output = run()
    after = snapshot(*roots)
    if not create:
        ensure(code == 0, "%s: exit code %s, %s", what, code, output)
        same_path(output.strip("\n"), local if os.path.isdir(local) else os.path.join(glob, target), what)
        ensure(before == after, "%s: files changed", what)
        return "path"
    for p in before:
        ensure(after.get(p) == before[p], "%s: %s changed from %s to %s", what, p, before[p], after.get(p))
    new = set(after) - set(before)
    if blocked:
        ensure(not new, "%s: created %s", what, new)
        return "file in the way"
    want = {os.path.realpath(p) for p in missing}
    ensure({os.path.realpath(p) for p in new} == want, "%s: created %s, expected %s", what, new, want)
    ensure(code == 0, "%s: exit code %s, %s", what, code, output)
    ensure(os.path.isdir(local), "%s: not created", what)
    ensure(os.path.realpath(local) in output.replace("\n", ""), "%s: printed %r", what, output)
    return "created" if want else "already there"


def run(case, ctx):
    s = server()
    ids = []
    if os.path.lexists(s.glob):
        remove(s.glob)
    with scratch() as d:
        try:
            build(s.glob, case["glob"], os.path.join(d, "aside-g"), ids)
            works = [os.path.join(d, "w0"), os.path.join(d, "w0", "data", "w1"), os.path.join(d, "w2")]
            for k in (0, 2):
                os.makedirs(works[k])
                build(os.path.join(works[k], "data"), case["work"][k], os.path.join(d, f"aside-{k}"), ids)
            # a working directory in a directory called data
            if os.path.isdir(os.path.join(works[0], "data")):
                os.makedirs(works[1])
                build(os.path.join(works[1], "data"), case["work"][1], os.path.join(d, "aside-1"), ids)
            else:
                works[1] = works[2]
            work = works[0]
            s("cd", work)
            sides = set()
            for i, step in enumerate(case["steps"]):
                what = f"step {i} {step}"
                op = step[0]

                def ask(*query):
                    res = s(*query)
                    ensure(res[0] == "ok", "%s: %s", what, res)
                    return res[1]

                def local_dir(t):
                    return os.path.join(work, "data", t)

                def found(t, f):
                    for p in ([local_dir(t)] if os.path.isdir(local_dir(t)) else []) + [os.path.join(s.glob, t)]:
                        if os.path.isfile(os.path.join(p, f)):
                            return os.path.join(p, f)
                if op == "cd":
                    work = works[step[1]]
                    ask("cd", work)
                elif op == "data":
                    t = step[1]
                    same_path(ask("data", t), local_dir(t) if os.path.isdir(local_dir(t)) else os.path.join(s.glob, t), what)
                elif op == "local":
                    same_path(ask("local", step[1]), local_dir(step[1]), what)
                elif op == "default":
                    same_path(ask("default", step[1]), os.path.join(s.glob, step[1]), what)
                elif op == "get":
                    want = found(step[1], step[2])
                    res = s("get", step[2], step[1])
                    if want is None:
                        ensure(res[:2] == ["error", "ValueError"], "%s: %s, expected ValueError", what, res)
                        sides.add("nowhere")
                    else:
                        ensure(res[0] == "ok", "%s: %s", what, res)
                        same_path(res[1], want, what)
                        sides.add("global" if want.startswith(s.glob) else "local")
                elif op == "metronix":
                    want = found("metronix_calibration", step[1])
                    res = s("metronix", step[1])
                    if want is None:
                        ensure(res[:2] == ["error", "ValueError"], "%s: %s, expected ValueError", what, res)
                    else:
                        with open(want) as fd:
                            text = fd.read()
                        if not text:
                            # found first, but empty
                            ensure(res[0] == "error", "%s: %s, expected an error for an empty file", what, res)
                            continue
                        number = float(text.split()[6])
                        ensure(res[0] == "ok", "%s: %s", what, res)
                        ensure(abs(res[1][0] - number) < 1e-9 and abs(res[1][1]) < 1e-9, "%s: %s, expected %s", what, res, number)
                        sides.add("global" if want.startswith(s.glob) else "local")
                elif op == "path":
                    args = ["path"] + ([step[2]] if step[2] else []) + [step[1]]
                    target = "" if step[1] == "base" else "metronix_calibration"
                    ctx.label(check_cli(work, s.glob, target, step[2], lambda: ask("cli", *args)[:2], (d, s.dir), what))
                elif op == "version":
                    code, output, _ = ask("cli", "version")
                    ensure(code == 0 and output.split()[-1:] == [s.version], "%s: printed %r, version is %r", what, output, s.version)
                elif op == "add":
                    p = os.path.join(s.glob if step[1] == "global" else os.path.join(work, "data"), step[2], step[3])
                    add(p, ids)
                elif op == "remove":
                    base = s.glob if step[1] == "global" else os.path.join(work, "data")
                    p = os.path.join(base, step[2], step[3])
                    if p.startswith((d + os.sep, s.glob)) and os.path.lexists(p.rstrip("/")) and not any((w + os.sep).startswith(os.path.realpath(p) + os.sep) for w in works):
                        remove(p.rstrip("/"))
            ctx.label(*sides)
            ctx.nontrivial(len(sides) > 1 or bool(ctx.labels & {"created"}))
        finally:
            s("cd", s.dir)
            if os.path.lexists(s.glob):
                remove(s.glob)


def remove(p):
    """only in scratch directories"""
    if not os.path.realpath(os.path.dirname(p)).startswith(os.path.realpath(tempfile.gettempdir()) + os.sep):
        raise HarnessError(f"will not remove {p}")
    if os.path.islink(p) or os.path.isfile(p):
        os.unlink(p)
    else:
        shutil.rmtree(p)


# ---------------------------------------------------------------- the real command

def process_cases():
    return st.fixed_dictionaries(dict(work=trees(), glob=trees(), steps=st.lists(st.tuples(st.sampled_from(["base", "metronix"]), st.sampled_from(["", "-c", "--create"])).map(list), min_size=1, max_size=3)))


def run_process(case, ctx):
    s = server()
    if os.path.lexists(s.glob):
        remove(s.glob)
    with scratch() as d:
        try:
            ids = []
            work = os.path.join(d, "w")
            os.makedirs(work)
            build(os.path.join(work, "data"), case["work"], os.path.join(d, "aside"), ids)
            build(s.glob, case["glob"], os.path.join(d, "aside-g"), ids)
            env = dict(os.environ, PYTHONPATH=s.dir, PYTHONDONTWRITEBYTECODE="1")

            def command(*args):
                r = subprocess.run([sys.executable, "-W", "ignore", "-c", "from razorback.cli import cli; cli(prog_name='rzb')", *args], cwd=work, env=env, capture_output=True, text=True)
                return r.returncode, r.stdout
            for name, create in case["steps"]:
                args = ["path"] + ([create] if create else []) + [name]
                ctx.label(check_cli(work, s.glob, "" if name == "base" else "metronix_calibration", create, lambda: command(*args), (d, s.dir), f"rzb {args}"))
            code, output = command("version")
            ensure(code == 0 and output.split()[-1:] == [s.version], "rzb version: %s %r", code, output)
            ctx.nontrivial()
        finally:
            if os.path.lexists(s.glob):
                remove(s.glob)


# ---------------------------------------------------------------- all commands, those of other packages included

COMMANDS = """
import io, json, os, sys, warnings
warnings.simplefilter("ignore")
pkg, plugins = sys.argv[1:]
sys.path[:0] = [pkg, plugins]
from click.testing import CliRunner
import razorback.cli
for line in sys.stdin:
    r = CliRunner().invoke(razorback.cli.cli, json.loads(line), prog_name="rzb")
    print(json.dumps([r.exit_code, r.output, None if r.exception is None else type(r.exception).__name__]), flush=True)
"""
BUILTIN = {"path", "version"}


def command_cases():
    name = st.from_regex(r"[a-z][a-z0-9]{0,6}(-[a-z]{1,4})?", fullmatch=True).filter(lambda x: x not in BUILTIN)
    word = st.sampled_from(["a", "b c", "7", "x/y", "base"])
    step = st.one_of(
        st.tuples(st.just("help"), st.sampled_from([[], ["-h"], ["--help"]])),
        st.tuples(st.just("path help"), st.sampled_from([["path"], ["path", "-h"], ["path", "--help"], ["path", "-c", "-h"], ["path", "--create"]])),
        st.tuples(st.just("plugin"), st.tuples(st.integers(0, 9), st.lists(word, max_size=3)).map(list)),
        st.tuples(st.just("plugin"), st.tuples(st.integers(0, 9), st.lists(word, max_size=3)).map(list)),
        st.tuples(st.just("wrong"), st.sampled_from([["nothing"], ["base"], ["path", "nothing"], ["path", "-c", "nothing"], ["path", "-c", "base", "more"], ["path", "base", "more"], ["path", "--wrong", "base"], ["--create", "path", "base"],
                                                     ["path", "base", "--wrong"], ["path", "--create", "base", "--wrong"], ["version", "more"], ["path", "-c", "metronix", "base"], ["metronix", "-c"]])),
        st.tuples(st.just("version"), st.just(["version"])),
        st.tuples(st.just("path"), st.tuples(st.sampled_from(["base", "metronix"]), st.sampled_from(["", "-c"])).map(list)),
    ).map(list)
    return st.fixed_dictionaries(dict(work=trees(), packages=st.lists(st.lists(name, max_size=2, unique=True), max_size=3), group=st.booleans(), steps=st.lists(step, min_size=3, max_size=12)))


def make_plugins(d, packages, group):
    """packages that register commands, installed in d: {command: text it prints}"""
    res = {}
    for k, names in enumerate(packages):
        names = [n for n in names if n not in res]
        mod = f"rzbv_plugin{k}"
        with open(os.path.join(d, mod + ".py"), "w") as fd:
            fd.write("import click, json\n")
            for i, n in enumerate(names):
                res[n] = f"{n} of {k}"
                own = n if group else "cmd"
                fd.write(f"@click.command({own!r})\n@click.argument('args', nargs=-1)\ndef c{i}(args):\n    ' Help of {n} '\n    click.echo({res[n]!r} + json.dumps(args))\n")
        info = os.path.join(d, f"{mod}-1.{k}.dist-info")
        os.makedirs(info)
        with open(os.path.join(info, "METADATA"), "w") as fd:
            fd.write(f"Metadata-Version: 2.1\nName: {mod}\nVersion: 1.{k}\n")
        with open(os.path.join(info, "entry_points.txt"), "w") as fd:
            if group:
                fd.write(f"[console_scripts]\nother{k} = {mod}:c0\n\n[rzb.others]\nhidden = {mod}:c0\n\n")
            fd.write("[rzb.commands]\n" + "".join(f"{n} = {mod}:c{i}\n" for i, n in enumerate(names)))
    return res


def listed(output):
    """commands that a help text lists, in order"""
    lines = output.split("Commands:\n", 1)[-1].split("\n") if "Commands:\n" in output else []
    return [x.split()[0] for x in lines if x.startswith("  ") and x[2:3] not in ("", " ")]


def run_commands(case, ctx):
    s = server()
    if os.path.lexists(s.glob):
        remove(s.glob)
    with scratch() as d:
        work, plugins = os.path.join(d, "w"), os.path.join(d, "plugins")
        os.makedirs(work)
        os.makedirs(plugins)
        build(os.path.join(work, "data"), case["work"], os.path.join(d, "aside"), [])
        extra = make_plugins(plugins, case["packages"], case["group"])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", COLUMNS="200")
        proc = subprocess.Popen([sys.executable, "-c", COMMANDS, s.dir, plugins], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, cwd=work, env=env)
        try:
            def ask(args):
                proc.stdin.write(json.dumps(args) + "\n")
                proc.stdin.flush()
                line = proc.stdout.readline()
                ensure(line, "rzb %s with commands %s: the process stopped", args, sorted(extra))
                return json.loads(line)
            for kind, args in case["steps"]:
                before = snapshot(d, s.dir)
                if kind == "path":
                    target = "" if args[0] == "base" else "metronix_calibration"
                    args = ["path"] + [x for x in args[1:] if x] + args[:1]
                    check_cli(work, s.glob, target, "-c" in args, lambda: ask(args)[:2], (d, s.dir), f"rzb {args}")
                    continue
                if kind == "plugin":
                    if not extra:
                        continue
                    name = sorted(extra)[args[0] % len(extra)]
                    args = [name] + args[1]
                code, output, exc = ask(args)
                what = f"rzb {args} with commands {sorted(extra)}"
                ensure(exc in (None, "SystemExit"), "%s: %s, %s", what, exc, output)
                if kind == "help":
                    ensure(listed(output) == sorted(BUILTIN | set(extra)), "%s: lists %s", what, listed(output))
                elif kind == "path help":
                    if args != ["path", "--create"]:
                        ensure(listed(output) == ["base", "metronix"], "%s: lists %s", what, listed(output))
                elif kind == "plugin":
                    ensure(code == 0 and output == extra[name] + json.dumps(args[1:]) + "\n", "%s: %s, printed %r", what, code, output)
                elif kind == "version":
                    ensure(code == 0 and output.split() == ["razorback", s.version], "%s: %s, printed %r, version %s", what, code, output, s.version)
                else:
                    ensure(code != 0, "%s: accepted, printed %r", what, output)
                ensure(snapshot(d, s.dir) == before, "%s: files changed", what)
                ctx.label(kind)
            ctx.nontrivial(bool(extra))
        finally:
            proc.kill()
            proc.wait()
            proc.stdin.close()
            proc.stdout.close()


SUBS = [
    Sub("commands", command_cases, run_commands, "commands of other packages", quick=24, thorough=600, qshards=3),
    Sub("histories", cases, run, "files found in several places, or directories created", quick=400, thorough=20000, qshards=3),
    Sub("process", process_cases, run_process, "any", quick=6, thorough=200, qshards=3),
]
