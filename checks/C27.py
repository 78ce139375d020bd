"""C27: metronix calibrations follow the tabulated response."""
import cmath
import math
import os

import numpy as np
from hypothesis import strategies as st

from checks.C25 import scratch
from rzbv.engine import Sub, ensure, refuses
from rzbv.num import rng
from rzbv.sut import rzb  # noqa
from razorback.calibrations import metronix

NOISE = ["Metronix calibration file", "see Chopper On below", "Magnetometer: MFS06e #123 Date: 01/02/03", "(Chopper Off is last)", "frequency magnitude phase", "1.0 2.0 3.0", "-----", "# a comment"]
ON = ["Chopper On", "chopper on", "CHOPPER ON", "  Chopper   On  ", "Chopper\tOn", "ChopperX"[:7] + " On: f V/nT deg", "cHOPPER oN (Hz)"]
OFF = [h.replace("On", "Off").replace("on", "off").replace("ON", "OFF").replace("oN", "oFF") for h in ON]
NAMES = {"MFS06": ["MFS06.txt", "Cal_307_MFS06e123.TXT", "06_MFS06", "MFS0699.txt"], "MFS07": ["MFS07e033.txt", "xMFS07.txt", "CAL.MFS07.txt", "Cal_MFS07_v2.txt"]}
BAD = ["MFS0.txt", "mfs06.txt", "coil.txt", "MFS-06.txt", "MSF06.txt"]
UNKNOWN = ["MFS10e.txt", "MFS99.txt", "Cal_MFS05.txt"]
ALPHA = {"MFS06": 4., "MFS07": 32.}
# patterns with versions of their own
CUSTOM = [[r".*MFS(\d\d).*", {"06": 5., "07": .5, "99": 2., "05": .1}], [r"(\w)", {"M": 3., "m": 1.5, "c": 4., "C": .3, "x": 6., "0": 9.}], [r".*(MFS06|MFS07|MFS99|coil).*", {"coil": 2., "MFS06": 8., "mfs06": 1.}]]
LIMITS = [None, None, None, 0., 100., 512., 513, 1e6]
RATES = [512., 512, 511.999, 512.001, 513., 1., 128., 4096., 65536., 0.5, 100., 100.5, 1e6, 2e6]


def tables():
    return st.fixed_dictionaries(dict(
        start=st.floats(-3, 2), steps=st.one_of(*[st.lists(st.floats(1e-3, 1.5), min_size=1, max_size=11)] * 6, st.lists(st.floats(1e-3, .12), min_size=12, max_size=60)),
        modulus=st.lists(st.floats(1e-3, 1e3), min_size=12, max_size=12), phase=st.lists(st.floats(-180, 360), min_size=12, max_size=12),
        head=st.integers(0, 6), comment=st.booleans(), order=st.sampled_from(["up", "up", "up", "down", 1, 2, 3])))


def cases():
    return st.fixed_dictionaries(dict(
        on=tables(), off=tables(), order=st.sampled_from(["on off", "off on", "on off", "off on", "on", "off"]), noise=st.lists(st.integers(0, len(NOISE) - 1), max_size=3), between=st.lists(st.integers(0, len(NOISE) - 1), max_size=2),
        eof=st.sampled_from(["", "\n", "\n\n", "\n\nEND 1 2 3\n"]), crlf=st.booleans(), blank=st.sampled_from(["", "  ", "\t"]), rate=st.one_of(st.sampled_from(RATES), st.floats(.1, 5000)), limit=st.sampled_from(LIMITS),
        name=st.tuples(st.sampled_from(["MFS06", "MFS07", "MFS06", "MFS07", "bad", "unknown"]), st.integers(0, 9)).map(list), where=st.sampled_from(["local", "absolute", "local", "path", "missing", "elsewhere"]),
        alpha=st.sampled_from([None, None, None, {"MFS06": 11.}, {"MFS06": 1., "MFS07": .25, "MFS99": 3.}, {"MFS10": 7., "MFS07": 0.}, {"mfs06": 5., "MFS06": 6.}, {}]),
        pattern=st.sampled_from([None, None, None, None, r".*MFS(\d\d).*", r"(\w)", r".*(MFS06|MFS07|MFS99|coil).*", r"nothing(.*)"]),
        custom=st.sampled_from([None] * 7 + CUSTOM), at=st.lists(st.floats(0, 1), min_size=4, max_size=4), kind=st.sampled_from([float, np.float64]).map(lambda t: t.__name__), replace=st.booleans()))


def table_of(t):
    f = [10 ** t["start"]]
    for s in t["steps"]:
        f.append(f[-1] * 10 ** s)
    n = len(f)
    return [(x, t["modulus"][k % 12], t["phase"][k % 12]) for k, x in enumerate(f)]


def section(kind, t, blank):
    lines = [(ON if kind == "on" else OFF)[t["head"]]]
    if t["comment"]:
        lines.append("# freq  modulus  phase")
    rows = table_of(t)
    if t["order"] == "down":
        rows.reverse()
    elif t["order"] != "up":
        rows = [rows[i] for i in rng(t["order"]).permutation(len(rows))]
    lines += ["%r   %r\t%r" % row for row in rows]
    return lines


def text(case):
    lines = [NOISE[i] for i in case["noise"]]
    parts = case["order"].split()
    for k, kind in enumerate(parts):
        lines += section(kind, case[kind], case["blank"])
        if k + 1 < len(parts):
            lines.append(case["blank"])
            lines += [NOISE[i] for i in case["between"]]
    s = "\n".join(lines) + case["eof"]
    return s.replace("\n", "\r\n") if case["crlf"] else s


def response(f, m, p):
    return f * m * cmath.exp(1j * math.radians(p))


def near(got, want, what):
    ensure(np.shape(got) == (), "%s: shape %s", what, np.shape(got))
    got = complex(got)
    ensure(abs(got - want) <= 1e-9 * abs(want) + 1e-300, "%s: %r, expected %r", what, got, want)


def version_of(name, pattern):
    # the patterns of NAMES, BAD and UNKNOWN, without regular expressions
    base = name.rsplit(".", 1)[0] if "." in name else name
    found = [base[i:i + 5] for i in range(len(base) - 4) if base[i:i + 3] == "MFS" and base[i + 3:i + 5].isdigit()]
    if pattern is None:
        return found[0] if found else None
    if pattern == r".*MFS(\d\d).*":
        return found[0][3:] if found else None
    if pattern == r"(\w)":
        return base[0]
    if pattern == r"nothing(.*)":
        return None
    found = [v for v in ("MFS06", "MFS07", "MFS99", "coil") if v in base]
    return found[0] if found else None


def check(func, table, chopper, alpha, at, kind, what):
    kind = np.float64 if kind == "float64" else float
    z = [response(*row) for row in table]
    fs = [row[0] for row in table]
    for f, v in zip(fs, z):
        near(func(kind(f)), v, f"{what}: at {f}")
    for a in at:
        for k in range(len(fs) - 1):
            f = fs[k] + a * (fs[k + 1] - fs[k])
            if fs[k] <= f <= fs[k + 1]:
                w = (f - fs[k]) / (fs[k + 1] - fs[k])
                want = z[k] + w * (z[k + 1] - z[k])
                got = complex(func(kind(f)))
                ensure(abs(got - want) <= 1e-9 * max(abs(z[k]), abs(z[k + 1])), "%s: at %r (between %r and %r): %r, expected %r", what, f, fs[k], fs[k + 1], got, want)
    for f in [fs[0] * (.01 + .98 * a) for a in at] + [fs[0] * (1 - 1e-9), fs[0] * 1e-6]:
        if chopper:
            near(func(kind(f)), f * table[0][1] * cmath.exp(1j * math.atan2(alpha, f)), f"{what}: at {f}, below {fs[0]}")
        else:
            refuses(f"{what}: {f} below the table", lambda: func(kind(f)))
    for f in (fs[-1] * (1 + 1e-9), fs[-1] * 2, fs[-1] + 1e9):
        refuses(f"{what}: {f} above the table", lambda: func(kind(f)))


def run(case, ctx):
    if case["custom"]:
        case = dict(case, pattern=case["custom"][0], alpha=case["custom"][1])
    group, i = case["name"]
    names = BAD if group == "bad" else UNKNOWN if group == "unknown" else NAMES[group]
    name = names[i % len(names)]
    with scratch() as d:
        os.makedirs(os.path.join(d, "work", "data", "metronix_calibration", "MFS06 dir"))
        os.makedirs(os.path.join(d, "MFS07 other"))
        os.chdir(os.path.join(d, "work"))
        folder = os.path.join(d, "work", "data", "metronix_calibration")
        where = case["where"]
        full = os.path.join(d, "MFS07 other", name) if where in ("absolute", "elsewhere") else os.path.join(folder, "MFS06 dir", name) if where == "path" else os.path.join(folder, name)
        if where != "missing":
            with open(full, "w", newline="") as fd:
                fd.write(text(case))
        arg = dict(local=name, missing=name, elsewhere=name, path=os.path.join("MFS06 dir", name), absolute=full)[where]
        kw = {k: v for k, v in dict(chopper_on_limit=case["limit"], version_pattern=case["pattern"], alpha_map=case["alpha"]).items() if v is not None}
        chopper = case["rate"] <= (512. if case["limit"] is None else case["limit"])
        version = version_of(name, case["pattern"])
        alphas = ALPHA if case["alpha"] is None else case["alpha"]

        def load():
            return metronix(arg, case["rate"], **kw)
        key = "on" if chopper else "off"
        ctx.label("chopper " + key, where)
        if where in ("missing", "elsewhere"):
            refuses("a missing file", load, ValueError)
        elif version is None or version not in alphas:
            refuses(f"no alpha for {name}", load)
            ctx.label("no alpha")
        elif key not in case["order"].split():
            refuses(f"no section {key}", load)
            ctx.label("no section")
        else:
            func = load()
            table = table_of(case[key])
            os.chdir(d)
            os.remove(full)
            check(func, table, chopper, alphas[version], case["at"], case["kind"], "response")
            if case["replace"]:
                # the same file with another content
                os.chdir(os.path.join(d, "work"))
                on, off = case["on"], case["off"]
                case = dict(case, on=off, off=on)
                if key in case["order"].split():
                    with open(full, "w", newline="") as fd:
                        fd.write(text(case))
                    check(load(), table_of(case[key]), chopper, alphas[version], case["at"], case["kind"], "new response")
                    check(func, table, chopper, alphas[version], case["at"][:1], case["kind"], "response after a new loading")
            ctx.nontrivial(case["order"] in ("on off", "off on"))
            ctx.label("response")


# ---------------------------------------------------------------- both sides of the limit

def limit_cases():
    return st.fixed_dictionaries(dict(case=cases(), limit=st.one_of(st.none(), st.sampled_from([0.5, 1., 128., 1000.]), st.floats(.1, 1e5)), ratios=st.lists(st.sampled_from([.5, 1 - 1e-9, 1., 1 + 1e-9, 1.5, 1e-3, 1e3]), min_size=2, max_size=5)))


def run_limit(case, ctx):
    c = dict(case["case"], order="on off" if "on" == case["case"]["order"][:2] else "off on")
    with scratch() as d:
        os.chdir(d)
        p = os.path.join(d, "MFS06.txt")
        with open(p, "w", newline="") as fd:
            fd.write(text(c))
        limit = 512. if case["limit"] is None else case["limit"]
        for k, r in enumerate(case["ratios"]):
            rate = r * limit
            chopper = rate <= limit
            f = metronix(p, rate) if case["limit"] is None else metronix(p, rate, limit) if k % 2 else metronix(p, rate, chopper_on_limit=limit)
            check(f, table_of(c["on" if chopper else "off"]), chopper, 4., c["at"][:2], "float", f"rate {rate}")
            ctx.label("on" if chopper else "off")
        ctx.nontrivial(len({r <= 1 for r in case["ratios"]}) == 2)


SUBS = [
    Sub("response", cases, run, "a response of a file with both sections was checked", quick=900, thorough=50000, qshards=3),
    Sub("limit", limit_cases, run_limit, "both sections used", quick=200, thorough=15000, qshards=2),
]
