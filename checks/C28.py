"""C28: phoenix calibrations give each channel's response at its level."""
import os

import numpy as np
from hypothesis import strategies as st

from checks.C25 import scratch
from rzbv import est
from rzbv.engine import Sub, ensure, refuses
from rzbv.num import rng
from rzbv.sut import rzb  # noqa
from razorback.calibrations import phoenix

freqs = st.one_of(st.sampled_from([1e-4, .001, .25, 1., 3., 10., 320., 10400.]), st.floats(1e-5, 2e4))


def levels(top=6):
    return st.fixed_dictionaries(dict(level=st.integers(0, top), freqs=st.one_of(st.lists(freqs, min_size=2, max_size=10, unique=True), st.lists(freqs, min_size=11, max_size=40, unique=True)), up=st.sampled_from([True, True, False, None])))


def cases(n=(1, 6), nlevels=(1, 4), top=6):
    return st.fixed_dictionaries(dict(
        seed=est.seeds, n=st.integers(*n), levels=st.lists(levels(top), min_size=nlevels[0], max_size=nlevels[1], unique_by=lambda x: x["level"]), mix=st.sampled_from(["grouped", "interleaved", "shuffled"]), heading=st.sampled_from([1, 1, 2]),
        path=st.booleans(), absent=st.integers(0, top + 3), at=st.lists(st.floats(0, 1), min_size=2, max_size=2), extra=st.sampled_from([0, 0, 1, 3]), space=st.sampled_from(["", " ", "  "]), big=st.booleans(),
        ints=st.booleans(), crlf=st.booleans(), real=st.booleans(), empty=st.sampled_from([0, 0, 1, 4])))


def build(case):
    """[(level, {freq: [complex]})], text"""
    r = rng(case["seed"])
    n = case["n"]
    power = 10. ** r.randint(-8, 8)
    tables, rows = [], []
    for lv in case["levels"]:
        fs = sorted(lv["freqs"])
        if lv["up"] is False:
            fs.reverse()
        elif lv["up"] is None:
            fs = [fs[i] for i in r.permutation(len(fs))]
        t = {}
        for f in fs:
            z = r.randn(n) + 1j * r.randn(n)
            if case["real"]:
                z = z.real + 0j
            z = z * power * 10. ** (r.randint(-2, 2) if case["big"] else 0)
            t[f] = z.tolist()
        tables.append((lv["level"], t))
        rows.append([(lv["level"], f, t[f]) for f in fs])
    if case["mix"] == "grouped":
        flat = [x for g in rows for x in g]
    elif case["mix"] == "interleaved":
        flat = [g[k] for k in range(max(map(len, rows))) for g in rows if k < len(g)]
    else:
        flat = [x for g in rows for x in g]
        flat = [flat[i] for i in r.permutation(len(flat))]
    sp = "," + case["space"]
    head = ["2019/01/02", "1234", "MT", str(n)]
    # spreadsheets leave empty cells at the end
    lines = [sp.join(head + [""] * case["empty"])]
    if case["heading"] == 2:
        lines.append(sp.join(["Freq", "Level"] + [x for k in range(n) for x in (f"Re{k}", f"Im{k}")]))
    for lv, f, z in flat:
        cells = [repr(f), str(lv) if case["ints"] else f"{lv}.0"]
        for v in z:
            cells += [repr(v.real), repr(v.imag)]
        cells += ["0"] * case["extra"]
        lines.append(sp.join(cells))
    eol = "\r\n" if case["crlf"] else "\n"
    return tables, eol.join(lines) + eol


def run(case, ctx):
    tables, content = build(case)
    n = case["n"]
    with scratch() as d:
        p = os.path.join(d, "x.cts")
        with open(p, "w", newline="") as fd:
            fd.write(content)
        funcs = {}
        if case["path"]:
            os.chdir(d)
        for lv, t in tables:
            funcs[lv] = phoenix("x.cts" if case["path"] else p, lv)
        absent = case["absent"]
        if absent not in funcs:
            refuses(f"level {absent} absent", lambda: phoenix(p, absent))
            ctx.label("absent level")
        refuses("a missing file", lambda: phoenix(p + "2", tables[0][0]))
        os.remove(p)
        for lv, t in tables:
            ensure(len(funcs[lv]) == n, "%d functions for %d channels", len(funcs[lv]), n)
            fs = sorted(t)
            for c, func in enumerate(funcs[lv]):
                scale = max(abs(z[c]) for z in t.values())
                what = f"channel {c} level {lv}"
                for f in fs:
                    got = func(f)
                    ensure(np.shape(got) == (), "%s: shape %s", what, np.shape(got))
                    ensure(abs(complex(got) - t[f][c]) <= 1e-9 * abs(t[f][c]) + 1e-12 * scale, "%s at %r: %r, expected %r", what, f, got, t[f][c])
                for a in case["at"]:
                    for f0, f1 in zip(fs, fs[1:]):
                        f = f0 + a * (f1 - f0)
                        if f0 <= f <= f1:
                            w = (f - f0) / (f1 - f0)
                            want = t[f0][c] * (1 - w) + t[f1][c] * w
                            tol = max(abs(t[f0][c]), abs(t[f1][c])) * (1e-9 + 4e-16 * f1 / (f1 - f0)) + 1e-12 * scale
                            ensure(abs(complex(func(f)) - want) <= tol, "%s at %r, between %r and %r: %r, expected %r", what, f, f0, f1, func(f), want)
                for f in (fs[0] * (1 - 1e-9), fs[0] / 3, fs[-1] * (1 + 1e-9), fs[-1] * 3, 0.):
                    refuses(f"{what}: {f} outside of {fs[0]} to {fs[-1]}", lambda: func(f))
        ctx.nontrivial(len(tables) > 1 and n > 1)
        ctx.label(f"{len(tables)} levels", f"{case['heading']} heading lines")


SUBS = [Sub("response", cases, run, "several levels and channels", quick=1000, thorough=60000, qshards=4),
        Sub("many", lambda: cases((1, 30), (4, 12), 40), run, "several levels and channels", quick=60, thorough=4000, qshards=2)]
