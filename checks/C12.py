"""C12: signal set spectra are calibrated and follow runs in order."""
import os
import tempfile
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from rzbv import model, wide
from rzbv.engine import Sub, ensure, refuses
from rzbv.model import Builder, MSet, MRun, bases, cal_value, set_descs, build, layout, run_descs, tag_dicts
from rzbv.num import rng, dft, close, check_window_params
from razorback.io.binary_file_array import BinaryFileArray_1D, to_dask_array

GAPS = [4, 4, 1, 3, 8, 40]


def noisy(m, seed):
    "model set with random samples instead of sample numbers (same calibrations)"
    runs = []
    for i, r in enumerate(m.runs):
        g = rng(seed + i)
        runs.append(MRun(r.rate, r.start, [g.randint(-1000, 1000, r.size).astype(float) for _ in r.data], r.cals))
    return MSet(m.nch, m.tags, runs)


def expected(m, freq, nper, overlap, w):
    """{channel: coefficients}, [(Nw, L, shift)]; None where not specified"""
    params, out = [], [[] for _ in range(m.nch)]
    for r in m.runs:
        nf = freq / float(r.rate)
        L = int(np.ceil(nper / nf))
        shift = int(L * (1 - overlap))
        params.append(((r.size - L) // shift + 1, L, shift))
        for c in range(m.nch):
            win = None if w is None else w(L)
            out[c].append(dft(r.data[c], nf, L, shift, win) / cal_value(r.cals[c], freq))
    return [np.hstack(o) for o in out], params


def processable(m, freq, nper, overlap):
    for r in m.runs:
        nf = freq / float(r.rate)
        if not 1e-6 < nf <= .5:
            return False
        x = nper / nf
        L = int(np.ceil(x))
        s = L * (1 - overlap)
        if abs(x - round(x)) < 1e-6 and L != round(x) or abs(s - round(s)) < 1e-6 and int(s) != round(s):
            return False
        if int(s) < 1 or r.size < L + int(s):
            return False
    return bool(m.runs)


def compare(real, m, args, what):
    freq, nper, overlap, w = args
    exp, params = expected(m, freq, nper, overlap, w)
    got, (nw, lw, sh) = real.fourier_coefficients(freq, nper, overlap, w)
    ensure(list(zip(nw, lw, sh)) == params, "%s: windows %s, expected %s", what, list(zip(nw, lw, sh)), params)
    ensure(len(got) == m.nch, "%s: %s channels, expected %s", what, len(got), m.nch)
    for c in range(m.nch):
        close(np.asarray(got[c]), exp[c], 1e-8, 1e-7, f"{what}: channel {c}")
    for i, (s, r) in enumerate(zip(real.signals, m.runs)):
        got, par = s.fourier_coefficients(freq, nper, overlap, w)
        ensure(tuple(par) == params[i], "%s: run %s: windows %s, expected %s", what, i, par, params[i])
        lo = sum(p[0] for p in params[:i])
        for c in range(m.nch):
            close(np.asarray(got[c]), exp[c][lo:lo + par[0]], 1e-8, 1e-7, f"{what}: run {i} channel {c}")


@st.composite
def cases(draw):
    dyadic = draw(st.booleans())
    rates = [["1", "2"], ["256", "1024"], ["16"]] if dyadic else [["10", "15"], ["50", "100"], ["1000", "2400"], ["3"]]
    base = dict(dyadic=dyadic, rates=draw(st.permutations(draw(st.sampled_from(rates)))), t0=draw(st.sampled_from(["0", "5", "1500000000"])))
    d = draw(set_descs(min_runs=1, max_runs=4, min_n=60, max_n=160, max_ch=4, max_rate=1, gaps=GAPS))
    d["storage"] = draw(st.sampled_from(["array", "list", "2d", "int"] * 3 + ["dask"]))
    return dict(base=base, set=d, seed=draw(st.integers(0, 10 ** 6)), nf=draw(st.floats(.08, .5)), nper=draw(st.integers(1, 3)),
                overlap=draw(st.sampled_from([0, .5, .71, .25])), win=draw(st.sampled_from([None, "hanning", "bartlett"])),
                ops=draw(st.lists(st.tuples(st.sampled_from(["channels", "runs", "extract", "mcr", "join", "merge", "pack", "first"]), st.integers(0, 63),
                                            st.integers(0, 63)).map(list), max_size=3)),
                freqs=draw(st.lists(st.floats(.08, .5), max_size=1)))


def apply(real, m, o, b):
    name, x, y = o
    if name == "channels":
        idx = [i for i in range(m.nch) if x >> i & 1] or [m.nch - 1]
        return real.select_channels(idx), m.select_channels(idx), True
    if name == "runs":
        idx = [i for i in range(len(m.runs)) if x >> i & 1] or [len(m.runs) - 1]
        return real.select_runs(idx), m.select_runs(idx), True
    if name == "first":
        return real.select_runs(0), m.select_runs([0]), True
    if name == "extract":
        r = m.runs[x % len(m.runs)]
        start, stop = b.base.settle(r.start + F(y % 5) / r.rate, m), m.runs[-1].stop
        if start is None:
            return real, m, False
        return real.extract_t(b.base.time(start), b.base.time(stop)), m.extract_t(start, stop), True
    if name == "mcr":
        return real.merge_consecutive_runs(), m.merge_consecutive(), True
    if any(z.start <= a.stop for a, z in zip(m.runs, m.runs[1:])) or not m.tags:
        return real, m, True
    if name == "join":
        k = x % (len(m.runs) + 1)
        lo, hi = list(range(k)), list(range(k, len(m.runs)))
        return real.select_runs(np.array(hi, dtype=int)) | real.select_runs(np.array(lo, dtype=int)), m, True
    if name == "merge" and m.nch > 1:
        # the two halves are merged again in the other order
        k = 1 + x % (m.nch - 1)
        lo, hi = list(range(k)), list(range(k, m.nch))
        a, z = m.select_channels(hi), m.select_channels(lo)
        if any(r.size < 2 for r in m.runs):
            return real, m, True
        return real.select_channels(hi) & real.select_channels(lo), model.merge([a, z]), False
    if name == "pack":
        inv = model.Inventory([real.select_runs(i) for i in range(len(m.runs))])
        e = model.pack_sites([m])
        return inv.pack(), e, False
    return real, m, True


def run(case, ctx):
    b = Builder(case["base"])
    _, m = build(b, case["set"])
    m = noisy(m, case["seed"])
    real = b.real(m, case["set"]["storage"])
    for o in case["ops"]:
        real, m, exact = apply(real, m, o, b)
        if not m.runs:
            return
        if not exact:
            m = model.check_tagged(real, m, b.base, o[0])
        ctx.label(o[0])
    win = {None: None, "hanning": np.hanning, "bartlett": np.bartlett}[case["win"]]
    lowest = min(float(r.rate) for r in m.runs)
    first = True
    for nf in [case["nf"]] + case["freqs"] + [case["nf"]]:
        args = nf * lowest, case["nper"], case["overlap"], win
        if not processable(m, *args[:3]):
            ctx.label("not processable")
            continue
        compare(real, m, args, f"after {case['ops']}")
        kinds = {c and c[0] for r in m.runs for c in r.cals}
        ctx.nontrivial(len(m.runs) > 1 and m.nch > 1 and kinds != {None})
        if len({r.rate for r in m.runs}) > 1:
            ctx.label("several rates")
        if 2 in kinds:
            ctx.label("frequency dependent calibration")


def expand(r, c):
    """many runs and channels"""
    rates = wide.pick(r, [["1", "2"], ["256", "1024"], ["16"], ["10", "15"], ["50", "100"], ["1000", "2400"], ["3"]])
    base = dict(dyadic="1" in rates or "256" in rates or "16" in rates, rates=[rates[i] for i in r.permutation(len(rates))], t0=wide.pick(r, ["0", "5", "1500000000"]))
    d = wide.set_desc(r, c["runs"], c["nch"], c["groups"], min_n=60, max_n=160, gaps=GAPS, max_rate=1)
    d["storage"] = wide.pick(r, ["array", "list", "2d", "int"])
    ops = [[wide.pick(r, ["channels", "runs", "extract", "mcr", "join", "merge", "pack"]), int(r.randint(2 ** 30)), int(r.randint(64))] for _ in range(c["ops"])]
    return dict(base=base, set=d, seed=c["seed"], nf=r.uniform(.08, .5), nper=int(r.randint(1, 4)), overlap=wide.pick(r, [0, .5, .71, .25]), win=wide.pick(r, [None, "hanning", "bartlett"]), ops=ops, freqs=[r.uniform(.08, .5)])


# ---------------------------------------------------------------- runs too short for a window

@st.composite
def short_cases(draw):
    d = draw(set_descs(min_runs=1, max_runs=4, min_n=1, max_n=30, max_ch=3, max_rate=1, gaps=GAPS))
    return dict(base=draw(bases(max_rates=2)), set=d, long=draw(st.integers(0, 5)), nf=draw(st.floats(.1, .5)), nper=draw(st.integers(1, 4)), overlap=draw(st.sampled_from([0, .5, .71])))


def run_short(case, ctx):
    "a run without any window is never forgotten: refused, or described like the others"
    b = Builder(case["base"])
    d = case["set"]
    for k, r in enumerate(d["runs"]):
        if k != case["long"] % len(d["runs"]) or case["long"] > 3:
            r["n"] += 60
    real, m = build(b, d)
    freq = case["nf"] * min(float(r.rate) for r in m.runs)
    Ls = [case["nper"] * float(r.rate) / freq for r in m.runs]
    if min(L * (1 - case["overlap"]) for L in Ls) < 1.01:
        return
    short = [r.size < L - .5 for r, L in zip(m.runs, Ls)]
    args = freq, case["nper"], case["overlap"], None
    for s, x in zip(real.signals, short):
        if x:
            refuses("a signal too short", lambda: s.fourier_coefficients(*args), ValueError)
    if any(short):
        try:
            got, (nw, lw, sh) = real.fourier_coefficients(*args)
        except Exception:
            ctx.label("refused")
        else:
            ensure(len(nw) == len(lw) == len(sh) == len(m.runs), "windows %s %s %s for %s runs", nw, lw, sh, len(m.runs))
            for k, (s, x) in enumerate(zip(real.signals, short)):
                ensure(nw[k] == (0 if x else s.fourier_coefficients(*args)[1][0]), "windows %s", nw)
            ensure(all(len(g) == sum(nw) for g in got), "windows %s but %s coefficients", nw, len(got[0]))
        ctx.nontrivial()


# ---------------------------------------------------------------- files

@st.composite
def file_cases(draw):
    return dict(n=draw(st.integers(20, 400)), nch=draw(st.integers(1, 3)), dtype=draw(st.sampled_from(["<i4", "<f8", ">i2", "<f4"])),
                offset=draw(st.integers(0, 33)), seed=draw(st.integers(0, 10 ** 6)), scale=draw(st.sampled_from([1, .25, 3e-3])),
                nf=draw(st.floats(.03, .5)), nper=draw(st.integers(1, 4)), overlap=draw(st.sampled_from([0, .5, .71])),
                cal=draw(st.sampled_from([0, 1, 2])), shared=draw(st.sampled_from([1, 1, 2, 3])), chunk=draw(st.sampled_from(["16B", "100B", "1kB", "10MiB"])), cut=draw(st.integers(0, 8)))


def run_files(case, ctx):
    import dask
    n, nf = case["n"], case["nf"]
    L = int(np.ceil(case["nper"] / nf))
    a = case["cut"]
    if int(L * (1 - case["overlap"])) < 1 or n - a < 2 * L:
        return
    with tempfile.TemporaryDirectory(prefix="rzbv-") as tmp, dask.config.set({"array.chunk-size": case["chunk"]}):
        mem, lazy = [], []
        for c in range(case["nch"]):
            v = rng(case["seed"] + c).randint(-3000, 3000, n).astype(case["dtype"])
            path = os.path.join(tmp, "ch%d" % c)
            with open(path, "wb") as f:
                f.write(b"\x55" * case["offset"] + v.tobytes() + b"trailing")
            mem.append(v.astype(float) * case["scale"])
            lazy.append(to_dask_array(BinaryFileArray_1D(path, case["offset"], n, case["dtype"])).astype(float) * case["scale"])
        cals = [(case["cal"], 3, c // case["shared"]) if case["cal"] else None for c in range(case["nch"])]
        make = lambda d: model.SyncSignal(d, 10., 5., [model.cal_make(c) for c in cals])
        x, y = make(mem), make(lazy)
        if a:
            x, y = x.extract_i(a, None), y.extract_i(a, None)
        args = nf * 10., case["nper"], case["overlap"], np.hanning
        cx, px = x.fourier_coefficients(*args)
        cy, py = y.fourier_coefficients(*args)
        ensure(px == py, "windows %s for files, %s in memory", py, px)
        for c in range(case["nch"]):
            close(np.asarray(cy[c]), np.asarray(cx[c]), 1e-9, 1e-9, f"channel {c} from file")
            exp = dft(mem[c][a:], nf, px[1], px[2], np.hanning(px[1])) / model.cal_value(cals[c], args[0])
            close(np.asarray(cy[c]), exp, 1e-8, 1e-7, f"channel {c} from definition")
        ctx.nontrivial(px[0] > 1)
        ctx.label("chunk " + case["chunk"])


SUBS = [
    Sub("spectra", cases, run, "several runs and channels with calibrations", quick=300, thorough=12000, qshards=4),
    Sub("wide", lambda: wide.sizes(runs=(1, 20), nch=(1, 20), groups=(0, 6), ops=(0, 3)), wide.wide(expand, run), "several runs and channels with calibrations", quick=40, thorough=1500, qshards=2),
    Sub("short", short_cases, run_short, "some run is too short", quick=100, thorough=2000),
    Sub("files", file_cases, run_files, "at least two windows", quick=100, thorough=3000),
]
