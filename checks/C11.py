"""C11: Fourier coefficients are the windowed DFT on every full window."""
import math

import numpy as np
from hypothesis import strategies as st

from rzbv.engine import Sub, ensure, refuses
from rzbv.num import rng, dft, close, check_window_params, ceil_options
from rzbv.sut import rzb  # noqa
from razorback.fourier_transform import time_to_freq, slepian_window

DTYPES = ["float64", "float32", "int16", "int32", "int64", "uint8", ">i4", ">f8"]
RATES = [1., 2., 3., 15., 50., 100., 128., 1000., 2400., 65536., .1, 1 / 15.]


def freq_params(nf_min=.004):
    return st.fixed_dictionaries(dict(
        rate=st.sampled_from(RATES),
        nf=st.one_of(*[st.floats(nf_min, .5), st.sampled_from([.5, .25, .1, .05, .125, 1 / 3., .02])] * 6, st.floats(-3.7, -2.4).map(lambda x: nf_min if nf_min > .01 else 10. ** x)),
        nper=st.one_of(st.integers(1, 12), st.sampled_from([.5, 1.5, 2.25])),
        overlap=st.one_of(st.sampled_from([0, 0., .5, .25, .75, .71, .1, .9]), st.floats(0, .95)),
        window=st.sampled_from(["none", "none", "hanning", "ones", "array", "intarray", "slepian", "custom", "signed", "signedarray", "complex"]),
    ))


storages = st.one_of(
    st.sampled_from(DTYPES).map(lambda d: ["array", d]),
    st.just(["list"]),
    st.just(["strided"]),
    st.just(["readonly"]),
    st.lists(st.integers(1, 40), min_size=1, max_size=6).map(lambda c: ["dask", c]),
)


@st.composite
def call_lists(draw):
    "some calls differ by one thing, perhaps little, from an earlier one"
    calls = draw(st.lists(freq_params(), min_size=1, max_size=3))
    for _ in range(draw(st.integers(0, 2))):
        c = dict(draw(st.sampled_from(calls)))
        key = draw(st.sampled_from(["nf", "nf", "rate", "nper", "overlap", "window"]))
        if key == "nf":
            c["nf"] *= 1 - draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7]))
        else:
            c[key] = draw(freq_params())[key]
        calls.append(c)
    return calls


@st.composite
def cases(draw):
    calls = draw(call_lists())
    # size: from too short to many windows, in units of the window length of the first call
    nser = draw(st.integers(1, 4))
    return dict(calls=calls, size=draw(st.sampled_from([.5, .99, 1, 1.5, 2, 2.1, 3, 3.7, 5, 6, 10, 20])),
                extra=draw(st.integers(-2, 3)), levels=draw(st.lists(st.sampled_from(["plain", "plain", "large", "offset"]), min_size=nser, max_size=nser)), series=[draw(storages) for _ in range(nser)],
                seed=draw(st.integers(0, 10 ** 6)), lazy=draw(st.booleans()), again=draw(st.booleans()))


def store(y, how):
    kind = how[0]
    if kind == "array":
        return y.astype(how[1])
    if kind == "list":
        return y.tolist()
    if kind == "strided":
        return np.repeat(y, 3)[::3]
    if kind == "readonly":
        y = y.copy()
        y.flags.writeable = False
        return y
    import dask.array as da
    chunks, left, i = [], len(y), 0
    while left:
        c = min(left, how[1][i % len(how[1])] * (1 + len(y) // 4000))
        chunks.append(c)
        left -= c
        i += 1
    return da.from_array(y, chunks=(tuple(chunks),))


def make_window(name, L, seed):
    "(what is given, its values)"
    if name == "none":
        return None, None
    if name == "hanning":
        return np.hanning, np.hanning(L)
    if name == "ones":
        return np.ones, np.ones(L)
    if name == "array":
        w = rng(seed + 5).rand(L) + .1
        return w, w.copy()
    if name == "signed":
        return (lambda n: np.cos(7. * np.arange(n) / n)), np.cos(7. * np.arange(L) / L)
    if name == "signedarray":
        w = rng(seed + 6).randn(L)
        return w, w.copy()
    if name == "complex":
        w = rng(seed + 7).randn(L) + 1j * rng(seed + 8).randn(L)
        return w, w.copy()
    if name == "intarray":
        w = np.arange(L) % 5 + 1
        return w, w.copy()
    if name == "slepian":
        if L <= 12:
            return np.bartlett, np.bartlett(L)
        w = slepian_window(4)
        return w, np.array(w(L))
    return (lambda n: 1. / (1 + np.arange(n))), 1. / (1 + np.arange(L))


def run(case, ctx):
    first = case["calls"][0]
    L0 = math.ceil(first["nper"] / first["nf"])
    size = max(1, int(case["size"] * L0) + case["extra"])
    seed = case["seed"]
    values, given = [], []
    for i, how in enumerate(case["series"]):
        y = rng(seed + i).randn(size) * 50 + 3 * i
        if how[0] != "array" or how[1] not in ("uint8", "int16"):
            # as in raw counts of recorders
            y = {"large": 1e7 * y, "offset": y + 3e6}.get(case["levels"][i], y)
        y = np.clip(y, -2e9, 2e9)
        if how[0] == "array" and how[1] != "float64":
            if how[1] == "uint8":
                y = np.minimum(np.abs(y), 255)
            y = np.floor(y) if "f" not in how[1] else y.astype(how[1]).astype(float)
        values.append(y.astype(float))
        given.append(store(y, how))
    calls = case["calls"] + (case["calls"][:1] if case["again"] else [])
    for c in calls:
        rate, nper, overlap = c["rate"], c["nper"], c["overlap"]
        freq = c["nf"] * rate
        nf = freq / rate
        if nf > .5:
            continue
        Ls = ceil_options(nper / nf)
        if len(Ls) > 1 and c["window"] in ("array", "intarray", "signedarray", "complex"):
            continue
        L = math.ceil(nper / nf)
        if int(L * (1 - overlap) * (1 - 1e-9)) < 1:
            continue  # windows do not move: not specified
        if L > 3000 and size / max(1, int(L * (1 - overlap))) * L > 5e6:
            continue  # too long
        win, wval = make_window(c["window"], L, seed)
        call = lambda **kw: time_to_freq(given, rate, freq, nper, overlap, win, **kw)
        if size < min(Ls):
            refuses(f"size {size} for windows of {L}", call, ValueError)
            ctx.label("too short")
            continue
        try:
            res, (nw, lw, shift) = call(compute=False) if case["lazy"] else call()
        except ValueError:
            ensure(size < max(Ls) + L * (1 - overlap) + 1, "size %s refused for windows of %s, overlap %s", size, L, overlap)
            ctx.label("hardly one window")
            continue
        check_window_params(nw, lw, shift, size, nf, nper, overlap, f"call {c}")
        if wval is not None and len(wval) != lw:
            continue
        ensure(len(res) == len(values), "%s series, expected %s", len(res), len(values))
        for i, (r, y) in enumerate(zip(res, values)):
            if case["lazy"]:
                r = r.compute()
            exp = dft(y, nf, lw, shift, wval)
            close(np.asarray(r), exp, 1e-9, 1e-9 * (np.abs(y).max() + 1), f"series {i} ({case['series'][i]})")
        if wval is not None and not callable(win):
            ensure(np.array_equal(win, wval), "the window array was modified")
        ctx.nontrivial(nw > 1)
        ctx.label("window " + c["window"])
        if shift < lw:
            ctx.label("overlapping")
        if case["lazy"]:
            ctx.label("lazy")
    for g, y, how in zip(given, values, case["series"]):
        ensure(np.array_equal(np.asarray(g, dtype=float), y), "the data were modified")
        ctx.label(how[0])


# ---------------------------------------------------------------- refusals

@st.composite
def bads(draw):
    return dict(p=draw(freq_params(.05)), kind=draw(st.sampled_from(["lengths", "freq0", "freqneg", "nyquist", "window", "short", "overlap"])),
                n=draw(st.integers(200, 300)), x=draw(st.floats(1e-6, 3)), d=draw(st.integers(1, 5)), neg=draw(st.booleans()))


def run_bad(case, ctx):
    c, n, kind = case["p"], case["n"], case["kind"]
    rate, nper = c["rate"], c["nper"]
    freq = c["nf"] * rate
    if freq / rate > .5:
        freq = .4 * rate
    overlap = min(c["overlap"], .5)
    window = None
    y = [np.arange(float(n)), np.ones(n)]
    if kind == "lengths":
        y[int(case["neg"])] = np.ones(n + (case["d"] if case["n"] % 2 else -case["d"]))
    elif kind == "freq0":
        freq = 0.
    elif kind == "freqneg":
        freq = -freq
    elif kind == "nyquist":
        freq = rate * .5 * (1 + case["x"])
    elif kind == "window":
        L = math.ceil(nper / (freq / rate))
        window = np.ones(max(0, L + 1 + case["d"] if case["neg"] else L - 1 - case["d"]))
        if not len(window):
            return
    elif kind == "short":
        L = math.ceil(nper / (freq / rate))
        if L < 3:
            return
        m = max(1, L - 1 - case["d"])
        y = [e[:m] for e in y]
        if len(y[0]) >= L:
            return
    elif kind == "overlap":
        overlap = 1 + case["x"] if case["neg"] else -case["x"]
    refuses(kind, lambda: time_to_freq(y, rate, freq, nper, overlap, window))
    ctx.nontrivial()
    ctx.label(kind)


SUBS = [
    Sub("dft", cases, run, "at least two windows", quick=500, thorough=20000, qshards=2),
    Sub("refused", bads, run_bad, "an invalid call was made", quick=200, thorough=6000),
]
