"""C05: time extraction keeps exactly the samples inside (or outside) the interval."""
from fractions import Fraction as F

from hypothesis import strategies as st

from rzbv import wide
from rzbv.engine import Sub, ensure, refuses
from rzbv.model import (Builder, MSet, MRun, Inventory, Snapshot, bases, build, check_set, check_run_frame, real_content,
                        content, set_descs, run_descs, STORAGES, Base)

# a bound: [run number, sample number, quarters of a sampling period]
bound = st.tuples(st.integers(0, 5), st.integers(-2, 8), st.sampled_from([0, 0, 0, 1, 2, 3])).map(list)


@st.composite
def set_cases(draw):
    return dict(base=draw(bases()), set=draw(set_descs(min_runs=0, min_n=1, gaps=[4, 4, 4, 1, 2, 3, 8, 40, 4 * 86400, 4 * 1000003])),
                steps=draw(st.lists(st.tuples(bound, bound, st.booleans(), st.integers(0, 4)).map(list), min_size=1, max_size=3)))


def instant(m, b, base):
    if not m.runs:
        return F(b[1])
    r = m.runs[b[0] % len(m.runs)]
    # counted from the end for one bound out of two
    k = b[1] if b[0] % 2 else r.size - 1 - b[1]
    return r.start + (k + F(b[2], 4)) / r.rate


def run_set(case, ctx):
    b = Builder(case["base"])
    real, m = build(b, case["set"])
    first, fm = real, m
    snap = Snapshot(real)
    for s, e, exclude, order in case["steps"]:
        start, stop = b.base.settle(instant(fm, s, b.base), fm), b.base.settle(instant(fm, e, b.base), fm)
        if start is None or stop is None:
            continue
        if order:
            start, stop = sorted([start, stop])
        if exclude and (stop < start or start == stop and not b.base.dyadic):
            start, stop = stop, start
            if start == stop:
                exclude = False
        before = m
        m = m.extract_t(start, stop, exclude)
        real = real.extract_t(b.base.time(start), b.base.time(stop), exclude)
        what = f"extract_t({b.base.time(start)}, {b.base.time(stop)}, {exclude})"
        check_set(real, m, b.base, what)
        check_set(real.extract_t(b.base.time(start), b.base.time(stop), exclude), m, b.base, what + " twice")
        kept = sum(r.size for r in m.runs)
        ctx.nontrivial(0 < kept < sum(r.size for r in before.runs))
        ctx.label("exclude" if exclude else "include")
        if start > stop:
            ctx.label("reversed")
        if len(m.runs) > 1:
            ctx.label("several runs kept")
    snap.check("extraction")


def expand(r, c):
    d = wide.set_desc(r, c["runs"], c["nch"], 3, min_n=1, max_n=c["n"], gaps=[4, 4, 4, 1, 2, 3, 8, 40, 4 * 86400])

    def bound():
        return [int(r.randint(c["runs"])), int(r.randint(-2, c["n"])), wide.pick(r, [0, 0, 1, 2, 3])]
    return dict(base=wide.base(r), set=d, steps=[[bound(), bound(), bool(r.randint(2)), int(r.randint(5))] for _ in range(c["steps"])])


def run_lossless(case, ctx):
    "extracting the own intervals of a set, as the set gives them"
    b = Builder(case["base"])
    real, m = build(b, case["set"])
    if not m.runs:
        return
    for i, (start, stop) in enumerate(real.intervals):
        if m.runs[i].size < 2:
            continue
        part = real.extract_t(start, stop)
        # runs touching this one have a single sample in the interval
        check_set(part, m.select_runs([i]), b.base, "own interval %d" % i)
        sig = real.signals[i].extract_t(start, stop, strict=True)
        check_run_frame(sig, m.runs[i], b.base, "strict, own interval")
        k = m.runs[i].size // 2
        t = real.signals[i].start + k / real.signals[i].sampling_rate
        # cutting at a sample: both parts have it
        left, right = real.signals[i].extract_t(start, t), real.signals[i].extract_t(t, stop)
        check_run_frame(left, m.runs[i].slice(0, k + 1), b.base, "left of a sample")
        check_run_frame(right, m.runs[i].slice(k, m.runs[i].size), b.base, "right of a sample")
        ctx.nontrivial()
    whole = real.extract_t(real.starts.min(), real.stops.max())
    check_set(whole, m.select_runs([i for i, r in enumerate(m.runs) if r.size > 1]), b.base, "whole interval")


# ---------------------------------------------------------------- SyncSignal

@st.composite
def sync_cases(draw):
    big = draw(st.integers(0, 9)) == 0
    n = draw(st.integers(1000, 100000)) if big else draw(st.integers(1, 20))
    k = st.integers(0, n - 1) if big else st.integers(-4, n + 3)
    kb = st.tuples(k, st.sampled_from([0, 0, 0, 1, 2, 3])).map(list)
    return dict(base=draw(bases(max_rates=1)), n=n, nch=1 if big else draw(st.integers(1, 3)),
                off=draw(st.sampled_from([0, 1, 17, 86400 * 365, 10 ** 7 + 3])),
                storage=draw(st.sampled_from(STORAGES)), start=draw(kb), stop=draw(kb), strict=draw(st.booleans()),
                cal=draw(st.integers(0, 2)))


def run_sync(case, ctx):
    b = Builder(case["base"])
    rate = b.base.rates[0]
    r = b.mrun(rate, F(case["off"]) / rate, case["n"], case["nch"], case["cal"])
    sig = b.real_run(r, case["storage"])
    check_run_frame(sig, r, b.base, "signal")
    t = [r.start + (k + F(q, 4)) / rate for k, q in (case["start"], case["stop"])]
    ft = [b.base.time(e) for e in t]
    inside = [r.start <= e <= r.stop for e in t]
    if case["strict"]:
        if all(inside):
            # on the limits: the very values given by the signal
            ft = [sig.start if e == r.start else sig.stop if e == r.stop else x for e, x in zip(t, ft)]
        elif any(e < r.start - F(1, 8) / rate or e > r.stop + F(1, 8) / rate for e in t):
            refuses(f"strict extraction {t}", lambda: sig.extract_t(*ft, strict=True))
            ctx.nontrivial()
            ctx.label("strict refused")
            return
        else:
            return
    elif max(t) < r.start or min(t) > r.stop or t[0] > t[1] and not all(inside):
        return  # not specified for a single synchronous signal
    res = sig.extract_t(*ft, strict=case["strict"])
    exp = r.extract(*t) if t[0] <= t[1] else None
    if exp is None:
        ensure(res.size == 0, "no sample in the interval but %s kept", res.size)
        ctx.label("nothing inside", "reversed" if t[0] > t[1] else "between samples")
        return
    check_run_frame(res, exp, b.base, "extract_t")
    for c in range(case["nch"]):
        ensure(real_content(res, c) == content(exp, c), "channel %s: not the samples of the interval", c)
    ctx.nontrivial(exp.size < r.size)
    ctx.label("strict" if case["strict"] else "not strict")


@st.composite
def fast_cases(draw):
    "high sampling rates at POSIX times: quarters of a period are exact doubles, few float spacings long"
    case = draw(sync_cases())
    case["base"] = dict(dyadic=True, rates=[draw(st.sampled_from(["65536", "262144", "524288"]))],
                        t0=draw(st.sampled_from(["1500000000", "1234567890.25", "0.125", "-20"])))
    case["strict"] = False
    return case


# ---------------------------------------------------------------- sample numbers

@st.composite
def index_cases(draw):
    n = draw(st.integers(1, 20))
    k = st.one_of(st.none(), st.integers(0, n), st.integers(-2, n + 3))
    return dict(base=draw(bases(max_rates=1)), n=n, nch=draw(st.integers(1, 3)), off=draw(st.sampled_from([0, 1, 17, 86400 * 365])),
                storage=draw(st.sampled_from(STORAGES)), i=draw(k), j=draw(k), strict=draw(st.sampled_from([True, True, False])),
                last=draw(st.booleans()), cal=draw(st.integers(0, 2)))


def run_index(case, ctx):
    "samples i to j (not included, or included) of a synchronous signal"
    b = Builder(case["base"])
    rate, n, i, j = b.base.rates[0], case["n"], case["i"], case["j"]
    r = b.mrun(rate, F(case["off"]) / rate, n, case["nch"], case["cal"])
    sig = b.real_run(r, case["storage"])
    a = 0 if i is None else i
    e = n if j is None else j + case["last"]
    what = f"extract_i({i}, {j}, {case['strict']}, {case['last']}) of {n} samples"
    call = lambda: sig.extract_i(i, j, strict=case["strict"], include_last=case["last"])
    if not (0 <= a < n and 0 <= e <= n):
        if case["strict"] and not (j is not None and j < 0 <= e):
            refuses(what, call)
            ctx.label("refused")
            ctx.nontrivial()
        return
    res = call()
    if e <= a:
        ensure(res.size == 0, "%s: %s samples", what, res.size)
        return
    exp = r.slice(a, e)
    check_run_frame(res, exp, b.base, what)
    for c in range(case["nch"]):
        ensure(real_content(res, c) == content(exp, c), "%s: channel %s: not the samples", what, c)
    ctx.nontrivial(exp.size < n)


# ---------------------------------------------------------------- Inventory

@st.composite
def inv_cases(draw):
    return dict(base=draw(bases()), sets=draw(st.lists(set_descs(max_runs=4, max_ch=2), max_size=4)),
                start=draw(bound), stop=draw(bound), exclude=draw(st.booleans()))


def run_inv(case, ctx):
    b = Builder(case["base"])
    pairs = [build(b, d) for d in case["sets"]]
    ref = max((m for _, m in pairs), key=lambda m: len(m.runs), default=MSet(1, {}, []))
    bounds = [b.base.settle(instant(ref, case[k], b.base), *(m for _, m in pairs)) for k in ("start", "stop")]
    if None in bounds:
        return
    start, stop = sorted(bounds)
    exclude = case["exclude"] and start < stop
    inv = Inventory([r for r, _ in pairs])
    res = inv.extract_t(b.base.time(start), b.base.time(stop), exclude)
    exp = [m.extract_t(start, stop, exclude) for _, m in pairs]
    exp = [m for m in exp if m.runs]
    ensure(len(res) == len(exp), "%s elements left, expected %s", len(res), len(exp))
    for r, m in zip(res, exp):
        check_set(r, m, b.base, "element of the inventory")
    ensure([id(r) for r in inv] == [id(r) for r, _ in pairs], "the inventory changed")
    ctx.nontrivial(0 < len(exp))
    if len(exp) < len(pairs):
        ctx.label("elements dropped")


SUBS = [
    Sub("set", set_cases, run_set, "some but not all samples are kept", quick=500, thorough=24000, qshards=2),
    Sub("wide", lambda: wide.sizes(runs=(1, 60), nch=(1, 10), n=(2, 60), steps=(1, 3)), wide.wide(expand, run_set), "some but not all samples are kept", quick=60, thorough=2000),
    Sub("lossless", set_cases, run_lossless, "at least one run of two samples", quick=300, thorough=12000),
    Sub("sync", sync_cases, run_sync, "some samples are left out, or bounds refused", quick=600, thorough=24000),
    Sub("fast", fast_cases, run_sync, "some samples are left out", quick=200, thorough=6000),
    Sub("index", index_cases, run_index, "some samples are left out, or bounds refused", quick=200, thorough=6000),
    Sub("inventory", inv_cases, run_inv, "at least one element is left", quick=200, thorough=6000),
]
