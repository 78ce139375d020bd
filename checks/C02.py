"""C02: merging signal sets keeps exactly their common time, aligned."""
from hypothesis import strategies as st

from rzbv import model, wide
from rzbv.engine import Sub, ensure, refuses
from rzbv.model import (Builder, MSet, MRun, Snapshot, bases, check_tagged, check_frame, layout, run_descs,
                        NAMES, STORAGES, REFUSED, UNSPECIFIED, F)

ALIGNED = [4, 4, 4, 8, 12, 40, 4 * 777, 4 * 86400, 4 * 1000003]


@st.composite
def operand_descs(draw, nslots, names, shifts):
    nch = draw(st.integers(1, 3))
    tags = []
    for c in range(nch):
        if draw(st.integers(0, 5)):
            tags.append([names.pop(), [c]])
    if draw(st.booleans()):
        tags.append([names.pop(), draw(st.lists(st.integers(0, nch - 1), min_size=1, max_size=nch, unique=True))])
    slots = [draw(st.fixed_dictionaries(dict(
        cuts=st.one_of(st.just([0, 99]), st.lists(st.integers(0, 12), max_size=6)),
        rate=st.sampled_from([0] * 4 + [1]),
        shift=st.sampled_from(shifts),
        cal=st.sampled_from([0, 1, 2, 2]),
    ))) for _ in range(nslots)]
    return dict(nch=nch, tags=tags, slots=slots)


@st.composite
def families(draw, shifts=(0,)):
    base = draw(bases())
    nslots = draw(st.integers(1, 4))
    runs = draw(run_descs(nslots, nslots, min_n=3, max_n=12, gaps=ALIGNED))
    names = list(draw(st.permutations(NAMES + ["t%d" % i for i in range(10)])))
    nop = draw(st.integers(2, 4))
    ops = [draw(operand_descs(nslots, names, list(shifts))) for _ in range(nop)]
    return dict(base=base, runs=runs, ops=ops, storage=draw(st.sampled_from(STORAGES)),
                order=draw(st.permutations(range(nop))),
                form=draw(st.sampled_from(["merge", "left", "right", "balanced"])))


def make_operand(b, d, frame):
    "model set recording some parts of the frame (a list of MRun)"
    runs = []
    for f, s in zip(frame, d["slots"]):
        rate = f.rate
        n = f.size
        if s["rate"]:  # another sampling rate in this slot
            others = [r for r in b.base.rates if r != rate]
            if others:
                rate = others[0]
                n = int(F(n - 1) / f.rate * rate) + 1
                if n < 2 or n > 5000:
                    continue
        start = f.start
        cuts = sorted(min(c, n) for c in s["cuts"])
        shift = F(s["shift"]) / (4 * rate)
        if s["shift"]:
            cuts = [0, max(1, n - 1)]  # stays in its slot
        for a, z in zip(cuts[::2], cuts[1::2]):
            if z > a:
                runs.append(b.mrun(rate, start + shift + F(a) / rate, z - a, d["nch"], s["cal"]))
    return MSet(d["nch"], {k: v for k, v in d["tags"]}, runs)


def setup(case):
    b = Builder(case["base"])
    frame = layout(b, case["runs"], 1)
    ms = [make_operand(b, d, frame) for d in case["ops"]]
    return b, [ms[i] for i in case["order"]]


def merged(form, reals):
    if form == "merge" or len(reals) < 3 and form == "balanced":
        return reals[0].merge(*reals[1:])
    if form == "right":
        res = reals[-1]
        for r in reversed(reals[:-1]):
            res = r & res
        return res
    if form == "balanced":
        h = len(reals) // 2
        left, right = reals[0], reals[h]
        for r in reals[1:h]:
            left = left & r
        for r in reals[h + 1:]:
            right = right & r
        return left & right
    res = reals[0]
    for r in reals[1:]:
        res &= r
    return res


def run_common(case, ctx):
    b, ms = setup(case)
    exp = model.merge(ms)
    ensure(isinstance(exp, MSet), "harness: aligned operands expected")
    reals = [b.real(m, case["storage"]) for m in ms]
    snaps = [Snapshot(r) for r in reals]
    res = merged(case["form"], reals)
    check_tagged(res, exp, b.base, "merge")
    for s in snaps:
        s.check("operand of merge")
    # order and grouping of the operands
    check_tagged(reals[-1].merge(*reals[:-1]), exp, b.base, "merge in another order")
    ctx.nontrivial(len(exp.runs) >= 1 and exp.runs != ms[0].runs)
    ctx.label(case["form"])
    if any(len(m.runs) > 1 for m in ms) and len(exp.runs) > 1:
        ctx.label("several common runs")
    if not exp.runs:
        ctx.label("nothing in common")
    if not b.base.dyadic:
        ctx.label("inexact times")
    if len({r.rate for m in ms for r in m.runs}) > 1:
        ctx.label("several rates")


def run_clocks(case, ctx):
    b, ms = setup(case)
    exp = model.merge(ms)
    if exp == UNSPECIFIED:
        return
    reals = [b.real(m, case["storage"]) for m in ms]
    if exp == REFUSED:
        refuses("merge of shifted clocks", lambda: reals[0].merge(*reals[1:]))
        ctx.nontrivial()
        ctx.label("refused")
    else:
        check_tagged(reals[0].merge(*reals[1:]), exp, b.base, "merge")
        ctx.label("accepted")


# ---------------------------------------------------------------- many runs, channels, tags, operands

def expand(r, c):
    names = [wide.MANY[i] for i in r.permutation(len(wide.MANY))]

    def operand():
        nch = int(r.randint(1, c["nch"] + 1))
        tags = [[names.pop(), [k]] for k in range(nch) if r.randint(6)] + ([[names.pop(), wide.indices(r, nch, r.randint(1, nch + 1))]] if r.randint(2) else [])
        slots = [dict(cuts=[0, 99] if r.randint(c["holes"]) else [int(x) for x in r.randint(0, 13, 4)], rate=int(r.randint(40) == 0), shift=0, cal=int(r.randint(3))) for _ in range(c["slots"])]
        return dict(nch=nch, tags=tags, slots=slots)
    ops = [operand() for _ in range(c["nop"])]
    return dict(base=wide.base(r), runs=wide.runs(r, c["slots"], 3, 12, ALIGNED), ops=ops, storage=wide.pick(r, STORAGES), order=wide.perm(r, c["nop"]), form=wide.pick(r, ["merge", "merge", "left", "right", "balanced"]))


# ---------------------------------------------------------------- names

@st.composite
def conflicts(draw):
    c = draw(families())
    return dict(case=c, name=draw(st.sampled_from(NAMES)), i=draw(st.integers(0, 10)), j=draw(st.integers(0, 10)))


def run_conflict(case, ctx):
    b, ms = setup(case["case"])
    i, j = case["i"] % len(ms), case["j"] % len(ms)
    if i == j:
        j = (i + 1) % len(ms)
    for k in (i, j):
        ms[k] = MSet(ms[k].nch, dict(ms[k].tags, **{case["name"]: [0]}), ms[k].runs)
    for k in range(len(ms)):
        if k not in (i, j):
            ms[k].tags.pop(case["name"], None)
    reals = [b.real(m) for m in ms]
    refuses("merge with a shared tag name", lambda: merged(case["case"]["form"], reals))
    ctx.nontrivial()


# ---------------------------------------------------------------- long signals

@st.composite
def longs(draw):
    base = draw(bases(max_rates=1))
    n = draw(st.integers(1000, 60000))
    nop = draw(st.integers(2, 3))
    cut = st.lists(st.integers(0, n), min_size=2, max_size=8)
    return dict(base=base, n=n, ops=[draw(cut) for _ in range(nop)], off=draw(st.integers(0, 100000)))


def run_long(case, ctx):
    import numpy as np
    b = Builder(case["base"])
    rate = b.base.rates[0]
    ms = []
    for k, cuts in enumerate(case["ops"]):
        cuts = sorted(cuts)
        runs = []
        for a, z in zip(cuts[::2], cuts[1::2]):
            if z - a > 1:
                runs.append(MRun(rate, F(case["off"] + a) / rate, [np.arange(a, z) + 1e6 * k], [(1, k, a % 97)]))
        ms.append(MSet(1, {"c%d" % k: [0]}, runs))
    exp = model.merge(ms)
    reals = [b.real(m) for m in ms]
    res = reals[0].merge(*reals[1:])
    check_frame(res, exp, b.base, "merge")
    for s, r in zip(res.signals, exp.runs):
        for k in range(len(ms)):
            c = res.tags["c%d" % k][0]
            ensure(np.array_equal(s.data[c], r.data[k]), "data of tag c%s", k)
            ensure(s.calibrations[c](1.) == model.cal_value(r.cals[k], 1.), "calibration of tag c%s", k)
    ctx.nontrivial(len(exp.runs) > 0)


SUBS = [
    Sub("common", families, run_common, "a common part exists and differs from the first operand",
        quick=1200, thorough=30000, qshards=4),
    Sub("clocks", lambda: families(shifts=(0, 0, 1, 2, 3)), run_clocks, "clocks shifted over at least 3 periods, refused",
        quick=300, thorough=8000),
    Sub("names", conflicts, run_conflict, "two operands share a tag name", quick=100, thorough=2000),
    Sub("wide", lambda: wide.sizes(nop=(2, 10), nch=(1, 4), slots=(1, 24), holes=(2, 12)), wide.wide(expand, run_common), "a common part exists and differs from the first operand", quick=60, thorough=2000, qshards=2),
    Sub("long", longs, run_long, "a common part exists", quick=100, thorough=4000),
]
