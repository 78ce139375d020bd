"""C06: merging consecutive runs loses nothing and merges maximally."""
import numpy as np
from hypothesis import strategies as st

from rzbv import wide
from rzbv.engine import Sub, ensure
from rzbv.model import Builder, Snapshot, bases, build, check_set, set_descs, run_descs


@st.composite
def cases(draw):
    d = draw(set_descs(max_runs=0, max_ch=4))
    d["runs"] = draw(run_descs(draw(st.sampled_from([0, 2, 3, 5])), 8, min_n=1, max_n=6, gaps=[4, 4, 4, 4, 4, 4, "own", "own", "previous", "1/500", "-1/500", "1/4000", "-1/20000", 0, 1, 2, 3, 5, 6, 8, 40, 4 * 1000003]))
    return dict(base=draw(bases()), set=d)


def run(case, ctx):
    b = Builder(case["base"])
    real, m = build(b, case["set"])
    far = max([abs(b.base.time(r.stop)) for r in m.runs], default=0)
    for p, r in zip(m.runs, m.runs[1:]):
        dev = abs(r.start - p.stop - 1 / r.rate)
        if dev and dev < max(3e-8, 24 * np.spacing(far), 3e-5 / r.rate):
            return  # can not be told from rounding
    snap = Snapshot(real)
    exp = m.merge_consecutive()
    res = real.merge_consecutive_runs()
    check_set(res, exp, b.base, "merge_consecutive_runs")
    check_set(res.merge_consecutive_runs(), exp, b.base, "merge_consecutive_runs twice")
    snap.check("merge_consecutive_runs")
    ctx.nontrivial(len(exp.runs) < len(m.runs))
    if len(exp.runs) > 1 and len(exp.runs) < len(m.runs):
        ctx.label("some merged, some not")
    if len({r.rate for r in m.runs}) > 1:
        ctx.label("several rates")
    if max([r.size for r in exp.runs], default=0) > 12:
        ctx.label("three or more runs glued")


def expand(r, c):
    d = wide.set_desc(r, c["runs"], c["nch"], 3, min_n=1, max_n=6, gaps=[4] * c["chain"] + [0, 1, 5, 8, 40], max_rate=6 if r.randint(2) else 0)
    return dict(base=wide.base(r), set=d)


# cutting a run anywhere and merging gives it back
@st.composite
def cuts(draw):
    n = draw(st.integers(2, 3000))
    return dict(base=draw(bases(max_rates=1)), n=n, nch=draw(st.integers(1, 2)),
                cuts=sorted(draw(st.sets(st.integers(1, n - 1), max_size=6))),
                off=draw(st.integers(0, 10 ** 7)), cal=draw(st.integers(0, 2)))


def run_cut(case, ctx):
    from fractions import Fraction as F
    from rzbv.model import MSet, SignalSet
    b = Builder(case["base"])
    rate = b.base.rates[0]
    r = b.mrun(rate, F(case["off"]) / rate, case["n"], case["nch"], case["cal"])
    m = MSet(case["nch"], {"a": [0]}, [r])
    real = b.real(m)
    sig = real.signals[0]
    lim = [0] + case["cuts"] + [case["n"]]
    parts = [sig.extract_i(i, j) for i, j in zip(lim, lim[1:])]
    cut = SignalSet(dict(a=0), *parts[::-1])
    ensure(cut.nb_runs == len(parts), "cut in %s parts but %s runs", len(parts), cut.nb_runs)
    check_set(cut.merge_consecutive_runs(), m, b.base, "cut then merged")
    ctx.nontrivial(len(parts) > 1)


SUBS = [
    Sub("layouts", cases, run, "at least two runs are glued", quick=1200, thorough=40000, qshards=3),
    Sub("wide", lambda: wide.sizes(runs=(2, 80), nch=(1, 8), chain=(1, 150)), wide.wide(expand, run), "at least two runs are glued", quick=60, thorough=2000),
    Sub("cut", cuts, run_cut, "cut in two or more runs", quick=200, thorough=6000),
]
