"""C04: run selection behaves like numpy indexing of the run sequence."""
import numpy as np
from hypothesis import strategies as st

from rzbv import wide
from rzbv.engine import Sub, ensure, refuses
from rzbv.model import Builder, Snapshot, bases, build, check_set, set_descs


@st.composite
def cases(draw, bad=False):
    d = draw(set_descs(max_runs=6, max_ch=4, min_n=1))
    n = len(d["runs"])
    kind = draw(st.sampled_from(["int", "slice", "list", "array", "mask", "maskarray", "npint"]))
    if kind in ("int", "npint", "list", "array") and (bad or not n):
        if not bad:
            kind = "slice"
    if kind == "slice" and bad:
        kind = "int"
    if bad and draw(st.integers(0, 3)) == 0:
        kind, sel = draw(st.one_of(
            st.tuples(st.just("float"), st.sampled_from([0., 1., .5, -1.])),
            st.tuples(st.just("float"), st.lists(st.sampled_from([0., 1.]), min_size=1, max_size=2)),
            st.tuples(st.just("str"), st.sampled_from(["0", "Ex", ""])),
            st.tuples(st.sampled_from(["list", "array"]), st.lists(st.integers(0, max(n - 1, 0)), min_size=1, max_size=3).map(lambda l: l + l[:1])),
        ))
    elif bad:
        wrong = st.one_of(st.integers(n, n + 3), st.integers(-n - 3, -n - 1))
        if kind in ("int", "npint"):
            sel = draw(wrong)
        elif kind in ("list", "array"):
            sel = draw(st.lists(st.integers(-n, n - 1), max_size=3)) if n else []
            sel.insert(draw(st.integers(0, len(sel))), draw(wrong))
        else:
            size = draw(st.integers(1, 8).filter(lambda k: k != n))
            sel = draw(st.lists(st.booleans(), min_size=size, max_size=size))
    elif kind in ("int", "npint"):
        sel = draw(st.integers(-n, n - 1))
    elif kind == "slice":
        b = st.one_of(st.none(), st.integers(-n - 1, n + 1))
        sel = list(draw(st.tuples(b, b, st.sampled_from([None, None, 1, 2, -1, -2, 3]))))
    elif kind in ("list", "array"):
        sel = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n))
        neg = draw(st.lists(st.booleans(), min_size=len(sel), max_size=len(sel)))
        sel = [i - n if x else i for i, x in zip(sel, neg)]
    else:
        sel = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    return dict(base=draw(bases()), set=d, kind=kind, sel=sel, form=draw(st.sampled_from(["method", "item", "channels"])))


def selector(kind, sel):
    if kind == "slice":
        return slice(*sel)
    if kind in ("array",):
        return np.array(sel, dtype=int)
    if kind == "maskarray":
        return np.array(sel, dtype=bool)
    if kind == "npint":
        return np.int64(sel)
    return sel


def apply(real, form, idx):
    if form == "method":
        return real.select_runs(idx)
    if form == "item":
        return real[:, idx]
    return real[[0], idx]


def run_select(case, ctx):
    b = Builder(case["base"])
    real, m = build(b, case["set"])
    snap = Snapshot(real)
    idx = selector(case["kind"], case["sel"])
    n = len(m.runs)
    if isinstance(idx, list) and not idx:
        idx = np.zeros(0, dtype=int if case["kind"] == "list" else bool)
    picked = list(np.atleast_1d(np.arange(n)[idx]))
    exp = m.select_runs(picked)
    if case["form"] == "channels":
        exp = exp.select_channels([0])
    res = apply(real, case["form"], idx)
    check_set(res, exp, b.base, f"runs {case['sel']}")
    snap.check("run selection")
    # complement: both parts give the whole set again
    rest = np.setdiff1d(np.arange(n), picked)
    if case["form"] != "channels":
        check_set(res | real.select_runs(rest), m, b.base, "selection joined with its complement")
    ctx.nontrivial(0 < len(picked) < n)
    ctx.label(case["kind"])


def expand(r, c):
    d = wide.set_desc(r, c["runs"], c["nch"], 3, min_n=1)
    n = c["runs"]
    kind = wide.pick(r, ["int", "slice", "list", "array", "mask", "maskarray"])
    if kind == "int":
        sel = int(r.randint(-n, n))
    elif kind == "slice":
        sel = [wide.pick(r, [None, int(r.randint(-n, n))]), wide.pick(r, [None, int(r.randint(-n, n))]), wide.pick(r, [None, 1, 2, -1, 3])]
    elif kind in ("list", "array"):
        sel = [i - n * int(r.randint(2)) for i in wide.indices(r, n, r.randint(1, n + 1))]
    else:
        sel = [bool(x) for x in r.randint(0, 2, n)]
    return dict(base=wide.base(r), set=d, kind=kind, sel=sel, form=wide.pick(r, ["method", "item", "channels"]))


def run_bad(case, ctx):
    b = Builder(case["base"])
    real, m = build(b, case["set"])
    idx = selector(case["kind"], case["sel"])
    try:
        np.arange(len(m.runs))[idx]
    except Exception:
        pass
    else:
        # a run that is more than an instant can not be there twice
        if case["kind"] not in ("list", "array") or len(set(case["sel"])) == len(case["sel"]):
            return
        if any(case["sel"].count(i) > 1 and m.runs[i].size < 2 for i in case["sel"]):
            return
        ctx.label("a run twice")
    snap = Snapshot(real)
    refuses(f"runs {case['sel']}", lambda: apply(real, case["form"], idx))
    snap.check("refused selection")
    ctx.nontrivial()
    ctx.label(case["kind"])


SUBS = [
    Sub("select", cases, run_select, "some but not all runs are picked", quick=600, thorough=24000),
    Sub("wide", lambda: wide.sizes(runs=(2, 100), nch=(1, 8)), wide.wide(expand, run_select), "some but not all runs are picked", quick=60, thorough=2000),
    Sub("refused", lambda: cases(bad=True), run_bad, "an index that numpy refuses, or a run twice", quick=300, thorough=4000),
]
