"""C03: channel selection returns exactly the designated channels."""
import numpy as np
from hypothesis import strategies as st

from rzbv import wide
from rzbv.engine import Sub, ensure, refuses
from rzbv.model import Builder, Snapshot, bases, build, check_set, set_descs, NAMES


@st.composite
def cases(draw, bad=False):
    d = draw(set_descs(max_ch=draw(st.sampled_from([6, 6, 6, 14])), min_n=1, max_group=draw(st.sampled_from([3, 3, 8]))))
    names = [t for t, _ in d["tags"]]
    n = d["nch"]
    ident = st.integers(0, n - 1)
    if names:
        ident = st.one_of(ident, st.sampled_from(names))
    if bad:
        free = [x for x in NAMES + ["nope", "ex", "E*", "", "_x"] if x not in names]
        wrong = st.one_of(st.integers(n, n + 3), st.integers(-3, -1), st.sampled_from(free), st.none())
        kind = draw(st.sampled_from(["one", "list", "attr"]))
        if kind == "one":
            sel = draw(wrong)
        elif kind == "attr":
            sel = draw(st.sampled_from([x for x in free if x]))
        else:
            sel = draw(st.lists(ident, max_size=3))
            sel.insert(draw(st.integers(0, len(sel))), draw(wrong))
    else:
        kind = draw(st.sampled_from(["name", "index", "slice", "list", "list", "tuple", "array", "set", "attr", "range", "names"]))
        if kind in ("name", "attr", "names") and not names:
            kind = "index"
        if kind == "names":
            sel = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3))
        elif kind in ("name", "attr"):
            sel = draw(st.sampled_from(names))
        elif kind == "index":
            sel = draw(st.integers(0, n - 1))
        elif kind == "slice":
            b = st.one_of(st.none(), st.integers(-n - 1, n + 1))
            sel = draw(st.tuples(b, b, st.sampled_from([None, 1, 2, -1, -2, 3])).map(list))
        elif kind in ("array", "range"):
            sel = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6))
        else:
            sel = draw(st.lists(ident, min_size=1, max_size=5))
    return dict(base=draw(bases()), set=d, kind=kind, sel=sel,
                form=draw(st.sampled_from(["method", "item", "item2"])))


def selector(kind, sel):
    if kind == "slice":
        return slice(*sel)
    if kind == "tuple":
        return tuple(sel)
    if kind == "array":
        return np.array(sel)
    if kind == "set":
        return set(sel)
    if kind == "range":
        return range(min(sel), max(sel) + 1)
    return sel


def apply(real, form, kind, sel):
    if kind == "attr":
        return getattr(real, sel)
    s = selector(kind, sel)
    if form == "method" or kind == "tuple" and form == "item":
        return real.select_channels(s)
    if form == "item":
        return real[s]
    return real[s, :]


def run_select(case, ctx):
    b = Builder(case["base"])
    real, m = build(b, case["set"])
    kind, sel = case["kind"], case["sel"]
    if kind == "slice":
        idx = list(range(m.nch))[slice(*sel)]
    elif kind == "range":
        idx = list(range(min(sel), max(sel) + 1))
    else:
        idx = []
        for e in (sel if isinstance(sel, list) else [sel]):
            idx += m.tags[e] if isinstance(e, str) else [e]
    if not idx:
        return
    snap = Snapshot(real)
    exp = m.select_channels(idx)
    res = apply(real, case["form"], kind, sel)
    check_set(res, exp, b.base, f"selection of {sel}")
    snap.check("selection of channels")
    # selecting again what has been selected changes nothing
    check_set(res[:], exp, b.base, "selection of all")
    for t in exp.tags:
        one = exp.select_channels(exp.tags[t])
        check_set(res.select_channels(t), one, b.base, f"selection of {t} in the selection")
    ctx.nontrivial(len(m.runs) > 0 and exp.nch < m.nch)
    ctx.label(kind)
    if len(exp.tags) < len(m.tags):
        ctx.label("tags dropped")
    if any(list(v) != sorted(v) for v in exp.tags.values()):
        ctx.label("unsorted group kept")


def expand(r, c):
    d = wide.set_desc(r, c["runs"], c["nch"], c["groups"], min_n=1)
    n = c["nch"]
    names = [t for t, _ in d["tags"]]
    kind = wide.pick(r, ["slice", "list", "list", "tuple", "array", "set", "range", "name" if names else "list"])
    k = int(r.randint(1, n + 1))
    if kind == "slice":
        sel = [wide.pick(r, [None, int(r.randint(n))]), wide.pick(r, [None, int(r.randint(n))]), wide.pick(r, [None, 1, 2, -1, 3])]
    elif kind in ("array", "range"):
        sel = wide.indices(r, n, k)
    elif kind == "name":
        sel = wide.pick(r, names)
    else:
        sel = wide.indices(r, n, k) + [wide.pick(r, names) for _ in range(r.randint(3)) if names]
    return dict(base=wide.base(r), set=d, kind=kind, sel=sel, form=wide.pick(r, ["method", "item", "item2"]))


def run_bad(case, ctx):
    b = Builder(case["base"])
    real, m = build(b, case["set"])
    snap = Snapshot(real)
    kind, sel = case["kind"], case["sel"]
    if kind == "attr" and hasattr(type(real), sel):
        return
    refuses(f"{kind} {sel!r}", lambda: apply(real, case["form"], kind, sel),
            AttributeError if kind == "attr" else ValueError)
    snap.check("refused selection")
    ctx.nontrivial()
    ctx.label(kind)


SUBS = [
    Sub("select", cases, run_select, "at least one run, and at least one channel is left out", quick=600, thorough=24000),
    Sub("wide", lambda: wide.sizes(runs=(1, 30), nch=(2, 60), groups=(0, 30)), wide.wide(expand, run_select), "at least one run, and at least one channel is left out", quick=60, thorough=2000),
    Sub("unknown", lambda: cases(bad=True), run_bad, "a selector with an unknown identifier", quick=200, thorough=4000),
]
