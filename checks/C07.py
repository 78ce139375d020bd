"""C07: packing an inventory gives the largest synchronous signal set."""
import numpy as np
from hypothesis import strategies as st

from rzbv import wide
from rzbv.engine import Sub, ensure, refuses
from rzbv.model import (Builder, Inventory, Snapshot, SignalSet, SyncSignal, build_inventory, check_tagged, inventory_descs,
                        pack_sites, shuffled)


def check_packed(res, exp, b, what):
    ensure(isinstance(res, SignalSet), "%s: gave a %s", what, type(res).__name__)
    if exp is None:
        ensure(res.nb_runs == 0, "%s: %s runs but nothing is in common", what, res.nb_runs)
    else:
        check_tagged(res, exp, b.base, what)


def classify(ctx, pairs, exp):
    ctx.nontrivial(exp is not None and len(pairs) > 1)
    if exp is None:
        ctx.label("nothing in common")
        return
    if len({r.rate for r in exp.runs}) > 1:
        ctx.label("several rates")
    if len(exp.runs) > 1:
        ctx.label("several runs")
    if len(pairs) > 2:
        ctx.label("three elements or more")


def run_pack(case, ctx):
    b = Builder(case["base"])
    pairs, ms = build_inventory(b, case)
    exp = pack_sites(ms)
    snaps = [Snapshot(r) for r, _ in pairs]
    reals = [r for r, _ in pairs]
    inv = Inventory(reals)
    check_packed(inv.pack(), exp, b, "pack")
    check_packed(Inventory(reals[::-1]).pack(), exp, b, "pack in reverse order")
    check_packed(Inventory(shuffled(reals, case["perm"])).pack(True), exp, b, "pack in another order")
    # joining and merging without sorting by rate first: the same, before the gluing of consecutive runs
    if len({r.rate for m in ms for r in m.runs}) <= 1 or not case["perm"] % 2:
        check_packed(inv.merge().merge_consecutive_runs(), exp, b, "merge")
    # what is packed packs into itself
    if exp is not None:
        check_packed(Inventory([inv.pack()]).pack(), exp, b, "pack of the packed set")
    for s in snaps:
        s.check("pack")
    ensure([id(e) for e in inv] == [id(e) for e in reals], "the inventory changed")
    classify(ctx, pairs, exp)


def single(m):
    "channels having a tag of their own, with these tags"
    tags = {t: v for t, v in m.tags.items() if len(v) == 1}
    idx = sorted({v[0] for v in tags.values()})
    return type(m)(m.nch, tags, m.runs).select_channels(idx) if idx else None


def run_single(case, ctx):
    b = Builder(case["base"])
    pairs, ms = build_inventory(b, case)
    ms = [m for m in map(single, ms) if m]
    if not ms:
        return
    exp = pack_sites(ms)
    inv = Inventory([r for r, _ in pairs])
    check_packed(inv.pack(keep_multi_tags=False), exp, b, "pack(keep_multi_tags=False)")
    classify(ctx, pairs, exp)
    ctx.nontrivial(False)
    if any(len(v) > 1 for _, m in pairs for v in m.tags.values()):
        ctx.label("group tags dropped")


# ---------------------------------------------------------------- simultaneous recordings at two rates

@st.composite
def simultaneous(draw):
    return dict(sites=draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)), fast=draw(st.sampled_from([2, 3, 16])),
                start=draw(st.integers(0, 17)), n=draw(st.integers(3, 60)), order=draw(st.integers(0, 1000)),
                t0=draw(st.sampled_from([0., 1.5e9])), keep=draw(st.booleans()))


def run_simultaneous(case, ctx):
    "a set of disjoint runs cannot hold both: refused, not lost"
    elements = []
    for i, nch in enumerate(case["sites"]):
        tags = {f"S{i}_{c}": c for c in range(nch)}
        for rate, start, n in ((1., 0., 20), (float(case["fast"]), float(case["start"]), case["n"])):
            elements.append(SignalSet(tags, SyncSignal([np.arange(float(n))] * nch, rate, case["t0"] + start)))
    inv = Inventory(shuffled(elements, case["order"]))
    refuses("simultaneous recordings at two rates", lambda: inv.pack(case["keep"]))
    ctx.nontrivial()


def expand(r, c):
    return wide.inventory(r, c["sites"], c["slots"])


SUBS = [
    Sub("wide", lambda: wide.sizes(sites=(1, 9), slots=(1, 16)), wide.wide(expand, run_pack), "two elements or more with instants in common", quick=40, thorough=1500, qshards=2),
    Sub("simultaneous", simultaneous, run_simultaneous, "always", quick=60, thorough=1000),
    Sub("pack", lambda: inventory_descs(), run_pack, "two elements or more with instants in common",
        quick=400, thorough=16000, qshards=3),
    Sub("single", lambda: inventory_descs(), run_single, "two elements or more with instants in common",
        quick=200, thorough=8000),
]
