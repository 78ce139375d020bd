"""C01: joining signal sets is the exact union of their runs, channel by tag."""
from hypothesis import strategies as st

from rzbv import wide
from rzbv.engine import Sub, ensure, refuses
from rzbv.model import (Builder, MSet, Snapshot, SignalSet, SyncSignal, Tags, bases, check_tagged,
                        layout, run_descs, tag_dicts, STORAGES)


@st.composite
def families(draw):
    base = draw(bases())
    nch = draw(st.integers(1, 5))
    full = draw(st.integers(0, 4)) > 0
    tags = draw(tag_dicts(nch, full=full))
    nop = draw(st.integers(1, 5))
    runs = draw(run_descs(0, 8, min_n=1))
    return dict(
        base=base, nch=nch, tags=list(tags), full=full, runs=runs, nop=nop,
        owner=draw(st.lists(st.integers(0, nop - 1), min_size=len(runs), max_size=len(runs))),
        perms=[draw(st.permutations(range(nch))) for _ in range(nop)],
        order=draw(st.permutations(range(nop))),
        form=draw(st.sampled_from(["join", "left", "right", "init", "init_dict", "balanced", "tags|"])),
        sync=draw(st.lists(st.booleans(), min_size=nop, max_size=nop)),
        storage=draw(st.sampled_from(STORAGES)),
    )


@st.composite
def groups(draw):
    "channels are only reached by groups, each operand has its own order within the groups"
    case = draw(families())
    nch = case["nch"] = draw(st.integers(2, 5))
    chans = list(draw(st.permutations(range(nch))))
    parts = []
    while chans:
        k = draw(st.integers(1, len(chans)))
        parts.append(chans[:k])
        chans = chans[k:]
    tags = [[f"G{i}", g] for i, g in enumerate(parts)]
    if draw(st.booleans()):
        tags.append(["alias", list(draw(st.permutations(parts[0])))])
    case["tags"], case["full"] = list(draw(st.permutations(tags))), True
    perms = []
    for _ in range(case["nop"]):
        perm = list(range(nch))
        for g in parts:
            for i, j in zip(g, draw(st.permutations(g))):
                perm[i] = j
        perms.append(perm)
    case["perms"] = perms
    return case


def operands(case):
    "model operands; channel p of operand i is the channel perms[i][p] of the case"
    b = Builder(case["base"])
    nch = case["nch"]
    mruns = layout(b, case["runs"], nch)
    tags = {k: v for k, v in case["tags"]}
    ops = []
    for i in range(case["nop"]):
        perm = case["perms"][i] if case["full"] else list(range(nch))
        pos = {c: p for p, c in enumerate(perm)}
        runs = [r.channels(perm) for r, o in zip(mruns, case["owner"]) if o == i]
        ops.append(MSet(nch, {t: [pos[c] for c in v] for t, v in tags.items()}, runs))
    return b, [ops[i] for i in case["order"]]


def joined(case, b, ms, reals):
    form = case["form"]
    if form == "join":
        # signals without tags have their channels ordered as in the first operand
        args = []
        for m, r, sync in zip(ms[1:], reals[1:], case["sync"]):
            if sync and m.tags == ms[0].tags and len(m.runs) == 1:
                args.append(r.signals[0])
            else:
                args.append(r)
        return reals[0].join(*args)
    if form in ("init", "init_dict") and ms[0].runs:
        tags = dict(ms[0].tags) if form == "init_dict" and case["full"] else Tags(ms[0].nch, **ms[0].tags)
        return SignalSet(tags, *reals)
    if form == "tags|":
        res = Tags(ms[0].nch, **ms[0].tags) | reals[0]
        for r in reals[1:]:
            res = res | r
        return res
    if form == "right":
        res = reals[-1]
        for r in reversed(reals[:-1]):
            res = r | res
        return res
    if form == "balanced" and len(reals) > 2:
        h = len(reals) // 2
        left, right = reals[0], reals[h]
        for r in reals[1:h]:
            left = left | r
        for r in reals[h + 1:]:
            right = right | r
        return left | right
    res = reals[0]
    for r in reals[1:]:
        res |= r
    return res


def run_union(case, ctx):
    b, ms = operands(case)
    reals = [b.real(m, case["storage"]) for m in ms]
    snaps = [Snapshot(r) for r in reals]
    for r, m in zip(reals, ms):
        check_tagged(r, m, b.base, "operand")
    exp = ms[0].join(*ms[1:])
    res = joined(case, b, ms, reals)
    check_tagged(res, exp, b.base, case["form"])
    for s in snaps:
        s.check("operand of join")
    used = [m for m in ms if m.runs]
    ctx.nontrivial(len(used) >= 2)
    ctx.label(case["form"])
    if any(m.tags != ms[0].tags for m in used):
        ctx.label("permuted channels")
    if len({r.rate for r in exp.runs}) > 1:
        ctx.label("several rates")


# ---------------------------------------------------------------- many runs, channels, tags, operands

def expand(r, c):
    nop = c["nop"]
    form = wide.pick(r, ["join", "left", "right", "init", "init_dict", "balanced", "tags|"])
    return dict(base=wide.base(r), nch=c["nch"], tags=wide.tags(r, c["nch"], c["groups"], full=True), full=True, runs=wide.runs(r, c["runs"], min_n=1), nop=nop,
                owner=[int(i) for i in r.randint(0, nop, c["runs"])], perms=[wide.perm(r, c["nch"]) for _ in range(nop)], order=wide.perm(r, nop), form=form,
                sync=[bool(x) for x in r.randint(0, 2, nop)], storage=wide.pick(r, STORAGES))


# ---------------------------------------------------------------- refusals

KINDS = ["overlap", "rename", "drop", "extra", "regroup", "channel", "alias", "sync_channel", "resize", "resize", "same"]


@st.composite
def refusals(draw):
    base = draw(bases())
    nch = draw(st.integers(1, 4))
    return dict(
        base=base, nch=nch, tags=list(draw(tag_dicts(nch, full=True))),
        runs=draw(run_descs(2, 5)),
        perm=draw(st.permutations(range(nch))), kind=draw(st.sampled_from(KINDS)),
        pick=draw(st.integers(0, 20)), amount=draw(st.sampled_from([1, 2, 4, 6, 40])),
        swap=draw(st.booleans()),
        form=draw(st.sampled_from(["join", "|", "init"])),
    )


def run_refused(case, ctx):
    b = Builder(case["base"])
    nch = case["nch"]
    tags = {k: list(v) for k, v in case["tags"]}
    runs = layout(b, case["runs"], nch)
    kind, pick = case["kind"], case["pick"]
    m1 = MSet(nch, tags, runs[:1])
    names = sorted(tags)
    name = names[pick % len(names)]
    tags2, nch2, runs2 = {k: list(v) for k, v in tags.items()}, nch, runs[1:]
    perm = case["perm"]
    if kind == "overlap":
        from fractions import Fraction as F
        r = runs[1]
        # starts before the first run stops, by a visible part of its sampling period
        r.start = max(m1.runs[0].start - F(2) / m1.runs[0].rate,
                      m1.runs[0].stop - F(case["amount"]) / (4 * m1.runs[0].rate))
        if not (r.stop > m1.runs[0].start):
            return
        runs2 = [r]
    elif kind == "rename":
        tags2["Zother"] = tags2.pop(name)
    elif kind == "drop":
        tags2.pop(name)
    elif kind == "extra":
        tags2["Zother"] = [0]
    elif kind == "regroup":
        tags2[name] = tags2[name] + [tags2[name][0]]
    elif kind in ("channel", "sync_channel"):
        nch2 = nch + 1
        runs2 = [type(r)(r.rate, r.start, r.data + r.data[:1], r.cals + r.cals[:1]) for r in runs2]
        perm = list(perm) + [nch]
    elif kind == "alias":
        # two names for the same channel in one set only
        if nch < 2:
            return
        a, c = pick % nch, (pick + 1) % nch
        m1 = MSet(nch, dict(tags, Zalias=[a]), runs[:1])
        tags2["Zalias"] = [c]
    elif kind == "resize":
        # groups of the same names and as many channels in all, but not of the same sizes
        if nch < 2:
            return
        tags = dict(tags, Za=[0, 1], Zb=[nch - 1])
        m1 = MSet(nch, tags, runs[:1])
        tags2 = dict(tags, Za=[0], Zb=[0, 1] if pick % 2 else [nch - 2, nch - 1])
    pos = {c: p for p, c in enumerate(perm)}
    m2 = MSet(nch2, {t: [pos[c] for c in v] for t, v in tags2.items()}, [r.channels(perm) for r in runs2])
    r1, r2 = b.real(m1), b.real(m2)
    if kind == "sync_channel":
        r2 = r2.signals[0]
        case = dict(case, swap=False)
    if kind == "same":
        # overlaps itself
        if m1.runs[0].size < 2 or all(r.size < 2 for r in m2.runs):
            return
        r2 = [r1, SignalSet(r1.tags, *r1.signals), r1.signals[0], r2, r2, r2][pick % 6]
    snap = Snapshot(r1)
    if case["swap"]:
        r1, r2 = r2, r1
    if not isinstance(r1, SignalSet):
        r1, r2 = r2, r1
    func = {"join": lambda: r1.join(r2), "|": lambda: r1 | r2, "init": lambda: SignalSet(r1.tags, r1, r2)}
    if kind == "same" and pick % 6 >= 3:
        func = {"join": lambda: r1.join(r2, r2), "|": lambda: r1 | r2 | r2, "init": lambda: SignalSet(r1.tags, r1, r2, r2)}
    refuses("join with kind " + kind, func[case["form"]])
    snap.check("after refusal")
    ctx.nontrivial()
    ctx.label(kind)


SUBS = [
    Sub("union", families, run_union, "at least two operands with runs", quick=600, thorough=24000, qshards=2),
    Sub("groups", groups, run_union, "at least two operands with runs", quick=200, thorough=6000),
    Sub("wide", lambda: wide.sizes(nop=(2, 14), nch=(1, 18), groups=(0, 14), runs=(2, 50)), wide.wide(expand, run_union), "at least two operands with runs", quick=60, thorough=2000),
    Sub("refused", refusals, run_refused, "an incompatible pair was built and offered", quick=400, thorough=8000),
]
