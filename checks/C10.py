"""C10: operations on signal sets never alter or alias existing objects (programs against the model)."""
import copy
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from rzbv import model
from rzbv.engine import Sub, ensure, refuses
from rzbv.model import (Builder, Inventory, MSet, Snapshot, SignalSet, Tags, bases, check_set, check_tagged, layout, run_descs,
                        pack_sites, shuffled, STORAGES)
from checks.C02 import make_operand

FAMILIES = {"A": [["Ex", [0]], ["Ey", [1]], ["E", [1, 0]]], "B": [["Hx", [0]], ["Hy", [1]], ["H", [0, 1]], ["alias", [1]]],
            "C": [["Rx", [0]], ["z", [2]]], "D": [["one", [0]]]}
NCH = dict(A=2, B=2, C=3, D=1)

ref = st.integers(0, 30)
bound = st.tuples(st.integers(0, 5), st.integers(-2, 12), st.sampled_from([0, 0, 1, 2, 3])).map(list)
op = st.one_of(
    st.tuples(st.just("join"), st.lists(ref, min_size=2, max_size=3), st.booleans()),
    st.tuples(st.just("merge"), st.lists(ref, min_size=2, max_size=3), st.booleans()),
    st.tuples(st.just("merge"), st.lists(ref, min_size=2, max_size=3), st.booleans()),
    st.tuples(st.just("channels"), ref, st.lists(st.integers(0, 5), min_size=1, max_size=3)),
    st.tuples(st.just("tag"), ref, st.integers(0, 9)),
    st.tuples(st.just("runs"), ref, st.integers(0, 255)),
    st.tuples(st.just("split"), ref, st.integers(0, 255)),
    st.tuples(st.just("extract"), ref, bound, bound, st.booleans()),
    st.tuples(st.just("cut"), ref, bound),
    st.tuples(st.just("mcr"), ref),
    st.tuples(st.just("copy"), ref, st.sampled_from(["copy", "deepcopy", "new", "all", "reinit"])),
    st.tuples(st.just("edit"), ref, st.sampled_from(["add", "del", "change", "rename", "bad"]), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("attach"), ref, ref, st.booleans()),
    st.tuples(st.just("pack"), st.lists(ref, min_size=1, max_size=4)),
    st.tuples(st.just("inv_t"), st.lists(ref, min_size=1, max_size=3), bound, bound),
    st.tuples(st.just("inv_c"), st.lists(ref, min_size=1, max_size=3), st.sampled_from(["filter", "select", "runs"]), st.integers(0, 255)),
).map(list)


@st.composite
def programs(draw):
    nslots = draw(st.integers(2, 4))
    slot = st.fixed_dictionaries(dict(
        cuts=st.one_of(st.just([0, 99]), st.just([0, 99]), st.lists(st.integers(0, 10), max_size=4)),
        rate=st.just(0), shift=st.just(0), cal=st.sampled_from([0, 1, 2])))
    pool = []
    # several sets of a family share the slots: their joins are possible
    for fam in draw(st.lists(st.sampled_from("AABBCD"), min_size=2, max_size=5)):
        pool.append(dict(fam=fam, perm=draw(st.permutations(range(NCH[fam]))), on=draw(st.lists(st.booleans(), min_size=nslots, max_size=nslots)),
                         slots=draw(st.lists(slot, min_size=nslots, max_size=nslots))))
    return dict(base=draw(bases(max_rates=2)), frame=draw(run_descs(nslots, nslots, min_n=3, max_n=10, max_rate=1, gaps=[4, 4, 8, 12, 40])),
                pool=pool, storage=draw(st.sampled_from(STORAGES)), ops=draw(st.lists(op, min_size=2, max_size=12)))


class Pool:
    def __init__(self, b):
        self.b = b
        self.real, self.model, self.snap = [], [], []

    def add(self, real, m, exact=True, what="result"):
        if exact:
            check_set(real, m, self.b.base, what)
        else:
            m = check_tagged(real, m, self.b.base, what)
        ensure(not any(real is x or real.tags is x.tags for x in self.real), "%s: gave a set sharing its tags with another", what)
        starts, stops = real.starts, real.stops
        ensure(all(a <= z for a, z in zip(starts, starts[1:])), "%s: runs not sorted", what)
        ensure(len({len(s.data) for s in real.signals}) <= 1, "%s: runs with different channels", what)
        self.real.append(real)
        self.model.append(m)
        self.snap.append(Snapshot(real))

    def check(self, what):
        for i, s in enumerate(self.snap):
            s.check(f"{what}: set {i}")

    def index(self, k):
        return k % len(self.real)


def instant(m, b):
    if not m.runs:
        return F(b[1])
    r = m.runs[b[0] % len(m.runs)]
    return r.start + (b[1] + F(b[2], 4)) / r.rate


def time_overlap(ms):
    runs = sorted((r for m in ms for r in m.runs), key=lambda r: r.start)
    return any(a.stop >= z.start for a, z in zip(runs, runs[1:]))


def operands(p, o):
    "numbers of the operands of a join or merge: most often compatible ones if there are any"
    idx = [p.index(k) for k in o[1]]
    if o[1][0] % 4 == 0:
        return idx
    out = idx[:1]
    for k in idx[1:]:
        for j in range(len(p.real)):
            j = (k + j) % len(p.real)
            ms = [p.model[i] for i in out + [j]]
            if o[0] == "join":
                good = p.model[j].runs and not time_overlap(ms) and ms[0].join(*ms[1:]) is not None
            else:
                m = model.merge(ms)
                good = isinstance(m, MSet) and m.runs
            if good:
                out.append(j)
                break
        else:
            out.append(k)
    return out


def step(p, o, ctx):
    b, base = p.b, p.b.base
    name = o[0]
    if name in ("join", "merge"):
        idx = operands(p, o)
        rs, ms = [p.real[i] for i in idx], [p.model[i] for i in idx]
        if name == "join":
            runs = [r for m in ms for r in m.runs]
            if ms[0].join(*ms[1:]) is not None and time_overlap(ms):
                return  # touching runs: not specified with inexact times
            m = ms[0].join(*ms[1:])
            func = (lambda: rs[0].join(*rs[1:])) if o[2] or len(rs) > 2 else (lambda: rs[0] | rs[1])
            if m is None:
                # sets with untagged channels in another order: not specified
                full = all({i for v in x.tags.values() for i in v} == set(range(x.nch)) for x in ms)
                if full:
                    refuses(f"{o}", func)
                    ctx.label("join refused")
                return
        else:
            m = model.merge(ms)
            if m == model.UNSPECIFIED:
                return
            func = (lambda: rs[0].merge(*rs[1:])) if o[2] or len(rs) > 2 else (lambda: rs[0] & rs[1])
            if m == model.REFUSED:
                refuses(f"{o}", func)
                ctx.label("merge refused")
                return
            if m.overlapping():
                return
            if len(m.runs):
                ctx.label("merge with common runs")
        p.add(func(), m, False, f"{o}")
    elif name == "channels":
        i = p.index(o[1])
        idx = [k % p.model[i].nch for k in o[2]]
        p.add(p.real[i].select_channels(idx), p.model[i].select_channels(idx), True, f"{o}")
    elif name == "tag":
        i = p.index(o[1])
        names = sorted(p.model[i].tags)
        if names:
            t = names[o[2] % len(names)]
            p.add(getattr(p.real[i], t), p.model[i].select_channels(p.model[i].tags[t]), True, f"{o}")
    elif name in ("runs", "split"):
        i = p.index(o[1])
        n = len(p.model[i].runs)
        sel = [k for k in range(n) if o[2] >> (k % 8) & 1]
        p.add(p.real[i][:, np.array(sel, dtype=int)], p.model[i].select_runs(sel), True, f"{o}")
        if name == "split":
            rest = [k for k in range(n) if k not in sel]
            p.add(p.real[i].select_runs(np.array(rest, dtype=int)), p.model[i].select_runs(rest), True, f"{o}")
    elif name in ("extract", "cut"):
        i = p.index(o[1])
        m = p.model[i]
        if name == "extract":
            bounds = [base.settle(instant(m, o[k]), m) for k in (2, 3)]
            if None in bounds:
                return
            start, stop = sorted(bounds)
            ex = o[4] and start < stop
            p.add(p.real[i].extract_t(base.time(start), base.time(stop), exclude=ex), m.extract_t(start, stop, ex), True, f"{o}")
        elif m.runs:
            t = base.settle(instant(m, o[2]), m)
            if t is None:
                return
            lo, hi = m.runs[0].start, m.runs[-1].stop
            p.add(p.real[i].extract_t(base.time(lo), base.time(t)), m.extract_t(lo, t), True, f"{o}")
            p.add(p.real[i].extract_t(base.time(t), base.time(hi)), m.extract_t(t, hi), True, f"{o}")
    elif name == "mcr":
        i = p.index(o[1])
        p.add(p.real[i].merge_consecutive_runs(), p.model[i].merge_consecutive(), True, f"{o}")
    elif name == "copy":
        i = p.index(o[1])
        r, m = p.real[i], p.model[i]
        if o[2] == "reinit" and m.runs:
            new = SignalSet(r.tags, *r.signals)
        elif o[2] == "new" or o[2] == "reinit":
            new = SignalSet(r.tags, r)
        elif o[2] == "all":
            new = r[:, :]
        elif o[2] == "copy":
            # equivalent, but may share its tags
            check_set(copy.copy(r), m, base, f"{o}")
            return
        else:
            new = getattr(copy, o[2])(r)
        if new is r:
            return
        p.add(new, m.copy(), True, f"{o}")
    elif name == "edit":
        i = p.index(o[1])
        r, m = p.real[i], p.model[i]
        if any(r is x or r.tags is x.tags for j, x in enumerate(p.real) if j != i):
            # a plain copy may share its tags; nothing else
            ensure(False, "two signal sets share their tags")
        names = sorted(m.tags)
        kind = o[2]
        if kind == "add":
            t = "new%d" % (o[3] % 4)
            r.tags[t] = [o[4] % m.nch]
            m.tags[t] = (o[4] % m.nch,)
        elif kind == "bad":
            refuses("bad tag", lambda: r.tags.__setitem__("bad", m.nch))
        elif names:
            t = names[o[3] % len(names)]
            if kind == "del":
                del r.tags[t]
                del m.tags[t]
            elif kind == "change":
                setattr(r.tags, t, o[4] % m.nch)
                m.tags[t] = (o[4] % m.nch,)
            else:
                r.tags["ren%d" % (o[4] % 3)] = r.tags.pop(t)
                v = m.tags.pop(t)
                m.tags["ren%d" % (o[4] % 3)] = v
        check_set(r, m, base, f"{o}")
        p.snap[i] = Snapshot(r)
    elif name == "attach":
        i, j = p.index(o[1]), p.index(o[2])
        r, m, rj, mj = p.real[i], p.model[i], p.real[j], p.model[j]
        value = rj.tags if o[3] else dict(mj.tags)
        if o[3] and mj.nch > m.nch or any(k >= m.nch for v in mj.tags.values() for k in v):
            refuses(f"{o}", lambda: setattr(r, "tags", value))
        elif m.runs:
            r.tags = value
            m.tags = dict(mj.tags)
            check_set(r, m, base, f"{o}")
            p.snap[i] = Snapshot(r)
    elif name == "inv_c":
        idx = list(dict.fromkeys(p.index(k) for k in o[1]))
        rs, ms = [p.real[i] for i in idx], [p.model[i] for i in idx]
        inv = Inventory(rs)
        names = sorted({t for m in ms for t in m.tags})
        if o[2] == "runs":
            sel = [[k for k in range(len(m.runs)) if o[3] >> (k % 8) & 1 or o[3] % 3 == 0] for m in ms]
            res = inv.select_runs([np.array(s, dtype=int) for s in sel])
            exp = [m.select_runs(s) for m, s in zip(ms, sel) if s]
        else:
            keys = [t for k, t in enumerate(names) if o[3] >> (k % 8) & 1 or o[3] % 3 == 0]
            if not keys:
                return
            res = getattr(inv, "filter" if o[2] == "filter" else "select_channels")(*keys)
            exp = [m.select_channels({i for k in keys for i in m.tags.get(k, ())}) for m in ms if set(keys) & set(m.tags)]
        ensure(len(res) == len(exp), "%s: %s elements, expected %s", o, len(res), len(exp))
        for r, m in zip(res, exp):
            p.add(r, m, True, f"{o}")
    elif name in ("pack", "inv_t"):
        idx = [p.index(k) for k in o[1]]
        ms = [p.model[i] for i in idx]
        inv = Inventory([p.real[i] for i in idx])
        if name == "inv_t":
            ref = ms[0]
            bounds = [base.settle(instant(ref, o[k]), *ms) for k in (2, 3)]
            if None in bounds:
                return
            start, stop = sorted(bounds)
            res = inv.extract_t(base.time(start), base.time(stop))
            exp = [m for m in (m.extract_t(start, stop) for m in ms) if m.runs]
            ensure(len(res) == len(exp), "%s: %s elements", o, len(res))
            for r, m in zip(res, exp):
                p.add(r, m, True, f"{o}")
        else:
            # sets with the same tags are joined, the others are merged
            groups = {}
            for m in ms:
                groups.setdefault(frozenset(m.tags), []).append(m)
            names = [t for g in groups for t in g]
            if len(names) != len(set(names)) or not all(groups):
                return
            sites = []
            for g in groups.values():
                if any(sorted(map(len, m.tags.values())) != sorted(map(len, g[0].tags.values())) for m in g) or time_overlap(g):
                    return
                full = [m.select_channels({i for v in m.tags.values() for i in v}) for m in g]
                j = full[0].join(*full[1:])
                if j is None or any(r.size < 2 for r in j.runs):
                    return
                sites.append(j)
            for f in {r.rate for m in sites for r in m.runs}:
                part = model.merge([model.select_rate(m, f) for m in sites])
                if not isinstance(part, MSet) or part.overlapping():
                    return
            runs = [r for m in sites for r in m.runs]
            exp = pack_sites(sites)
            res = inv.pack()
            if exp is None:
                ensure(res.nb_runs == 0, "%s: %s runs", o, res.nb_runs)
            else:
                p.add(res, exp, False, f"{o}")
                ctx.label("packed")


def run(case, ctx):
    b = Builder(case["base"])
    frame = layout(b, case["frame"], 1)
    p = Pool(b)
    seen = {}
    for d in case["pool"]:
        taken = seen.setdefault(d["fam"], set())
        slots = []
        for k, (s, on) in enumerate(zip(d["slots"], d["on"])):
            use = on and k not in taken
            if use:
                taken.add(k)
            slots.append(s if use else dict(s, cuts=[]))
        m = make_operand(b, dict(nch=NCH[d["fam"]], tags=FAMILIES[d["fam"]], slots=slots), frame).renumber(d["perm"])
        p.add(b.real(m, case["storage"]), m, True, "initial")
    done = 0
    for o in case["ops"]:
        before = len(p.real)
        step(p, o, ctx)
        p.check(f"after {o}")
        done += len(p.real) > before
        ctx.label(o[0])
        if len(p.real) > 25:
            break
    ctx.nontrivial(done >= 2)


SUBS = [Sub("programs", programs, run, "at least two operations gave a new signal set", quick=700, thorough=30000, qshards=4)]
