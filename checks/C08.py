"""C08: inventories are faithful containers and filters."""
import fnmatch

from hypothesis import strategies as st

from rzbv import model, wide
from rzbv.engine import Sub, ensure, refuses
from rzbv.model import (Builder, Inventory, MSet, Snapshot, SignalSet, SyncSignal, Tags, bases, build, build_inventory,
                        check_set, check_tagged, inventory_descs, pack_sites, set_descs)

JUNK = {"none": lambda s: None, "sync": lambda s: SyncSignal([[1., 2.]], 1), "tags": lambda s: Tags(1, a=0),
        "str": lambda s: "x", "list": lambda s: [s], "int": lambda s: 3, "inventory": lambda s: Inventory([s]),
        "type": lambda s: SignalSet}


# ---------------------------------------------------------------- container

op = st.one_of(
    st.tuples(st.just("append"), st.integers(0, 3), st.integers(0, 9)),
    st.tuples(st.just("append_bad"), st.integers(0, 3), st.sampled_from(sorted(JUNK))),
    st.tuples(st.just("extend"), st.integers(0, 3), st.lists(st.integers(0, 9), max_size=4)),
    st.tuples(st.just("extend_gen"), st.integers(0, 3), st.lists(st.integers(0, 9), max_size=4)),
    st.tuples(st.just("extend_inv"), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.just("extend_bad"), st.integers(0, 3), st.sampled_from(sorted(JUNK)), st.lists(st.integers(0, 9), max_size=3),
              st.integers(0, 3)),
    st.tuples(st.just("add"), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.just("add_bad"), st.integers(0, 3), st.sampled_from(["none", "str", "list", "int"])),
    st.tuples(st.just("new"), st.lists(st.integers(0, 9), max_size=4)),
    st.tuples(st.just("new_bad"), st.sampled_from(sorted(JUNK))),
    st.tuples(st.just("copy"), st.integers(0, 3)),
).map(list)


def histories():
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=14)))


def run_history(case, ctx):
    pool = [SignalSet(Tags(1, **{"t%d" % (i // 2): 0}), SyncSignal([[float(i), 1.]], 1, i)) for i in range(10)]
    invs = [(Inventory(), [])]

    def get(k):
        return invs[k % len(invs)]

    for o in case["ops"]:
        name = o[0]
        if name in ("append", "append_bad"):
            inv, m = get(o[1])
            if name == "append":
                inv.append(pool[o[2]])
                m.append(o[2])
            else:
                refuses("append", lambda: inv.append(JUNK[o[2]](pool[0])), ValueError)
        elif name in ("extend", "extend_gen"):
            inv, m = get(o[1])
            inv.extend((pool[i] for i in o[2]) if name == "extend_gen" else [pool[i] for i in o[2]])
            m += o[2]
        elif name == "extend_inv":
            inv, m = get(o[1])
            other, om = get(o[2])
            inv.extend(other)
            m += list(om)
            if len(m) > 60:
                break
        elif name == "extend_bad":
            inv, m = get(o[1])
            seq = [pool[i] for i in o[3]]
            at = min(o[4], len(seq))
            seq.insert(at, JUNK[o[2]](pool[0]))
            refuses("extend", lambda: inv.extend(seq), ValueError)
            # what is before the bad element may have been added
            m += o[3][:len(inv) - len(m)] if len(m) < len(inv) <= len(m) + at else []
        elif name == "add":
            (a, ma), (c, mc) = get(o[1]), get(o[2])
            invs.append((a + c, ma + mc))
        elif name == "add_bad":
            a, ma = get(o[1])
            refuses("addition", lambda: a + JUNK[o[2]](pool[0]))
        elif name == "new":
            invs.append((Inventory([pool[i] for i in o[1]]), list(o[1])))
        elif name == "new_bad":
            refuses("construction", lambda: Inventory([pool[0], JUNK[o[1]](pool[0])]), ValueError)
        elif name == "copy":
            a, ma = get(o[1])
            invs.append((Inventory(a), list(ma)))
        invs = invs[-4:]
        for inv, m in invs:
            exp = [pool[i] for i in m]
            ensure(type(inv) is Inventory, "gave a %s", type(inv).__name__)
            ensure(len(inv) == len(m), "after %s: %s elements, expected %s", o, len(inv), len(m))
            ensure(bool(inv) == bool(m), "after %s: truth value", o)
            ensure(len(list(inv)) == len(m) and all(a is e for a, e in zip(inv, exp)), "after %s: elements or order changed", o)
            ensure(all(inv[i] is exp[i] and inv[i - len(m)] is exp[i] for i in range(len(m))), "after %s: indexing", o)
            ensure(set(inv.tags) == {"t%d" % (i // 2) for i in m}, "after %s: tags %s", o, inv.tags)
            ensure([list(s) for s in inv.starts] == [[float(i)] for i in m], "after %s: starts", o)
    ctx.nontrivial(sum(len(m) for _, m in invs) > 1 and len(invs) > 1)


# ---------------------------------------------------------------- filters

PATTERNS = ["*", "s0*", "s1::*", "*c0", "*::c?", "s[01]::c[!0]", "s?::g*", "nothing", "S0*", "s0::c0", "s1::c0", "s2::c1",
            "[!s]*", "*::*1", "s[0-1]::*", "?0::c1", ""]


@st.composite
def filters(draw):
    inv = draw(inventory_descs())
    names = [t for s in inv["sites"] for t, _ in s["tags"]]
    return dict(inv=inv, pats=draw(st.lists(st.one_of(st.sampled_from(PATTERNS), st.sampled_from(names)), min_size=0, max_size=3)),
                keys=draw(st.lists(st.sampled_from(names + ["nope"]), max_size=3)),
                mask=draw(st.lists(st.integers(0, 2 ** 8), min_size=8, max_size=8)),
                forms=draw(st.lists(st.sampled_from(["list", "array", "scalar", "npscalar", "negative", "slice", "from", "mask"]), min_size=8, max_size=8)),
                xt=draw(st.lists(st.integers(-3, 30), min_size=2, max_size=2)), rate=draw(st.integers(0, 1)))


def check_inv(res, exp, b, what):
    ensure(isinstance(res, Inventory), "%s: gave a %s", what, type(res).__name__)
    ensure(len(res) == len(exp), "%s: %s elements, expected %s", what, len(res), len(exp))
    for i, (r, m) in enumerate(zip(res, exp)):
        check_set(r, m, b.base, f"{what}: element {i}")


def by_keys(ms, keys):
    out = []
    for m in ms:
        idx = {i for k in keys for i in m.tags.get(k, ())}
        if idx:
            out.append(m.select_channels(idx))
    return out


def glob(name, pat):
    "shell pattern (*, ?, [seq], [!seq]) on the whole name, independently from fnmatch"
    if not pat:
        return not name
    if pat[0] == "*":
        return glob(name, pat[1:]) or bool(name) and glob(name[1:], pat)
    if not name:
        return False
    if pat[0] == "[" and "]" in pat[2:]:
        end = pat.index("]", 2)
        seq = pat[1:end]
        neg = seq.startswith("!")
        seq = seq[neg:]
        chars, i = set(), 0
        while i < len(seq):
            if i + 2 < len(seq) and seq[i + 1] == "-":
                chars |= {chr(c) for c in range(ord(seq[i]), ord(seq[i + 2]) + 1)}
                i += 3
            else:
                chars.add(seq[i])
                i += 1
        return (name[0] in chars) != neg and glob(name[1:], pat[end + 1:])
    return (pat[0] == "?" or pat[0] == name[0]) and glob(name[1:], pat[1:])


def run_form(form, x, n):
    "(a way to designate runs among n, the indices of the designated runs)"
    import numpy as np
    idx = [i for i in range(n) if x >> i & 1]
    k = x % n if n else None
    if form == "list":
        return idx, idx
    if form == "array":
        return np.array(idx, dtype=int), idx
    if form == "scalar" and n:
        return k, [k]
    if form == "npscalar" and n:
        return np.int64(k), [k]
    if form == "negative" and n:
        return [i - n for i in idx], idx
    if form == "slice":
        a, z = x % 5, x // 5 % 5
        return slice(a, a + z), list(range(n))[a:a + z]
    if form == "from":
        return slice(x % 4, None), list(range(n))[x % 4:]
    return np.array([x >> i & 1 for i in range(n)], dtype=bool), idx


def run_filters(case, ctx):
    b = Builder(case["inv"]["base"])
    pairs, _ = build_inventory(b, case["inv"])
    reals, ms = [r for r, _ in pairs], [m for _, m in pairs]
    snaps = [Snapshot(r) for r in reals]
    inv = Inventory(reals)
    alltags = {t for m in ms for t in m.tags}
    ensure(set(inv.tags) == alltags, "tags %s, expected %s", inv.tags, alltags)
    keys = {t for t in alltags for p in case["pats"] if glob(t, p)}
    exp = by_keys(ms, keys)
    check_inv(inv.filter(*case["pats"]), exp, b, f"filter{case['pats']}")
    exp2 = by_keys(ms, case["keys"])
    check_inv(inv.select_channels(*case["keys"]), exp2, b, f"select_channels{case['keys']}")
    # runs: a mask or an array of indices for each element
    sel, em = [], []
    for m, x in zip(ms, case["mask"]):
        mask = [bool(x >> i & 1) for i in range(len(m.runs))]
        sel.append(mask)
        em.append(m.select_runs([i for i, k in enumerate(mask) if k]))
    sel = sel[:len(ms)]
    if len(ms) <= len(case["mask"]):
        import numpy as np
        sel = [np.array(s, dtype=bool) for s in sel]
        em = [m for m in em if m.runs]
        check_inv(inv.select_runs(sel), em, b, "select_runs")
        check_inv(inv.select_runs(s for s in sel), em, b, "select_runs with a generator")
        forms = [run_form(f, x, len(m.runs)) for f, x, m in zip(case["forms"], case["mask"], ms)]
        em = [m.select_runs(sorted(i)) for m, (_, i) in zip(ms, forms)]
        check_inv(inv.select_runs([f for f, _ in forms]), [m for m in em if m.runs], b, f"select_runs({forms})")
        refuses("select_runs with too many", lambda: inv.select_runs(sel + [slice(0)]))
    rate = b.base.rates[case["rate"] % len(b.base.rates)]
    er = [m.select_runs([i for i, r in enumerate(m.runs) if r.rate == rate]) for m in ms]
    res = inv.select_runs(f == float(rate) for f in inv.sampling_rates)
    check_inv(res, [m for m in er if m.runs], b, "runs of one rate")
    for name in ("sampling_rates", "starts", "stops", "intervals"):
        got = [a.tolist() for a in getattr(inv, name)]
        ensure(got == [getattr(r, name).tolist() for r in reals], "%s of the inventory", name)
    for s in snaps:
        s.check("inventory operations")
    ensure(len(inv) == len(reals) and all(a is e for a, e in zip(inv, reals)), "the inventory changed")
    ctx.nontrivial(0 < len(exp) and any(e.nch < m.nch for e in exp for m in ms))
    if len(exp) < len(ms):
        ctx.label("elements dropped by filter")
    if exp2:
        ctx.label("channels selected")


# ---------------------------------------------------------------- groups

@st.composite
def groups(draw):
    inv = draw(inventory_descs(max_slots=3))
    names = [t for s in inv["sites"] for t, _ in s["tags"]]
    n = draw(st.integers(0, 3))
    return dict(inv=inv, groups=[["G%d" % i, draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True))]
                                 for i in range(n)])


def run_groups(case, ctx):
    b = Builder(case["inv"]["base"])
    pairs, sites = build_inventory(b, case["inv"])
    inv = Inventory([r for r, _ in pairs])
    exp = []
    for new, old in case["groups"]:
        ms = by_keys(sites, old)
        e = pack_sites(ms) if ms else None
        known = {t for m in ms for t in m.tags}
        if e is None or not set(old) <= known:
            return  # nothing in common: not specified
        e.tags[new] = sum((e.tags[t] for t in old), ())
        exp.append(e)
    snaps = [Snapshot(r) for r, _ in pairs]
    res = inv.extract_groups([(new, tuple(old)) for new, old in case["groups"]])
    ensure(isinstance(res, Inventory) and len(res) == len(exp), "%s groups, expected %s", len(res), len(exp))
    for r, m in zip(res, exp):
        check_tagged(r, m, b.base, "group")
    for s in snaps:
        s.check("extract_groups")
    ctx.nontrivial(len(exp) > 0)
    if any(len(o) > 1 for _, o in case["groups"]):
        ctx.label("several tags in a group")
    if len(exp) > 1:
        ctx.label("several groups")


def expand_filters(r, c):
    inv = wide.inventory(r, c["sites"], c["slots"])
    names = [t for s in inv["sites"] for t, _ in s["tags"]]
    forms = ["list", "array", "scalar", "npscalar", "negative", "slice", "from", "mask"]
    return dict(inv=inv, pats=[wide.pick(r, PATTERNS + names) for _ in range(r.randint(c["k"]))], keys=[wide.pick(r, names) for _ in range(r.randint(c["k"]))],
                mask=[int(x) for x in r.randint(0, 2 ** 30, 200)], forms=[wide.pick(r, forms) for _ in range(200)], xt=[0, 5], rate=int(r.randint(2)))


def expand_groups(r, c):
    inv = wide.inventory(r, c["sites"], c["slots"])
    names = [t for s in inv["sites"] for t, _ in s["tags"]]
    return dict(inv=inv, groups=[["G%d" % i, [names[j] for j in wide.indices(r, len(names), r.randint(1, c["k"] + 1))]] for i in range(c["n"])])


SUBS = [
    Sub("wide filters", lambda: wide.sizes(sites=(1, 12), slots=(1, 12), k=(1, 12)), wide.wide(expand_filters, run_filters), "the filter keeps some elements and drops channels", quick=30, thorough=1000),
    Sub("wide groups", lambda: wide.sizes(sites=(1, 8), slots=(1, 5), k=(1, 9), n=(1, 8)), wide.wide(expand_groups, run_groups), "at least one group", quick=30, thorough=1000),
    Sub("history", histories, run_history, "two inventories or more, two elements or more at the end", quick=300, thorough=12000, cpu=8),
    Sub("filters", filters, run_filters, "the filter keeps some elements and drops channels", quick=300, thorough=12000),
    Sub("groups", groups, run_groups, "at least one group", quick=300, thorough=12000),
]
