"""C24: mass processing equals the individual processing of each combination."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from rzbv import est, imp
from rzbv import model as M
from rzbv.engine import Sub, ensure
from rzbv.imp import quiet
from rzbv.num import rng
from rzbv.sut import rzb  # noqa
from razorback.prefilters import cod_filter
from razorback.utils import impedance, impedance_mass_proc


def cases():
    span = st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list)
    remote = st.fixed_dictionaries(dict(spans=st.lists(span, min_size=1, max_size=2), extra=st.integers(0, 1), own_sets=st.booleans(), other_tag=st.booleans()))
    interval = st.sampled_from(["all", "first", "second", "middle", "inf", "none", "slot"])
    return st.fixed_dictionaries(dict(
        seed=est.seeds, ne=st.integers(1, 2), nb=st.integers(1, 2), rate=st.sampled_from([1., 4., 128.]), start=st.sampled_from([0., 1000., 1.5e9]),
        remotes=st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 5, 6]).flatmap(lambda n: st.lists(remote, min_size=n, max_size=n)), separate=st.booleans(), second_rate=st.booleans(), order=st.integers(0, 10 ** 6), cal=st.booleans(),
        nfs=st.lists(st.sampled_from([.1, .2, .3, .15, 5., .25]), min_size=1, max_size=3, unique=True),
        intervals=st.one_of(st.lists(interval, min_size=1, max_size=3), st.lists(interval, min_size=2, max_size=2).flatmap(lambda x: st.lists(st.sampled_from(x), min_size=3, max_size=5))),
        combines=st.sampled_from([True, True, False, None]), opts=imp.fourier_opts(), weights=st.sampled_from([None, ["ls"], ["mest"], ["huber"]]),
        remote_weights=st.sampled_from([None, ["ls"], ["mest"]]), prefilter=st.booleans(), keep=st.booleans(), real=st.booleans(), names=st.integers(0, 2), tuples=st.booleans(), junk=st.sampled_from([False, False, False, True])))


SLOT = 300  # samples; local channels are recorded during six slots (with a gap after the third)
NAMES = [["R1", "R2", "R3", "R4", "R5", "R10"], ["site10_B", "site2_B", "a", "B2", "Z", "site1_B"], ["Bx", "Ey", "remote", "Bz", "Ex", "e"]]


def run_mass(case, ctx):
    r = rng(case["seed"])
    ne, nb, rate, t0 = case["ne"], case["nb"], case["rate"], case["start"]
    names = NAMES[case["names"]][:len(case["remotes"])]
    nr = [nb + d["extra"] for d in case["remotes"]]
    total = 6 * SLOT + 50
    s = r.randn(nb, total)
    mix = est.mixing(r, nb, real=True)
    b = mix.dot(s)
    z = r.randn(ne, nb)
    e = z.dot(b) + .1 * r.randn(ne, total)
    rem = [est.crandn(r, k, nb, real=True).dot(s) + .05 * r.randn(k, total) for k in nr]
    gap = slice(3 * SLOT, 3 * SLOT + 50)

    def cals(n, uid):
        return [M.cal_make((2, uid, i)) if case["cal"] else 1. for i in range(n)]

    def sync(data, lo, hi, uid, rate=rate, off=0.):
        cc = cals(len(data), uid)
        return rzb.SyncSignal([d[lo:hi] for d in data], rate, t0 + off + lo / rate, cc)

    local = [(0, gap.start), (gap.stop, total)]
    spans = []  # of each remote, in samples
    inv = []
    for k, d in enumerate(case["remotes"]):
        ss = set()
        for a, c in d["spans"]:
            ss |= set(range(min(a, c), max(a, c) + 1))
        pos = [i * SLOT + (50 if i > 2 else 0) for i in range(7)]
        runs = []
        for i in sorted(ss):
            lo, hi = pos[i], pos[i] + SLOT
            if runs and (runs[-1][1] == lo or (i == 3 and 2 in ss)):
                runs[-1][1] = hi
            else:
                runs.append([lo, hi])
        spans.append(runs)
        tags = {names[k]: tuple(range(nr[k]))}
        if d["other_tag"]:
            tags["other%d" % k] = (0,)
        sets = [sync(rem[k], lo, hi, 10 + k) for lo, hi in runs]
        if d["own_sets"]:
            inv += [rzb.SignalSet(tags, x) for x in sets]
        else:
            inv.append(rzb.SignalSet(tags, *sets))
    if case["separate"]:
        inv.append(rzb.SignalSet({"E": tuple(range(ne))}, *[sync(e, lo, hi, 1) for lo, hi in local]))
        inv.append(rzb.SignalSet({"B": tuple(range(nb))}, *[sync(b, lo, hi, 2) for lo, hi in local]))
    else:
        data = np.vstack([b, e])
        cc = cals(nb, 2) + cals(ne, 1)
        inv.append(rzb.SignalSet({"B": tuple(range(nb)), "E": tuple(range(nb, nb + ne))}, *[
            rzb.SyncSignal([x[lo:hi] for x in data], rate, t0 + lo / rate, cc) for lo, hi in local]))
    second = None
    if case["second_rate"]:
        # all sites together at another rate, later
        off = 2 * total / rate
        m = 400
        s2 = r.randn(nb, m)
        b2 = mix.dot(s2)
        second = [z.dot(b2) + .1 * r.randn(ne, m), b2] + [r.randn(k, nb).dot(s2) + .05 * r.randn(k, m) for k in nr]
        for k, (x, tag, uid) in enumerate(zip(second, ["E", "B"] + names, [1, 2] + [10 + k for k in range(len(names))])):
            tags = {tag: tuple(range(len(x)))}
            if k > 1 and case["remotes"][k - 2]["other_tag"]:
                tags["other%d" % (k - 2)] = (0,)
            inv.append(rzb.SignalSet(tags, sync(x, 0, m, uid, 2 * rate, off)))
    inv = [inv[i] for i in rng(case["order"]).permutation(len(inv))]
    inventory = rzb.Inventory(inv)

    combos = [()] + [c for n in range(1, len(names) + 1) for c in itertools.combinations(range(len(names)), n)]
    if len(names) > 4 or len(names) == 4 and len(case["intervals"]) > 1:
        case = dict(case, combines=False)  # too many
    if case["combines"] is False:
        combos = [tuple(range(len(names)))]

    def expected(combo):
        runs = [list(x) for x in local]
        for k in combo:
            runs = [[max(a, c), min(b_, d)] for a, b_ in runs for c, d in spans[k] if min(b_, d) - max(a, c) > 1]
        data = np.vstack([e, b] + [rem[k] for k in combo])
        cc = cals(ne, 1) + cals(nb, 2) + [c for k in combo for c in cals(nr[k], 10 + k)]
        sigs = [rzb.SyncSignal([x[lo:hi] for x in data], rate, t0 + lo / rate, cc) for lo, hi in runs]
        if second:
            d2 = np.vstack([second[0], second[1]] + [second[2 + k] for k in combo])
            sigs.append(rzb.SyncSignal(list(d2), 2 * rate, t0 + 2 * total / rate, cc))
        tags = {"E": tuple(range(ne)), "B": tuple(range(ne, ne + nb))}
        if combo:
            tags["Bremote"] = tuple(range(ne + nb, len(data)))
        return rzb.SignalSet(tags, *sigs) if sigs else None
    sets = {c: expected(c) for c in combos}
    if any(x is None for x in sets.values()):
        return  # nothing in common

    end = t0 + total / rate
    where = {"all": (t0, end), "first": (t0, t0 + total / 2 / rate), "second": (t0 + total / 2 / rate, end), "middle": (t0 + .21 * total / rate, t0 + .83 * total / rate),
             "inf": (-np.inf, np.inf) if False else (t0 - 1e4, end + 1e6), "none": (t0 - 100., t0 - 50.), "slot": (t0 + 50 / rate, t0 + 2.5 * SLOT / rate)}
    intervals = [where[k] for k in case["intervals"]]
    freqs = [nf * rate for nf in case["nfs"]]
    options = {}
    if case["weights"]:
        options["weights"] = imp.make_weights(case["weights"])
    if case["remote_weights"]:
        options["remote_weights"] = imp.make_weights(case["remote_weights"])
    opt = imp.make_opts(case["opts"])
    if opt:
        options["fourier_opts"] = opt
    if case["prefilter"]:
        options["prefilter"] = cod_filter(.5, size=8)
    if case["keep"]:
        options["keep_invalid_times"] = True
    if case["real"]:
        options["real_pb"] = True
    if case["junk"]:
        options["remote"] = "Bremote" if len(case["intervals"]) % 2 else "B"  # told by the combination
    before = {k: copy.copy(v) if isinstance(v, dict) else v for k, v in options.items()}
    snap = [M.Snapshot(x) for x in inv]
    kw = {} if case["combines"] is None else dict(combines_remotes=case["combines"])
    wrap = tuple if case["tuples"] else list
    res = quiet(impedance_mass_proc, inventory, wrap(names), wrap(freqs), wrap(intervals), options, **kw)

    ensure(list(options) == list(before) and all(options[k] == before[k] for k in before), "options became %s", options)
    ensure(len(inventory) == len(inv) and all(a is b for a, b in zip(inventory, inv)), "the inventory was changed")
    for k, sn in enumerate(snap):
        sn.check(f"set {k} of the inventory")

    got = [tuple(i for i in c if i is not None) for c in res.remote_combination]
    ensure(sorted(got) == sorted(combos), "combinations %s, expected %s", res.remote_combination, combos)
    fields = ("impedance", "error", "transfer_mag", "invalid_time")
    for name in fields:
        v = getattr(res, name)
        ensure(len(v) == len(combos) and all(len(x) == len(intervals) for x in v), "%s for %s combinations and %s intervals", name, len(combos), len(intervals))
    ok = 0
    for k, combo in enumerate(got):
        for i, interval in enumerate(intervals):
            data = sets[combo].extract_t(*interval)
            ref = quiet(impedance, data, freqs, **dict(before, remote="Bremote" if combo else None))
            what = f"combination {combo} interval {interval}"
            for name in fields[:3]:
                x, y = np.asarray(getattr(res, name)[k][i]), np.asarray(getattr(ref, name))
                ensure(x.shape == y.shape, "%s: %s of shape %s, expected %s", what, name, x.shape, y.shape)
                ensure(np.array_equal(np.isnan(x), np.isnan(y)), "%s: %s is %s, expected %s", what, name, x, y)
                live = ~np.isnan(y)
                if live.any():
                    ensure((np.abs(x - y)[live] <= 1e-7 * np.abs(y[live]).max()).all(), "%s: %s is %s, expected %s", what, name, x, y)
            x, y = res.invalid_time[k][i], ref.invalid_time
            ensure(len(x) == len(y), "%s: invalid times for %s frequencies", what, len(x))
            for p, q in zip(x, y):
                ensure(len(p) == len(q), "%s: invalid times of %s channels, expected %s", what, len(p), len(q))
                for u, v in zip(p, q):
                    u, v = np.sort(u), np.sort(v)
                    ensure(len(u) == len(v) and (np.abs(u - v) <= 1e-6).all(), "%s: invalid times %s, expected %s", what, u, v)
            ok += not np.isnan(ref.impedance).all()
    ctx.nontrivial(ok > 0 and len(combos) * len(intervals) > 1)
    ctx.label(f"{len(names)} remotes", f"{len(combos)} combinations")


SUBS = [
    Sub("mass", cases, run_mass, "several combinations or intervals, some impedance is estimated", quick=80, thorough=2500, qshards=8),
]
