"""Plain model of signal sets, with exact times.

Times are Fractions (seconds after the origin t0 of the case).  The k-th sample of
a run is at start + k/rate.  The value of a sample tells its run and channel of
origin, and calibrations are tagged the same way, so that comparing contents is
comparing provenance.
"""
from fractions import Fraction as F
from functools import lru_cache
import math

import numpy as np

from hypothesis import strategies as st

from .engine import ensure, HarnessError
from .sut import SignalSet, SyncSignal, Tags, Inventory

# two families of sampling rates; in a family, sample instants (and quarters of
# sampling periods) of different rates are equal or clearly distinct, also
# after rounding to doubles around POSIX times
DYADIC = [F(1, 4), F(1), F(2), F(16), F(256), F(1024), F(8192)]
DECIMAL = [F(1, 15), F(1, 3), F(1, 10), F(3), F(10), F(15), F(50), F(100), F(150), F(1000), F(2400), F(24000)]
T0_DYADIC = ["0", "5", "-20", "100.5", "0.125", "1500000000", "1234567890.25"]
T0_ANY = T0_DYADIC + ["0.1", "-7.3", "1234567890.123", "315964800.7", "1500000000.3"]

PREC = 24  # tolerance on times, in units of floating point spacing


class Base:
    "time base of a case: origin and sampling rates"

    def __init__(self, case):
        self.rates = [F(r) for r in case["rates"]]
        self.t0 = F(case["t0"])
        self.dyadic = bool(case["dyadic"])

    def time(self, t):
        return float(self.t0 + t)

    def tol(self, t):
        return PREC * np.spacing(max(abs(float(self.t0 + t)), abs(float(t)), abs(float(self.t0)), 1e-3))


    def settle(self, t, *sets):
        """t, moved to the sample of the sets' runs that it is too near to without being it

        Whether such a time counts as the sample is a matter of rounding.  None if this cannot be settled.
        """
        for _ in range(4):
            near = self.near(t, sets)
            if near is None:
                return t
            t = near
        return None

    def near(self, t, sets):
        for m in sets:
            for r in m.runs:
                k = min(max(round((t - r.start) * r.rate), 0), r.size - 1)
                s = r.start + k / r.rate
                if 0 < abs(t - s) <= 3 * self.tol(t):
                    # a quarter of a period is well apart, whatever the precision
                    if abs(t - s) * r.rate < F(1, 5):
                        return s
        return None


@st.composite
def bases(draw, max_rates=3, min_rates=1):
    dyadic = draw(st.booleans())
    fam, t0s = (DYADIC, T0_DYADIC) if dyadic else (DECIMAL, T0_ANY)
    rates = draw(st.lists(st.sampled_from([str(r) for r in fam]), min_size=min_rates, max_size=max_rates, unique=True))
    if max_rates > 1 and draw(st.integers(0, 3)) == 0:
        # nearly the same sampling rate
        twin = F(rates[0]) * (1 + F(1, draw(st.sampled_from([7, 1000, 1024, 50000]))))
        rates, dyadic = [rates[0], str(twin)] + rates[1:max_rates - 1], False
    return dict(dyadic=dyadic, rates=rates, t0=draw(st.sampled_from(t0s)))


# ------------------------------------------------------------------ calibrations

def cal_value(code, f):
    "what the calibration designated by code gives at f"
    if code is None:
        return 1.
    kind, uid, ch = code
    if kind == 1:
        v = 1. + uid + .25 * ch
        return v if uid % 2 else v - .5j - 1j * ch  # real or complex constants
    return (1. + uid) * (1 + f) + 1j * (ch + 1)


@lru_cache(4096)
def cal_make(code):
    "the same code gives the same function object"
    if code is None:
        return 1.
    if code[0] == 1:
        return cal_value(code, 0.)
    return lambda f: cal_value(code, f)


FREQS = (.5, 3.)


# ------------------------------------------------------------------ model

class MRun:
    def __init__(self, rate, start, data, cals):
        self.rate, self.start, self.data, self.cals = rate, start, list(data), list(cals)

    @property
    def size(self):
        return len(self.data[0])

    @property
    def stop(self):
        return self.start + F(self.size - 1) / self.rate

    def channels(self, idx):
        return MRun(self.rate, self.start, [self.data[i] for i in idx], [self.cals[i] for i in idx])

    def slice(self, a, b):
        return MRun(self.rate, self.start + F(a) / self.rate, [d[a:b] for d in self.data], self.cals)

    def extract(self, start, stop):
        "samples in [start, stop]"
        a = max(0, math.ceil((start - self.start) * self.rate))
        b = min(self.size - 1, math.floor((stop - self.start) * self.rate))
        return self.slice(a, b + 1) if b >= a else None


class MSet:
    def __init__(self, nch, tags, runs):
        self.nch = nch
        self.tags = {k: tuple(v) for k, v in tags.items()}
        self.runs = sorted(runs, key=lambda r: r.start)

    def copy(self):
        return MSet(self.nch, self.tags, self.runs)

    # -- operations
    def overlapping(self):
        return any(a.stop > b.start for a, b in zip(self.runs, self.runs[1:]))

    def reorder(self, tags, nch):
        "runs with channels numbered as in tags; None if incompatible"
        if nch != self.nch or set(tags) != set(self.tags):
            return None
        if any(len(tags[t]) != len(self.tags[t]) for t in tags):
            return None
        if tags == self.tags:
            return self.runs
        inv = {}
        for t in tags:
            for n, o in zip(tags[t], self.tags[t]):
                if inv.setdefault(n, o) != o:
                    return None
        if set(inv) != set(range(nch)):
            return None
        return [r.channels([inv[i] for i in range(nch)]) for r in self.runs]

    def join(self, *others):
        runs = list(self.runs)
        for o in others:
            rr = o.reorder(self.tags, self.nch)
            if rr is None:
                return None
            runs += rr
        res = MSet(self.nch, self.tags, runs)
        return None if res.overlapping() else res

    def select_channels(self, idx):
        idx = sorted(set(idx))
        new = {e: i for i, e in enumerate(idx)}
        tags = {t: [new[i] for i in v] for t, v in self.tags.items() if set(v) <= set(idx)}
        return MSet(len(idx), tags, [r.channels(idx) for r in self.runs])

    def select_runs(self, indices):
        return MSet(self.nch, self.tags, [self.runs[i] for i in indices])

    def extract_t(self, start, stop, exclude=False):
        runs = []
        for r in self.runs:
            if exclude:
                runs += [r.extract(r.start, start), r.extract(stop, r.stop)]
            else:
                runs.append(r.extract(start, stop))
        return MSet(self.nch, self.tags, [r for r in runs if r and r.size > 1])

    def merge_consecutive(self):
        out = []
        for r in self.runs:
            if out and out[-1].rate == r.rate and r.start - out[-1].stop == 1 / r.rate:
                p = out[-1]
                out[-1] = MRun(p.rate, p.start, [np.concatenate(e) for e in zip(p.data, r.data)], p.cals)
            else:
                out.append(r)
        return MSet(self.nch, self.tags, out)

    def renumber(self, order):
        "channel i of the result is channel order[i]"
        inv = {o: i for i, o in enumerate(order)}
        return MSet(self.nch, {t: [inv[i] for i in v] for t, v in self.tags.items()},
                    [r.channels(order) for r in self.runs])


REFUSED, UNSPECIFIED = "refused", "unspecified"


def merge(sets):
    "the merge of model sets, or REFUSED or UNSPECIFIED"
    names = [t for s in sets for t in s.tags]
    if len(names) != len(set(names)):
        return REFUSED
    nch, tags = 0, {}
    for s in sets:
        tags.update({t: [i + nch for i in v] for t, v in s.tags.items()})
        nch += s.nch
    runs = []
    status = [None]

    def rec(picked, rest):
        if picked and max(r.start for r in picked) > min(r.stop for r in picked):
            return
        if rest:
            for r in rest[0].runs:
                rec(picked + [r], rest[1:])
            return
        a, b = max(r.start for r in picked), min(r.stop for r in picked)
        rates = {r.rate for r in picked}
        if len(rates) > 1:
            return
        rate, = rates
        if all(((r.start - a) * rate).denominator == 1 for r in picked):
            n = int((b - a) * rate) + 1
            if n < 2:
                return
            parts = [r.extract(a, b) for r in picked]
            runs.append(MRun(rate, a, sum((p.data for p in parts), []), sum((p.cals for p in parts), [])))
        elif (b - a) * rate >= 3:
            status[0] = REFUSED
        elif (b - a) * rate >= F(1, 2) and status[0] is None:
            status[0] = UNSPECIFIED

    rec([], list(sets))
    return status[0] or MSet(nch, tags, runs)


# ------------------------------------------------------------------ real objects

class Builder:
    "makes real and model signal sets from the descriptions in a case"

    def __init__(self, case):
        self.base = Base(case)
        self.uid = 0

    def mrun(self, rate, start, n, nch, cal):
        self.uid += 1
        u = self.uid
        data = [(u * 8. + c) * 4096 + np.arange(n) for c in range(nch)]
        if cal == 3:  # shared by neighbouring channels
            cals = [(2, u, c // 2) for c in range(nch)]
        elif cal == 4:  # shared by runs, and by some channels
            cals = [(2, 99, (c + 1) // 2) for c in range(nch)]
        else:
            cals = [None if not cal else (cal, u, c) for c in range(nch)]
        return MRun(rate, start, data, cals)

    def real_run(self, r, storage="array"):
        data = [wrap(d, storage) for d in r.data]
        if storage == "2d":
            data = np.array(r.data)
        cals = None if all(c is None for c in r.cals) else [cal_make(c) for c in r.cals]
        return SyncSignal(data, float(r.rate), self.base.time(r.start), cals)

    def real(self, m, storage="array", astags=True):
        tags = Tags(m.nch, **m.tags) if astags else dict(m.tags)
        return SignalSet(tags, *(self.real_run(r, storage) for r in m.runs))


def wrap(d, storage):
    if storage == "list":
        return list(map(float, d))
    if storage == "int":
        return np.asarray(d, dtype="int64")
    if storage == "narrow":  # runs of one set have different types
        d = np.asarray(d)
        return d.astype(np.min_scalar_type(int(d.max())) if len(d) else "uint8")
    if storage == "dask":
        import dask.array as da
        return da.from_array(np.asarray(d), chunks=max(1, min(5, len(d))))
    return np.array(d)


STORAGES = ["array", "array", "list", "2d", "dask", "int", "narrow"]


def layout(b, runs, nch):
    """model runs placed one after the other.

    runs: dicts r (rate number), q (gap after the previous run, in quarters of
    sampling period, or "own": one period, "previous": one period of the previous run, or "1/500": one period and this part of a period),
    n (size), cal
    """
    out, stop = [], F(0)
    prev = None
    for d in runs:
        rate = b.base.rates[d["r"] % len(b.base.rates)]
        q = d["q"]
        if isinstance(q, str) and prev is not None:
            start = stop + 1 / (rate if q != "previous" else out[-1].rate)
            if q not in ("own", "previous"):
                # some part of a period sooner or later, if it can be told from rounding
                part = F(q) / rate
                if abs(part) > max(F(1, 10 ** 7), 4 * F(b.base.tol(start)), F(1, 50000) / rate):
                    start += part
            out.append(b.mrun(rate, start, d["n"], nch, d.get("cal", 0)))
            stop, prev = out[-1].stop, d["n"]
            continue
        q = 4 if isinstance(q, str) else q
        start = F(math.ceil(stop * 4 * rate)) / (4 * rate)
        touching = start == stop and q == 0 and prev is not None
        if touching and (not b.base.dyadic or prev < 2 or d["n"] < 2):
            q = 1
        if start != stop and q == 0:
            q = 1
        start += F(q) / (4 * rate)
        run = b.mrun(rate, start, d["n"], nch, d.get("cal", 0))
        out.append(run)
        stop, prev = run.stop, d["n"]
    return out


GAPS = [4, 4, 4, 4, 0, 1, 2, 3, 5, 6, 8, 8, 12, 40]


def run_descs(min_size=0, max_size=5, min_n=2, max_n=9, max_rate=2, gaps=GAPS):
    return st.lists(st.fixed_dictionaries(dict(
        r=st.integers(0, max_rate), q=st.sampled_from(gaps),
        n=st.integers(min_n, max_n), cal=st.sampled_from([0, 1, 2, 2, 3, 4]),
    )), min_size=min_size, max_size=max_size)


NAMES = ["Ex", "Ey", "Hx", "Hy", "Hz", "Bx", "E", "H", "B", "e1", "rr_Hx", "site1::Ex", "site2::Ex", "L 0-x", "élan"]


@st.composite
def tag_dicts(draw, nch, names=NAMES, full=False, p_untagged=True, max_groups=3, max_group=3):
    "tags of nch channels, as a list of [name, [indices]]"
    names = draw(st.permutations(names))
    names = list(names)
    tags = []
    for c in range(nch):
        if full or not p_untagged or draw(st.integers(0, 5)):
            tags.append([names.pop(), [c]])
    for _ in range(draw(st.integers(0, max_groups))):
        if not names:
            break
        idx = draw(st.lists(st.integers(0, nch - 1), min_size=1, max_size=min(max_group, nch), unique=True))
        tags.append([names.pop(), idx])
    return draw(st.permutations(tags))


@st.composite
def set_descs(draw, min_runs=0, max_runs=5, min_n=2, max_n=9, max_ch=5, full=False, max_rate=2, gaps=GAPS, max_group=3):
    nch = draw(st.integers(1, max_ch))
    min_runs = min(max_runs, max(min_runs, draw(st.sampled_from([0, 1, 2, 2, 3, 4]))))
    return dict(nch=nch, tags=list(draw(tag_dicts(nch, full=full, max_group=max_group))),
                runs=draw(run_descs(min_runs, max_runs, min_n, max_n, max_rate, gaps)),
                storage=draw(st.sampled_from(STORAGES)), astags=draw(st.booleans()))


def build(b, desc):
    "(real, model) signal sets"
    m = MSet(desc["nch"], dict((k, v) for k, v in desc["tags"]), layout(b, desc["runs"], desc["nch"]))
    # a dict tells the number of channels only if there are runs
    astags = desc["astags"] or not m.runs
    return b.real(m, desc["storage"], astags), m


# ------------------------------------------------------------------ comparison

def freeze(data):
    return tuple(np.asarray(data, dtype=float).tolist())


def content(r, c):
    "comparable content of the channel c of a model run"
    return freeze(r.data[c]), tuple(complex(cal_value(r.cals[c], f)) for f in FREQS)


def real_content(s, c):
    cal = s.calibrations[c]
    ensure(callable(cal), "calibrations must be functions")
    return freeze(s.data[c]), tuple(complex(cal(f)) for f in FREQS)


def check_run_frame(s, r, base, what):
    ensure(s.sampling_rate == float(r.rate), "%s: sampling rate %r, expected %r", what, s.sampling_rate, float(r.rate))
    ensure(s.size == r.size, "%s: size %r, expected %r", what, s.size, r.size)
    ensure(all(len(d) == r.size for d in s.data), "%s: data of wrong length", what)
    ensure(len(s.data) == len(r.data), "%s: %r channels, expected %r", what, len(s.data), len(r.data))
    ensure(len(s.calibrations) == len(r.data), "%s: %r calibrations", what, len(s.calibrations))
    for name, val, exp in [("start", s.start, r.start), ("stop", s.stop, r.stop)]:
        ensure(abs(val - base.time(exp)) <= base.tol(exp), "%s: %s %r, expected %r", what, name, val, base.time(exp))


def check_frame(real, m, base, what):
    ensure(isinstance(real, SignalSet), "%s: gave a %s", what, type(real).__name__)
    ensure(real.nb_channels == m.nch, "%s: %r channels, expected %r", what, real.nb_channels, m.nch)
    ensure(real.nb_runs == len(m.runs) == len(real.signals), "%s: %r runs, expected %r", what, real.nb_runs, len(m.runs))
    for i, (s, r) in enumerate(zip(real.signals, m.runs)):
        check_run_frame(s, r, base, f"{what}: run {i}")


def check_set(real, m, base, what="result"):
    "same as the model, same channel numbering"
    check_frame(real, m, base, what)
    ensure(dict(real.tags) == m.tags, "%s: tags %s, expected %s", what, dict(real.tags), m.tags)
    ensure(set(real.tags.indices) == set(range(m.nch)), "%s: range of tags %s, expected %s", what, real.tags.indices, m.nch)
    for i, (s, r) in enumerate(zip(real.signals, m.runs)):
        for c in range(m.nch):
            got, exp = real_content(s, c), content(r, c)
            ensure(got[0] == exp[0], "%s: run %s channel %s: data %s, expected %s", what, i, c, got[0][:5], exp[0][:5])
            ensure(got[1] == exp[1], "%s: run %s channel %s: calibration %s, expected %s", what, i, c, got[1], exp[1])


def check_tagged(real, m, base, what="result"):
    """same as the model up to channel numbering.

    returns the model renumbered as the real one
    """
    check_frame(real, m, base, what)
    ensure(set(real.tags) == set(m.tags), "%s: tags %s, expected %s", what, set(real.tags), set(m.tags))
    for t in m.tags:
        ri, mi = real.tags[t], m.tags[t]
        ensure(len(ri) == len(mi), "%s: tag %s designates %s channels, expected %s", what, t, len(ri), len(mi))
        for i, (s, r) in enumerate(zip(real.signals, m.runs)):
            for a, b in zip(ri, mi):
                got, exp = real_content(s, a), content(r, b)
                ensure(got[0] == exp[0], "%s: run %s tag %s: data %s, expected %s", what, i, t, got[0][:5], exp[0][:5])
                ensure(got[1] == exp[1], "%s: run %s tag %s: calibration %s, expected %s", what, i, t, got[1], exp[1])

    def member(tags):
        res = {}
        for t, v in tags.items():
            for i, e in enumerate(v):
                res.setdefault(e, []).append((t, i))
        return {k: sorted(v) for k, v in res.items()}

    left = list(range(m.nch))
    order = []
    mc = {c: [content(r, c) for r in m.runs] for c in left}
    mine, theirs = member(m.tags), member(dict(real.tags))
    for c in range(m.nch):
        key = [real_content(s, c) for s in real.signals], theirs.get(c)
        hit = [j for j in left if mine.get(j) == key[1] and mc[j] == key[0]]
        ensure(hit, "%s: channel %s of the result is not an expected one", what, c)
        left.remove(hit[0])
        order.append(hit[0])
    return m.renumber(order)


class Snapshot:
    "full content of a real signal set, to check later that it did not change"

    def __init__(self, real):
        self.real = real
        self.value = self.take()

    def take(self):
        s = self.real
        return (dict(s.tags), s.nb_channels,
                [(r.start, r.sampling_rate, r.size, [real_content(r, c) for c in range(len(r.data))])
                 for r in s.signals])

    def check(self, what):
        ensure(self.take() == self.value, "%s: the signal set has been modified", what)


# ------------------------------------------------------------------ inventories

SITE_NAMES = ["Ex", "Hx", "Hy", "E", "H"]


@st.composite
def inventory_descs(draw, max_sites=3, max_ch=3, max_slots=4):
    """sites (groups of channels always tagged together) recording during slots.

    In each slot the sites recording together make one element run; `el` tells
    in which element of these sites the runs are.
    """
    nslots = draw(st.integers(1, max_slots))
    nsites = draw(st.integers(1, max_sites))
    sites = []
    for k in range(nsites):
        nch = draw(st.integers(1, max_ch))
        tags = [["s%d::c%d" % (k, c), [c]] for c in range(nch) if draw(st.integers(0, 7))]
        for g in range(draw(st.integers(0, 2))):
            tags.append(["s%d::g%d" % (k, g), draw(st.lists(st.integers(0, nch - 1), min_size=1, max_size=nch, unique=True))])
        if not tags:
            tags = [["s%d::c0" % k, [0]]]
        sites.append(dict(nch=nch, tags=tags))
    cut = st.one_of(st.just([0, 99]), st.just([0, 99]), st.lists(st.integers(0, 12), min_size=2, max_size=6))
    slots = []
    for _ in range(nslots):
        cuts = draw(st.lists(cut, min_size=nsites, max_size=nsites))
        # sites with the same group number record together
        group = draw(st.lists(st.integers(0, nsites - 1), min_size=nsites, max_size=nsites))
        on = [bool(draw(st.integers(0, 9))) for _ in range(nsites)]
        slots.append(dict(cuts=cuts, group=group, on=on, el=draw(st.integers(0, 1)), cal=draw(st.sampled_from([0, 1, 2]))))
    frame = draw(run_descs(nslots, nslots, min_n=3, max_n=12, gaps=[4, 4, 4, 8, 12, 40]))
    return dict(base=draw(bases(max_rates=2)), frame=frame, sites=sites, slots=slots,
                order=draw(st.randoms(use_true_random=False)).randint(0, 2 ** 30),
                perm=draw(st.integers(0, 10 ** 6)), empty=draw(st.integers(0, 9)))


def shuffled(seq, seed):
    import random
    seq = list(seq)
    random.Random(seed).shuffle(seq)
    return seq


def build_inventory(b, case):
    """(list of (real, model) elements, per site model sets with all its runs)"""
    frame = layout(b, case["frame"], 1)
    sites = case["sites"]
    elements = {}
    site_runs = [[] for _ in sites]
    for f, s in zip(frame, case["slots"]):
        for g in sorted(set(s["group"])):
            members = tuple(k for k in range(len(sites)) if s["group"][k] == g and s["on"][k])
            if not members:
                continue
            key = members, s["el"]
            nch = sum(sites[k]["nch"] for k in members)
            cuts = sorted(min(c, f.size) for c in s["cuts"][members[0]])
            for a, z in zip(cuts[::2], cuts[1::2]):
                if z <= a + 1:
                    continue
                r = b.mrun(f.rate, f.start + F(a) / f.rate, z - a, nch, s["cal"])
                elements.setdefault(key, []).append(r)
                c = 0
                for k in members:
                    site_runs[k].append(r.channels(range(c, c + sites[k]["nch"])))
                    c += sites[k]["nch"]
    out = []
    for key, runs in sorted(elements.items(), key=lambda e: e[0]):
        tags, c = {}, 0
        for k in key[0]:
            tags.update({t: [i + c for i in v] for t, v in sites[k]["tags"]})
            c += sites[k]["nch"]
        m = MSet(c, tags, runs).renumber(shuffled(range(c), case["perm"] + len(out)))
        out.append(m)
    out = shuffled(out, case["order"])
    present = [k for k in range(len(sites)) if site_runs[k]]
    ms = [MSet(sites[k]["nch"], {t: v for t, v in sites[k]["tags"]}, site_runs[k]) for k in present]
    return [(b.real(m), m) for m in out], ms


def select_rate(m, rate):
    return MSet(m.nch, m.tags, [r for r in m.runs if r.rate == rate])


def pack_sites(ms):
    "expected packing of the site sets (None: no common instant)"
    # channels without tag are not packed
    ms = [m.select_channels({i for v in m.tags.values() for i in v}) for m in ms]
    rates = sorted({r.rate for m in ms for r in m.runs})
    parts = [merge([select_rate(m, f) for m in ms]) for f in rates]
    for p in parts:
        if not isinstance(p, MSet):
            raise HarnessError("sites should be aligned")
    parts = [p for p in parts if p.runs]
    if not parts:
        return None
    res = MSet(parts[0].nch, parts[0].tags, sum((p.runs for p in parts), []))
    if res.overlapping():
        raise HarnessError("overlapping slots")
    return res.merge_consecutive()
