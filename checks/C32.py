"""C32: from survey files to impedance."""
import cmath
import math
import os

import numpy as np
from hypothesis import strategies as st

from checks.C25 import scratch
from rzbv import atsfile as A
from rzbv import est, imp
from rzbv.engine import Sub, ensure
from rzbv.imp import quiet
from rzbv.num import rng
from rzbv.sut import rzb
from razorback.calibrations import metronix, phoenix
from razorback.io.ats import load_ats, load_ats_from
from razorback.utils import impedance, impedance_mass_proc, tags_from_path

LOCAL, REMOTE = "A", "B"
CHANNELS = {LOCAL: ["Ex", "Ey", "Hx", "Hy"], REMOTE: ["Hx", "Hy"]}
# relative names of the files of a site, and the pattern that gives their tags
LAYOUTS = [
    ("site{site}/meas_{k}/{n:03d}_V01_C{c:02d}_R001_T{ch}_BL_{rate}H.ats", "**/site{site}/meas_*/*_T{channel}_BL_*.ats"),
    ("{site}/run{k}/{ch}.ats", "root/{site}/run?*/{channel}.ats"),
    ("rec{k}/S-{site}.{ch}+{rate}.ats", "**S-{site}.{channel}+*.ats"),
    ("{site}/a/b/{k}/[{ch}].ats", "root/{site}/**/[[]{channel}].ats"),
]


def cases():
    rec = st.fixed_dictionaries(dict(n=st.integers(60, 120), gap=st.sampled_from([0, 0, 1, 7])))
    return st.fixed_dictionaries(dict(
        seed=est.seeds, layout=st.integers(0, len(LAYOUTS) - 1), rates=st.sampled_from([[16], [64], [512], [1024], [64, 1024], [16, 512], [1024, 16]]),
        local=st.lists(rec, min_size=1, max_size=3), remote=st.lists(rec, min_size=1, max_size=3), late=st.integers(-9, 9), start=st.sampled_from([0, 1200000000, 1600000001]),
        cal=st.sampled_from(["none", "metronix", "metronix", "phoenix", "constant"]), lsb=st.sampled_from([1., 1e-6, 2.44140625e-4, -3e-3]),
        chunk=st.sampled_from([None, None, 4000, 100000]), how=st.sampled_from(["files", "files", "lists", "directories"]), pack=st.sampled_from(["pack", "groups", "merge", "mass"]),
        use_remote=st.booleans(), own=st.booleans(), nf=st.sampled_from([.06, .11, .17, .23]), weights=imp.weightings(), relative=st.booleans(), junk=st.booleans(), cut=st.sampled_from([None, None, .2, .6])))


def spans(recs, start, rate):
    """[first sample, last sample + 1] of recordings starting at integer seconds, in samples"""
    out, t = [], start
    for d in recs:
        sec = max(1, round(d["n"] * 16 / rate))  # about 1000 to 2000 samples
        out.append([t * rate, (t + sec) * rate])
        t += sec + d["gap"]
    return out, t


def common(a, b):
    "stretches of samples in both lists of spans"
    mask = {}
    top = max(z for _, z in a + b)
    low = min(x for x, _ in a + b)
    m = np.ones(top - low + 1, dtype=bool)
    for s in (a, b):
        k = np.zeros(len(m), dtype=bool)
        for x, z in s:
            k[x - low:z - low] = True
        m &= k
    d = np.diff(np.concatenate([[0], m.astype(int), [0]]))
    return [[int(x) + low, int(z) + low] for x, z in zip(np.flatnonzero(d == 1), np.flatnonzero(d == -1)) if z - x > 1]


class Sensors:
    "calibrations of all channels, as files and as functions"

    def __init__(self, kind, r, own=False):
        self.kind = kind
        self.own = own  # each site has its directory of calibrations, named alike
        self.const = {(s, c): 10. ** r.uniform(-2, 2) for s in CHANNELS for c in CHANNELS[s]}
        self.freqs = sorted(10. ** r.uniform(-1, 3.5, 6)) if kind == "metronix" else sorted(10. ** r.uniform(.1, 2, 5))
        self.freqs = ([.3] if kind == "metronix" else [.01]) + [f for f in self.freqs if .5 < f < 5000] + [1e4]
        self.version = {k: "MFS0%d" % r.choice([6, 7]) for k in self.const}
        self.tables = {(k, lv): [(f, r.uniform(.2, 2) / f ** .5, r.uniform(-40, 40)) for f in self.freqs] for k in self.const for lv in ("On", "Off")}
        if own:
            self.version = {k: "MFS0%d" % (6 + (k[1] == "Hy")) for k in self.const}
        self.level = int(r.randint(2, 5))
        self.values = {(k, lv): [complex(*r.randn(2)) + 2. for _ in self.freqs] for k in self.const for lv in (2, 3, 4)}

    def write(self):
        os.makedirs("data/metronix_calibration")
        for k in self.const:
            if self.own:
                os.makedirs(f"sensors/{k[0]}", exist_ok=True)
            with open(self.name(k) if self.own else "data/metronix_calibration/" + self.name(k), "w") as f:
                f.write("calibration of %s\n\n" % (k[1] if self.own else "%s %s" % k))
                for lv in ("On", "Off"):
                    row = "%.17e %.17e %+.17e\n" if self.own else "%r %r %r\n"
                    f.write("Chopper %s\n" % lv + "".join(row % v for v in self.tables[k, lv]) + "\n")
        for s, chans in CHANNELS.items():
            with open(f"{s}.cts.csv", "w") as f:
                f.write(f"2020/01/01,77,MT,{len(chans)}\n")
                for lv in (4, 2, 3):
                    for i, q in enumerate(self.freqs):
                        f.write(",".join([repr(q), str(lv)] + [repr(x) for c in chans for v in [self.values[(s, c), lv][i]] for x in (v.real, v.imag)]) + "\n")

    def name(self, k):
        if self.own:
            return os.path.abspath(f"sensors/{k[0]}/{k[1]}_{self.version[k]}e.txt")
        return f"{k[0]}_{k[1]}_{self.version[k]}e.txt"

    def load(self, k, rate):
        if self.kind == "metronix" and k[1][0] == "H":
            return metronix(self.name(k), rate)
        if self.kind == "phoenix":
            return phoenix(f"{k[0]}.cts.csv", self.level)[CHANNELS[k[0]].index(k[1])]
        return self.const[k] if self.kind == "constant" else 1.

    def value(self, k, rate, f):
        if self.kind == "metronix" and k[1][0] == "H":
            t = self.tables[k, "On" if rate <= 512 else "Off"]
            if f < t[0][0]:
                return f * t[0][1] * cmath.exp(1j * math.atan2({"MFS06": 4., "MFS07": 32.}[self.version[k]], f))
            rows = [(q, q * m * cmath.exp(1j * math.radians(p))) for q, m, p in t]
        elif self.kind == "phoenix":
            rows = list(zip(self.freqs, self.values[k, self.level]))
        else:
            return self.const[k] if self.kind == "constant" else 1.
        for (f0, z0), (f1, z1) in zip(rows, rows[1:]):
            if f0 <= f <= f1:
                return z0 + (f - f0) / (f1 - f0) * (z1 - z0)
        raise AssertionError(f)


class Survey:
    def __init__(self, case):
        r = self.r = rng(case["seed"])
        self.Z = r.randn(2, 2) + np.where(r.uniform(size=(2, 2)) < .5, -.5, .5)
        self.R = np.array([[1., .3], [-.2, .8]])
        self.lsb = {(s, c): case["lsb"] * r.choice([1., .5, 3.]) for s in CHANNELS for c in CHANNELS[s]}
        self.sensors = Sensors(case["cal"], r, case["own"])
        self.blocks = []  # rate, local spans, remote spans, first sample, {channel: stored samples}
        start = case["start"]
        for rate in case["rates"]:
            a, end_a = spans(case["local"], start, rate)
            b, end_b = spans(case["remote"], start + max(0, 9 + case["late"]) if rate == 16 else start + (case["late"] > 3), rate)
            low, top = min(a[0][0], b[0][0]), max(a[-1][1], b[-1][1])
            n = top - low
            h = r.randn(2, n)
            h[1] += .4 * h[0]
            e = self.Z.dot(h)
            e += 1e-3 * r.randn(2, n)
            q = self.R.dot(h) + 1e-3 * r.randn(2, n)
            raw = {}
            for key, x in zip([(LOCAL, c) for c in CHANNELS[LOCAL]] + [(REMOTE, c) for c in CHANNELS[REMOTE]], [*e, *h, *q]):
                raw[key] = np.rint(x * 1e5 / self.lsb[key] * case["lsb"]).astype("<i4")
            self.blocks.append((rate, {LOCAL: a, REMOTE: b}, low, raw))
            start = max(end_a, end_b) + 3

    def data(self, key, block, x, z):
        rate, _, low, raw = block
        return self.lsb[key] * raw[key][x - low:z - low].astype(float)

    def write(self, case):
        files = {}
        tpl, _ = LAYOUTS[case["layout"]]
        for rate, where, low, raw in self.blocks:
            for site in CHANNELS:
                for j, (x, z) in enumerate(where[site]):
                    for i, ch in enumerate(CHANNELS[site]):
                        name = tpl.format(site=site, k=f"{rate}x{j}", n=j, c=i, ch=ch, rate=rate)
                        path = os.path.join("root", name)
                        fields = dict(sample_length=z - x, sampling_rate=float(rate), start=x // rate, lsbval=self.lsb[site, ch])
                        A.write(os.path.abspath(path), A.header(fields, self.r), raw[site, ch][x - low:z - low])
                        files[path] = site, ch, rate, j
        if case["junk"]:
            for extra in ("root/siteA/meas_1/notes.txt", "root/A/run1/Ex.xml", "root/other.ats.bak"):
                os.makedirs(os.path.dirname(extra), exist_ok=True)
                open(extra, "w").close()
        return files


def inventory(survey, case, files):
    "as in the documentation of tags_from_path"
    root = "root" if case["relative"] else os.path.abspath("root")
    found = [os.path.join(d, f) for d, _, names in os.walk(root) for f in names]
    found = [found[i] for i in survey.r.permutation(len(found))]
    pattern = LAYOUTS[case["layout"]][1]
    if not case["relative"] and not pattern.startswith("**"):
        pattern = "**/" + pattern
    tagged = [(n, t[0]) for n, t in tags_from_path(found, pattern, "{site}_{channel}")]
    ensure(sorted(n for n, _ in tagged) == sorted(n for n in found if n.endswith(".ats")), "%s of %s names match %s", len(tagged), len(found), pattern)
    recs = {}
    for name, tag in tagged:
        site, ch, rate, j = files[os.path.relpath(name)]
        ensure(tag == f"{site}_{ch}", "tag %s for %s", tag, name)
        recs.setdefault((site, rate, j), []).append((name, tag, (site, ch)))
    inv = rzb.Inventory()
    load = survey.sensors.load
    for (site, rate, j), items in recs.items():
        if case["how"] == "files":
            for name, tag, key in items:
                inv.append(rzb.SignalSet({tag: 0}, load_ats([name], [load(key, rate)])))
            continue
        if case["how"] == "directories" and case["layout"] in (1, 3):
            # the order of the channels is that of the files in the directory: known by the samples
            folder = os.path.dirname(items[0][0])
            block = next(b for b in survey.blocks if b[0] == rate)
            ends = block[1][site][j]
            order = [[i for i, (_, _, key) in enumerate(items) if np.allclose(np.asarray(x), survey.data(key, block, *ends), rtol=1e-12, atol=0)]
                     for x in load_ats_from(folder).data]
            ensure(sorted(order) == [[i] for i in range(len(items))], "channels of %s are the files %s", folder, order)
            items = [items[i] for i, in order]
            sig = load_ats_from(folder, [load(k, rate) for _, _, k in items])
        else:
            sig = load_ats([n for n, _, _ in items], [load(k, rate) for _, _, k in items])
        inv.append(rzb.SignalSet({tag: i for i, (_, tag, _) in enumerate(items)}, sig))
    return inv


GROUPS = [("E", ["A_Ex", "A_Ey"]), ("B", ["A_Hx", "A_Hy"]), ("Bremote", ["B_Hx", "B_Hy"])]


def run(case, ctx):
    import dask
    survey = Survey(case)
    with scratch() as d, dask.config.set({"array.chunk-size": f"{case['chunk']} B"} if case["chunk"] else {}):
        os.chdir(d)
        survey.sensors.write()
        files = survey.write(case)
        inv = inventory(survey, case, files)
        names = {f"{s}_{c}" for s in CHANNELS for c in CHANNELS[s]}
        ensure(inv.tags == names, "tags of the inventory: %s", inv.tags)
        groups = GROUPS if case["use_remote"] else GROUPS[:2]
        keys = [(t[0], t[2:]) for _, g in groups for t in g]
        # the same data in memory
        runs = []
        for block in survey.blocks:
            rate, where = block[:2]
            parts = common(where[LOCAL], where[REMOTE] if case["use_remote"] else where[LOCAL])
            runs += [(rate, x, z, [survey.data(k, block, x, z) for k in keys]) for x, z in parts]
        ctx.label(case["how"], case["pack"], case["cal"], "remote" if case["use_remote"] else "single site")
        if not runs:
            data = (inv if case["use_remote"] else inv.filter("A_*")).pack()
            ensure(data.nb_runs == 0, "%s runs but the sites have nothing in common", data.nb_runs)
            ctx.label("nothing in common")
            return
        if case["pack"] == "groups":
            data = inv.extract_groups(groups).pack()
        elif case["pack"] == "merge":
            sets = {}
            for s in inv:
                sets.setdefault(tuple(sorted(s.tags)), []).append(s)
            sets = [x[0].join(*x[1:]) for t, x in sorted(sets.items()) if case["use_remote"] or t[0].startswith("A_")]
            data = sets[0].merge(*sets[1:]).merge_consecutive_runs()
            for name, g in groups:
                data.tags[name] = sum((data.tags[t] for t in g), ())
        else:
            data = (inv if case["use_remote"] else inv.filter("A_*")).pack()
            for name, g in groups:
                data.tags[name] = [data.tags[t][0] for t in g]
        order = [data.tags[t][0] for _, g in groups for t in g]
        ensure(data.nb_runs == len(runs), "%s runs, expected %s", data.nb_runs, len(runs))
        ensure(data.nb_channels == len(keys) and sorted(order) == list(range(len(keys))), "channels %s", dict(data.tags))
        mem = []
        for s, (rate, x, z, values) in zip(data.signals, runs):
            ensure(s.sampling_rate == rate and abs(s.start - x / rate) * rate < 1e-3 and s.size == z - x, "run %s, expected %s samples at %s from %s", s, z - x, rate, x / rate)
            for i, k, v in zip(order, keys, values):
                got = np.asarray(s.data[i])
                ensure(np.allclose(got, v, rtol=1e-12, atol=0), "samples of %s: %s, expected %s", k, got[:6], v[:6])
                f = case["nf"] * rate
                want = survey.sensors.value(k, rate, f)
                ensure(abs(complex(s.calibrations[i](f)) - want) <= 1e-9 * abs(want), "calibration of %s at %s: %s, expected %s", k, f, s.calibrations[i](f), want)
            mem.append(rzb.SyncSignal(values, float(rate), x / rate, [lambda f, k=k, rate=rate: survey.sensors.value(k, rate, f) for k in keys]))
        tags, i = {}, 0
        for name, g in groups:
            tags[name] = list(range(i, i + len(g)))
            i += len(g)
        memory = rzb.SignalSet(tags, *mem)
        opts = dict(weights=imp.make_weights(case["weights"]), keep_invalid_times=True, fourier_opts=dict(Nper=4, overlap=.5))
        kw = dict(remote="Bremote") if case["use_remote"] else {}
        for rate in case["rates"]:
            if rate not in [x[0] for x in runs]:
                continue
            f = case["nf"] * rate
            part = data[:, data.sampling_rates == rate]
            ref = memory[:, memory.sampling_rates == rate]
            if case["cut"]:
                t = ref.starts[0] + case["cut"] * (ref.stops[-1] - ref.starts[0])
                part, ref = part.extract_t(ref.starts[0], t), ref.extract_t(ref.starts[0], t)
            res = quiet(impedance, part, [f], **opts, **kw)
            want = quiet(impedance, ref, [f], **opts, **kw)
            exact = case["weights"][0] in ("ls", "none")
            if exact:
                same(res, want, f"at {f} Hz")
            z = res.impedance[0]
            if np.isnan(z).all():
                ctx.label("not estimated")
                continue
            c = {k: survey.sensors.value(k, rate, f) for k in keys}
            truth = np.array([[survey.Z[i, j] * c[LOCAL, h] / c[LOCAL, e] for j, h in enumerate(("Hx", "Hy"))] for i, e in enumerate(("Ex", "Ey"))])
            mag = np.array([[abs(c[LOCAL, h] / c[LOCAL, e]) for h in ("Hx", "Hy")] for e in ("Ex", "Ey")])
            nw = sum((s.size - int(np.ceil(4 / case["nf"]))) // int(.5 * np.ceil(4 / case["nf"])) + 1 for s in ref.signals)
            if nw >= 40:
                ensure((np.abs(z - truth) < .15 * mag).all(), "impedance at %s: %s, expected %s", f, z, truth)
                ensure((np.abs(z - want.impedance[0]) < .05 * mag).all(), "impedance at %s: %s, from the data in memory %s", f, z, want.impedance[0])
                ctx.nontrivial()
            ctx.label("estimated", "compared exactly" if exact else "robust")
        # the last digits may change how many steps a robust estimation takes
        if case["pack"] == "mass" and len(case["rates"]) == 1 and case["weights"][0] in ("ls", "none"):
            groups_inv = inv.extract_groups(GROUPS[:2])
            if case["use_remote"]:
                groups_inv += inv.extract_groups([("Brem", GROUPS[2][1])])
            interval = memory.starts[0] - 1, memory.stops[-1] + 1
            f = case["nf"] * case["rates"][0]
            mp = quiet(impedance_mass_proc, groups_inv, ["Brem"] if case["use_remote"] else [], [f], [interval], opts)
            want = quiet(impedance, memory, [f], **opts, **kw)
            # the last combination has all the remotes
            same(type(want)(*[x[-1][0] for x in mp[1:]]), want, "mass processing")
            ctx.label("mass processing")


def same(res, want, what):
    for name in ("impedance", "error", "transfer_mag"):
        a, b = np.asarray(getattr(res, name)), np.asarray(getattr(want, name))
        ensure(a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)), "%s: %s is %s, expected %s", what, name, a, b)
        if b.size:
            bad = ~(np.abs(a - b) <= 1e-6 * np.nanmax(np.abs(b))) & ~np.isnan(b)
            ensure(not bad.any(), "%s: %s is %s, expected %s", what, name, a, b)
    a, b = res.invalid_time[0], want.invalid_time[0]
    ensure(len(a) == len(b), "%s: invalid times %s, expected %s", what, a, b)
    for x, y in zip(a, b):
        ensure(np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=0, atol=1e-5), "%s: invalid times %s, expected %s", what, x, y)


SUBS = [
    Sub("survey", cases, run, "the known impedance is recovered from files, with at least 40 windows", quick=220, thorough=6000, qshards=6),
]
