"""C34: computations in concurrent threads give what they give alone."""
import concurrent.futures
import os
import random
import warnings

import dask
import dask.array as da
import numpy as np
from hypothesis import strategies as st

from checks.C25 import scratch
from checks.C33 import Content, flat
from rzbv import atsfile as A
from rzbv import est, imp
from rzbv.engine import Sub, ensure
from rzbv.imp import quiet
from rzbv.num import rng
from rzbv.sched import Deterministic, Noise, outcome
from rzbv.sut import rzb
from razorback import weights as W
from razorback.calibrations import metronix
from razorback.fourier_transform import slepian_window, time_to_freq
from razorback.io import ats
from razorback.io.binary_file_array import BinaryFileArray_1D, to_dask_array
from razorback.mestimator import transfer_function
from razorback.prefilters import cod_filter
from razorback.utils import impedance, impedance_mass_proc, prefilter_values, tags_from_path

TASKS = ["impedance", "impedance", "remote", "real", "prefilter", "mass", "tf", "fourier", "slepian", "read", "read", "load", "metronix", "metronix", "tags", "sets", "sets", "edit", "inventory", "text"]


def task_descs():
    return st.fixed_dictionaries(dict(task=st.sampled_from(TASKS), k=st.integers(0, 10 ** 6), w=st.sampled_from(["ls", "mest", "huber", "bi", "bi", "thomson", "default"])))


# shared by all threads
BI = W.bi_weights(.01, 2)
CHAIN = W.Weights([None, W.Huber(1.2), W.Thomson(2.8)])


def make_weights(name):
    return {"ls": lambda: W.least_square, "mest": lambda: W.mest_weights, "huber": lambda: [None, W.Huber()], "bi": lambda: BI, "thomson": lambda: CHAIN, "default": lambda: (None,)}[name]()


class World:
    """data and files shared by the tasks"""

    def __init__(self, d, seed, store):
        r = rng(seed)
        self.dir = d
        self.rate, n = 64., 400
        self.files, self.values = [], []
        z, m = r.randn(1, 2) * 3, r.randn(4, 2)
        signals, t = [], 1000
        for k in range(2):
            b = r.randn(2, n)
            x = np.vstack([z.dot(b) + .1 * r.randn(1, n), b, m.dot(b) + .1 * r.randn(4, n)])
            x[0, n // 3] += 30
            x = np.round(x * 1e6)
            names = [os.path.join(d, f"run{k}", f"c{c}.ats") for c in range(7)]
            for c, p in enumerate(names):
                head = A.header(dict(sample_length=n, sampling_rate=self.rate, start=t, lsbval=1e-6), r, 1024 + 16 * c)
                A.write(p, head, x[c].astype("<i4"))
                self.files.append((p, 1024 + 16 * c))
                self.values.append(x[c].astype("<i4"))
            cals = [metronix_cal(c) for c in range(7)]
            if store == "ats":
                signals.append(ats.load_ats(names, cals))
            else:
                y = [v * 1e-6 for v in x]
                signals.append(rzb.SyncSignal([da.from_array(v, chunks=97) for v in y] if store == "dask" else y, self.rate, t, cals))
            t += 100
        self.data = rzb.SignalSet({"E": 0, "B": (1, 2), "R1": (3, 4), "R2": (5, 6)}, *signals)
        self.inventory = rzb.Inventory([self.data.select_channels(["E", "B"]), self.data.select_channels(["R1"]), self.data.select_channels(["R2"])])
        self.arrays = [BinaryFileArray_1D(p, off, n, np.dtype("<i4")) for p, off in self.files]
        self.lazy = [to_dask_array(a) for a in self.arrays]
        self.tables = []
        for k in range(3):
            p = os.path.join(d, f"MFS0{6 + k % 2}_{k}.txt")
            with open(p, "w") as fd:
                fd.write("".join(f"Chopper {x}\n" + "".join(f"{10. ** i} {1 + k + i + j * 10} {i * 7}\n" for i in range(4)) + "\n" for j, x in enumerate(["On", "Off"])))
            self.tables.append(p)
        self.slepian = slepian_window(1 + seed % 997 / 499)  # a new parameter
        self.window = slepian_window(4)


def metronix_cal(c):
    return lambda f: 1 + .1j * c * f


def digest(s):
    return [sorted((k, tuple(v)) for k, v in s.tags.items()), [(x.start, x.stop, x.sampling_rate, x.size, [np.array(v) for v in x.data], [c(3.) for c in x.calibrations]) for x in s.signals]]


def make_task(w, desc):
    """function without arguments, made before the threads start"""
    kind, k = desc["task"], desc["k"]
    f = [2., 3., 4., 6.][k % 4]
    data = w.data
    ws = make_weights(desc["w"])
    opts = dict(weights=ws, fourier_opts=dict(Nper=4, overlap=.5, window=[w.slepian, w.window, None, np.hanning][k // 4 % 4]), keep_invalid_times=True)
    if kind in ("impedance", "remote", "real", "prefilter"):
        if kind == "remote":
            opts["remote"] = ["R1", "R2"][k // 16 % 2]
        if kind == "real":
            opts["real_pb"] = True
        if kind == "prefilter":
            opts["prefilter"] = cod_filter(.3)
        return lambda: flat(impedance(data, [f, .7 * f], **opts))
    if kind == "mass":
        span = (data.starts[0], data.stops[-1])
        return lambda: flat(impedance_mass_proc(w.inventory, ["R1", "R2"], [f], [span], dict(weights=ws), combines_remotes=bool(k % 2)))
    if kind == "tf":
        r = rng(k)
        e, b = est.crandn(r, 2, 60), est.crandn(r, 2, 60)
        return lambda: flat(transfer_function(e, b, ws))
    if kind == "fourier":
        if k % 2:
            return lambda: flat(list(data.fourier_coefficients(f, 4, .5, w.slepian)[0]))
        x = [np.asarray(v) for v in data.signals[0].data]
        return lambda: flat(time_to_freq(x, w.rate, f, 5, .3, w.slepian)[0])
    if kind == "slepian":
        return lambda: [np.array(w.slepian(k % 50 + 10 + i)) for i in range(3)]
    if kind == "read":
        def read():
            q, out = random.Random(k), []
            for _ in range(6):
                a = w.arrays[q.randrange(3)]
                i = q.choice([slice(q.randrange(200), 200 + q.randrange(200)), slice(q.randrange(20), None, 1 + q.randrange(5)), q.randrange(400), slice(None, None, -1)])
                out.append(np.asarray(a[i]))
            out.append(w.lazy[k % 5][k % 300:].compute())
            return out
        return read
    if kind == "load":
        names = [w.files[7 * (k % 2) + c][0] for c in range(2 + k % 3)]
        return lambda: digest(rzb.SignalSet({"x": 0}, ats.load_ats(names)))
    if kind == "metronix":
        p = w.tables[k % 3]

        def calibrations():
            c = metronix(p, 100. if k // 3 % 2 else 1000.)
            return [complex(c(x)) for x in (1., 5., 700.)]
        return calibrations
    if kind == "tags":
        names = [f"s{i}/{c}_{i}.ats" for i in range(4) for c in "EB"]
        pattern = ["s{site}/{c}_*.ats", "{d}/{c}_{n}.ats", "s?/E_{n}.*"][k % 3]
        tags = ["{site}_{c}", "{d}", "{n}"][k % 3]
        return lambda: list(tags_from_path(names, pattern, tags))
    if kind == "sets":
        def sets():
            a = data.select_channels(["B", "E", [0, 2]][k % 3]).select_runs([slice(None), 0, [1]][k // 3 % 3])
            b = a.extract_t(a.starts[0] + k % 7 / 64, a.stops[-1] - 1)
            c = rzb.SignalSet(b.tags, *b.signals) if k % 2 else b.merge_consecutive_runs()
            halves = [data.extract_t(1000, 1002), data.extract_t(1003 + k % 5, 1200)]
            return [digest(a), digest(b), digest(c), digest(halves[0] | halves[1])]
        return sets
    if kind == "edit":
        # its own copy
        mine = data.select_channels([0, 1, 2, 3, 4])

        def edit():
            for i in range(5):
                mine.tags[f"t{k}_{i}"] = (i, (i + k) % 5)
                if i % 2:
                    del mine.tags[f"t{k}_{i - 1}"]
            return digest(mine)
        return edit
    if kind == "inventory":
        def inventory():
            a = w.inventory.filter(["*", "R*", "E"][k % 3])
            return [digest(s) for s in a] + [digest(w.inventory.pack()), digest(w.inventory.extract_groups([("Bremote", ["R2", "R1"])])[0])]
        return inventory
    return lambda: [str(data), repr(data.tags), str(data.signals[k % 2])]


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True) if a.dtype.kind in "fc" else np.array_equal(a, b))
    return a == b or a != a and b != b


def judge(descs, got, alone, how):
    for d, (failed, res), (failed0, res0) in zip(descs, got, alone):
        ensure(failed == failed0, "%s, %s: %r, alone: %r", d, how, res, res0)
        ensure(failed or same(res, res0), "%s, %s: %s, alone: %s", d, how, res, res0)


# ---------------------------------------------------------------- schedules

def schedule_cases():
    return st.fixed_dictionaries(dict(seed=est.seeds, store=st.sampled_from(["array", "dask", "ats"]), tasks=st.lists(task_descs(), min_size=2, max_size=4), twins=st.booleans(), p=st.sampled_from([.02, .1, .3, .7]), opcodes=st.booleans()))


def run_schedules(case, ctx):
    descs = case["tasks"]
    if case["twins"]:  # tasks of one kind
        descs = [dict(d, task=descs[0]["task"]) for d in descs]
    with scratch() as d:
        quiet(schedules, d, case, descs, ctx)


def schedules(d, case, descs, ctx):
    w = World(d, case["seed"], case["store"])
    watched = [Content(w.data), Content(w.inventory)]
    with dask.config.set(scheduler="synchronous"):
        s = Deterministic(case["seed"], case["p"] * (.3 if case["opcodes"] else 1), case["opcodes"])
        errors = [None] * len(descs)

        def with_errors(k, task):
            def body():
                # a state of each thread
                old = dict(divide="ignore", over=["warn", "ignore"][k % 2], under=["ignore", "warn"][k // 2 % 2], invalid=["ignore", "warn"][k % 2])
                np.seterr(**old)
                try:
                    return task()
                finally:
                    errors[k] = old, np.geterr()
            return body
        got = s.run([with_errors(k, make_task(w, x)) for k, x in enumerate(descs)])
        for x, (old, new) in zip(descs, errors):
            ensure(new == old, "%s with %s: error handling of numpy in its thread: %s, was %s", x, [x["task"] for x in descs], new, old)
        alone = [outcome(make_task(w, x)) for x in descs]
    judge(descs, got, alone, f"with {[x['task'] for x in descs]}")
    for c in watched:
        c.check("concurrent tasks")
    ctx.nontrivial(s.switches >= 10 and not s.free)
    ctx.label(*[x["task"] for x in descs])
    if s.free:
        ctx.label("free schedule")
    if any(f for f, _ in alone):
        ctx.label("refused")


# ---------------------------------------------------------------- dask

def dask_cases():
    return st.fixed_dictionaries(dict(
        seed=est.seeds, n=st.integers(20, 300), files=st.integers(1, 4), workers=st.integers(2, 8), chunk=st.sampled_from([16, 40, 100, 400]), p=st.sampled_from([.05, .3, .8]), users=st.integers(1, 3),
        dtype=st.sampled_from(["<i2", "<i4", "<f8", ">i4"]), steps=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 300), st.integers(0, 300), st.sampled_from([1, 1, 2, -1])).map(list), min_size=2, max_size=10)))


def run_dask(case, ctx):
    r = rng(case["seed"])
    dtype = np.dtype(case["dtype"])
    with scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        values, lazy = [], []
        with dask.config.set({"array.chunk-size": f"{case['chunk']} B"}):
            for k in range(case["files"]):
                v = r.randint(-30000, 30000, case["n"]).astype(dtype)
                p = os.path.join(d, f"{k}.bin")
                with open(p, "wb") as fd:
                    fd.write(bytes(k) + v.tobytes())
                values.append(v)
                lazy.append(to_dask_array(BinaryFileArray_1D(p, k, case["n"], dtype)))
        parts, want = [], []
        for k, a, b, step in case["steps"]:
            k, a, b = k % len(lazy), *sorted((a % case["n"], b % case["n"]))
            i = slice(a, b + 1, step) if step > 0 else slice(b, None if a == 0 else a - 1, step)
            parts.append(lazy[k][i])
            want.append(values[k][i])
        with Noise(case["seed"], case["p"]) as noise:
            with concurrent.futures.ThreadPoolExecutor(case["workers"]) as pool, concurrent.futures.ThreadPoolExecutor(case["users"]) as users:
                jobs = [users.submit(dask.compute, *parts, scheduler="threads", pool=pool) for _ in range(case["users"])]
                got = [j.result() for j in jobs]
        for res in got:
            for k, (x, v) in enumerate(zip(res, want)):
                ensure(x.dtype == v.dtype and np.array_equal(x, v), "%s of %s: %s, expected %s", case["steps"][k], case["n"], x, v)
        ctx.nontrivial(noise.pauses > 3)
        ctx.label(f"{case['users']} users", "chunks" if len(lazy[0].chunks[0]) > 1 else "one chunk")


SUBS = [
    Sub("schedules", schedule_cases, run_schedules, "at least ten changes of thread inside the package", quick=150, thorough=6000, qshards=7),
    Sub("dask", dask_cases, run_dask, "threads paused inside the package", quick=200, thorough=10000, qshards=2),
]
