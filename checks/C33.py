"""C33: processing has no side effects and can be repeated."""
import copy

import dask.array as da
import numpy as np
from hypothesis import strategies as st

from rzbv import est, imp
from rzbv.engine import Sub, Violation, ensure
from rzbv.globalstate import GlobalState
from rzbv.imp import quiet
from rzbv.num import rng
from rzbv.sched import outcome
from rzbv.sut import rzb
from razorback import weights as W
from razorback.fourier_transform import time_to_freq
from razorback.mestimator import transfer_error, transfer_function
from razorback.prefilters import cod_filter
from razorback.utils import (apply_prefilter, compute_prefilter, impedance, impedance_mass_proc, prefilter_values,
                             prefilter_values_mass_proc, transfer_function_real_prob)


def equal(a, b):
    "same types, structure and values"
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, dict):
        return type(a) is type(b) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    return a is b or (type(a) is type(b) and a == b)


def close(a, b):
    "same values, up to the order of sums"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(close, a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.dtype == object or np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True))


class Content:
    "what a signal set holds"

    def __init__(self, s):
        self.sets = list(s) if isinstance(s, rzb.Inventory) else [s]
        self.whole = s
        self.state = [self.of(x) for x in self.sets]

    @staticmethod
    def of(s):
        return dict(tags={k: tuple(v) for k, v in s.tags.items()}, order=list(s.tags), n=len(s.tags.indices), signals=[id(r) for r in s.signals],
                    runs=[(r.start, r.stop, r.sampling_rate, r.size, [id(c) for c in r.calibrations]) for r in s.signals],
                    data=[[np.array(x, copy=True) for x in r.data] for r in s.signals])

    def check(self, what):
        now = list(self.whole) if isinstance(self.whole, rzb.Inventory) else [self.whole]
        ensure(len(now) == len(self.sets) and all(a is b for a, b in zip(now, self.sets)), "%s: the inventory changed", what)
        for s, old in zip(now, self.state):
            new = self.of(s)
            for k in old:
                ensure(equal(new[k], old[k]), "%s: %s of the data changed: %s, was %s", what, k, new[k], old[k])


WEIGHTS = ["default", "ls", "mest", "bi", "huber", "thomson", "list", "iter"]


def weights(name):
    return {"default": None, "ls": W.least_square, "mest": W.mest_weights, "bi": W.bi_weights(.01, 2), "huber": (None, W.Huber()), "thomson": [None, W.Thomson()],
            "list": [None, W.Huber(1.2), W.Thomson(2.8)], "iter": W.Weights(iter([None, W.Huber(1.2), W.Thomson(2.8)]))}[name]


OPS = ["impedance", "impedance", "remote", "real", "mass", "fail", "silent", "prefilter", "tf", "tf_real", "tf_fail", "error", "values", "values_mass", "compute", "apply", "weight", "fft", "other", "stored"]


def cases():
    op = st.fixed_dictionaries(dict(op=st.sampled_from(OPS), nf=st.sampled_from([.05, .1, .2, .3]), w=st.sampled_from(WEIGHTS), keep=st.booleans(), remote=st.booleans(),
                                    combines=st.booleans(), cod=st.sampled_from([.1, .5, .9]), k=st.integers(0, 10 ** 6)))
    return st.fixed_dictionaries(dict(
        seed=est.seeds, store=st.sampled_from(["array", "view", "list", "dask", "float32", "readonly"]), ne=st.integers(1, 2), nb=st.integers(1, 2), n=st.integers(600, 1500), runs=st.integers(1, 2),
        rate=st.sampled_from([1., 64.]), cal=st.booleans(), fourier=imp.fourier_opts(dense=True), mest=st.booleans(), names=st.sampled_from([["R1", "R2"], ["Bremote", "R2"], ["site", "Bremote"]]), ops=st.lists(op, min_size=1, max_size=5)))


def run(case, ctx):
    r = rng(case["seed"])
    ne, nb, n, rate = case["ne"], case["nb"], case["n"], case["rate"]
    store = {"array": lambda x: x.copy(), "view": lambda x: np.repeat(x, 2)[::2], "list": lambda x: x.tolist(), "dask": lambda x: da.from_array(x.copy(), chunks=317),
             "float32": lambda x: x.astype("f4"), "readonly": None}[case["store"]]

    def readonly(x):
        x = x.copy()
        x.flags.writeable = False
        return x

    store = store or readonly
    cal = (lambda f: 1. + .5j * f) if case["cal"] else 2.
    nch = ne + 3 * nb

    def make(seed):
        q = rng(seed)
        runs, t = [], 5.
        z, m = q.randn(ne, nb) * 3, q.randn(2 * nb, nb)
        for _ in range(case["runs"]):
            b = q.randn(nb, n)
            x = np.vstack([z.dot(b) + .1 * q.randn(ne, n), b, m.dot(b) + .1 * q.randn(2 * nb, n)])
            x[0, n // 3] += 30
            runs.append(rzb.SyncSignal([store(c) for c in x], rate, t, [cal] * nch))
            t += 2 * n / rate
        span = lambda a, k: tuple(range(a, a + k))
        return rzb.SignalSet({"E": span(0, ne), "B": span(ne, nb), case["names"][0]: span(ne + nb, nb), case["names"][1]: span(ne + 2 * nb, nb)}, *runs)

    data, second = make(case["seed"]), make(case["seed"] + 1)
    both = rzb.Inventory([data.select_channels(["E", "B"]), data.select_channels(case["names"])])
    watched = [Content(data), Content(second), Content(both)]
    shared = {w: weights(w) for w in WEIGHTS}  # the same objects all along
    fourier = imp.make_opts(case["fourier"])
    interval = data.starts[0] - 1., data.stops[-1] + 1.
    names = list(case["names"])
    e = est.crandn(r, ne, 80)
    b = est.crandn(r, nb, 80)
    e += 3 * est.crandn(r, ne, nb).dot(b)
    e[:, 5] += 100
    first = {}
    seq = case["ops"] + case["ops"][:1]
    for pos, o in enumerate(seq):
        f = o["nf"] * rate
        w = shared[o["w"]]
        kind = o["op"]
        mest = [None, {}, dict(maxit=200), dict(tol=.02)][o["k"] % 4 if case["mest"] else 0]
        kw = dict(fourier_opts=fourier, keep_invalid_times=o["keep"], mest_opts=mest)
        if w is not None:
            kw["weights"] = w
        if o["remote"] or kind == "remote":
            kw["remote"] = names[0]
        freqs = [f, .8 * f]
        ivid = [np.array([3, 7])] * ne
        if kind in ("impedance", "remote"):
            args, func = (data, freqs), impedance
        elif kind == "real":
            args, func, kw = (data, freqs), impedance, dict(kw, real_pb=True)
        elif kind == "prefilter":
            args, func, kw = (data, np.array(freqs)), impedance, dict(kw, prefilter=cod_filter(o["cod"]))
        elif kind == "mass":
            opts = dict(kw)
            opts.pop("remote", None)
            args, func, kw = (both, names, freqs, [interval], opts), impedance_mass_proc, dict(combines_remotes=o["combines"])
        elif kind == "fail":
            args, func, kw = (data, freqs), impedance, dict(kw, mest_opts=dict(maxit=1), weights=shared["mest"], silent_fail=False)
        elif kind == "silent":
            args, func, kw = (data, [f, 1e-6 * rate, 3 * rate]), impedance, dict(kw, mest_opts=dict(maxit=1), weights=shared["mest"], silent_fail=True)
        elif kind == "other":
            args, func = (second, freqs), impedance
        elif kind in ("tf", "tf_real", "tf_fail"):
            func = transfer_function_real_prob if kind == "tf_real" else transfer_function
            args, kw = (e, b), dict(invalid_idx=ivid if o["keep"] else None)
            if w is not None:
                kw["weights"] = w
            if kind == "tf_fail":
                kw.update(weights=shared["mest"], maxit=1)
        elif kind == "stored":
            q = rng(o["k"])
            stored = [np.ones(80), 1. + q.rand(80)]
            stored[0][q.permutation(80)[:o["k"] % 7]] = 0.
            for x in stored:
                x.flags.writeable = o["keep"]
            kept = stored[0].copy(), stored[1].copy()
            func, args, kw = transfer_function, (e, b), dict(weights=[None, Stored(stored)], tol=1e9)
            if o["remote"]:
                kw.update(init=3 * est.crandn(q, ne, nb))
        elif kind == "error":
            args, func, kw = (e, b, np.zeros((ne, nb)), ivid), transfer_error, {}
        elif kind == "values":
            args, func, kw = (data, freqs, cod_filter(o["cod"])), prefilter_values, dict(fourier_opts=fourier, remote=names[0] if o["remote"] else None)
        elif kind == "values_mass":
            args, func, kw = (data, names, freqs, [interval], cod_filter(o["cod"])), prefilter_values_mass_proc, {}
        elif kind == "compute":
            args, func, kw = (data, f, cod_filter(o["cod"])), compute_prefilter, dict(fourier_opts=fourier, remote=names[0] if o["remote"] else None)
        elif kind == "apply":
            args, func, kw = (e, b, cod_filter(o["cod"]), ivid if o["keep"] else None), apply_prefilter, {}
        elif kind == "weight":
            step = [x for x in W.bi_weights(.02, 2) if x is not None][o["k"] % 3] if o["keep"] else [W.Huber(), W.Thomson()][o["k"] % 2]
            res_ = e[0].copy()
            res_[3] = np.nan
            args, func, kw = (0, res_, e[0], b.T, np.array([3])), step, {}
        else:
            x = [np.asarray(c) for c in data.signals[0].data[:2]]
            args, func, kw = (x, rate, f, 5, .5, np.hanning(int(np.ceil(5 / (f / rate)))) if o["keep"] else None), time_to_freq, {}
        frozen = [a for a in args if not isinstance(a, (rzb.SignalSet, rzb.Inventory))], kw
        before = snapshot(frozen)
        what = f"{kind} with {o['w']} weights"
        failed = None

        def observed():
            np.seterr(all="warn")  # within quiet()
            state = GlobalState()
            try:
                return func(*args, **kw)
            finally:
                state.check(what, lambda: outcome(lambda: func(*args, **kw)))
        try:
            res = quiet(observed)
        except Violation:
            raise
        except Exception as exc:
            failed, res = type(exc), None
        ensure(equal(snapshot(frozen), before), "%s: arguments changed: %s, were %s", what, frozen, before)
        for c in watched:
            c.check(what)
        if kind == "stored":
            ensure(equal(tuple(stored), kept), "%s: the arrays of the weight function changed", what)
        if pos == 0:
            first = failed, copy.deepcopy(flat(res))
        if pos == len(seq) - 1:
            ensure(failed == first[0] and (failed or close(flat(res), first[1])), "%s: again after %s: %s %s, was %s", what, [x["op"] for x in case["ops"]], failed, res, first)
        ctx.label(kind)
        if failed:
            ctx.label("refused")
        elif kind not in ("error", "apply", "weight", "fft"):
            ctx.nontrivial(len(case["ops"]) > 1)


class Stored:
    """weight function that returns its own arrays in turn"""

    def __init__(self, arrays):
        self.arrays = arrays

    def __call__(self, it, residual, e, b, invalid_idx):
        return self.arrays[it % 2]


def flat(res):
    if isinstance(res, tuple):
        return [flat(x) for x in res]
    if isinstance(res, list):
        return [flat(x) for x in res]
    return res


def snapshot(x):
    "copy of arrays, lists, tuples and dicts; other objects are themselves"
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(snapshot(v) for v in x)
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    return x


# ---------------------------------------------------------------- state of the process

def state_cases():
    from checks import C34
    return st.fixed_dictionaries(dict(seed=est.seeds, store=st.sampled_from(["array", "dask", "ats"]), tasks=st.lists(C34.task_descs(), min_size=1, max_size=4), err=st.sampled_from(["ignore", "warn"]), rand=st.integers(0, 99)))


def run_state(case, ctx):
    from checks import C34
    with C34.scratch() as d:
        kept = np.random.get_state()
        try:
            quiet(state, C34, d, case, ctx)
        finally:
            np.random.set_state(kept)


def state(C34, d, case, ctx):
    np.seterr(all=case["err"])
    np.random.seed(case["rand"])
    w = C34.World(d, case["seed"], case["store"])
    watched = [Content(w.data), Content(w.inventory)]
    for t in case["tasks"]:
        task = C34.make_task(w, t)
        before = GlobalState()
        failed, res = C34.outcome(task)
        before.check(f"{t}", lambda: C34.outcome(C34.make_task(w, t)))
        for c in watched:
            c.check(f"{t}")
        again = C34.outcome(C34.make_task(w, t))
        ensure(again[0] == failed and (failed or C34.same(again[1], res)), "%s, again: %s, was %s", t, again[1], res)
        before.check(f"{t}")
        ctx.label(t["task"])
        ctx.nontrivial(not failed)


SUBS = [
    Sub("history", cases, run, "a history of at least two operations, one of which processes the signal set", quick=200, thorough=8000, qshards=6),
    Sub("state", state_cases, run_state, "a task succeeded", quick=150, thorough=6000, qshards=4),
]
