"""C21: frequencies are processed independently and failures stay contained."""
import numpy as np
from hypothesis import strategies as st

from rzbv import imp
from rzbv.engine import Sub, ensure, refuses
from rzbv.imp import quiet
from rzbv.num import rng
from rzbv.sut import rzb  # noqa
from razorback import weights as W
from razorback.prefilters import cod_filter
from razorback.utils import impedance

# frequencies: index in a list of normalised ones; the rest cannot be processed
GOOD = [.1, .2, .3, .12, .25, .4, .15, .22, .33, .27, .36, .18,
        .1003, .2006, .2997, .1206]  # windows as long as for others
BAD = {"nyquist": .75, "high": 30., "too low": 1e-5, "zero": 0., "negative": -.1, "nan": float("nan")}


def freq_lists():
    one = st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), st.sampled_from(sorted(BAD)))
    more = st.one_of(*[st.integers(0, 15)] * 5, st.sampled_from(sorted(BAD)))
    return st.one_of(*[st.lists(one, min_size=1, max_size=6)] * 11, st.lists(more, min_size=6, max_size=14))


def faults():
    """what happens at some of the good frequencies, in the weights or prefilter of a stage"""
    return st.fixed_dictionaries(dict(
        where=st.sampled_from(["weights", "prefilter", "remote_weights", "remote_prefilter"]),
        how=st.sampled_from(["raise", "nan", "zeros", "never", "all", "index", "custom"]), at=st.lists(st.integers(0, 5), min_size=1, max_size=3, unique=True)))


def cases():
    return st.fixed_dictionaries(dict(
        site=imp.sites(nb=(1, 3), size=(500, 900), noise=(1e-3, .3), runs=(1, 2)), opts=imp.fourier_opts(), freqs=freq_lists(), weights=imp.weightings(),
        remote_weights=st.one_of(st.none(), imp.weightings()), real=st.booleans(), faults=st.lists(faults(), max_size=2), prefilter=st.sampled_from([None, None, "cod", "fixed", "phase"]),
        keep=st.booleans(), near=st.booleans(), order=st.integers(0, 10 ** 6), before=freq_lists(), container=st.sampled_from(["list", "array", "tuple", "iterator"])))


class Odd(Exception):
    pass


class Setup:
    def __init__(self, case):
        self.case = case
        self.site = imp.Site(case["site"])
        self.opt = imp.make_opts(case["opts"])
        self.data = self.site.signal_set()
        # values of the coefficients at each good frequency: faults recognise it by them
        self.values = {}
        for k, nf in enumerate(GOOD):
            f = nf * self.site.rate
            if self.site.enough(f, self.opt, 3 * self.site.nb + 4 * self.site.nr + 8):
                c, _ = self.data.fourier_coefficients(f, **imp.full_opts(self.opt))
                c = np.array([c[i] for i in self.site.ie + self.site.ib])
                self.values[k] = set(c.real.ravel().tolist()) | set(c.imag.ravel().tolist())

    def freq(self, x):
        if isinstance(x, str):
            return BAD[x] * min(rate for rate, _, _ in self.site.runs)
        return GOOD[x] * self.site.rate

    def processable(self, x):
        return x in self.values

    def fault_at(self, x):
        "is some fault due at this frequency"
        return any(x in f["at"] for f in self.active())

    def active(self):
        return [f for f in self.case["faults"] if self.site.nr or not f["where"].startswith("remote")]

    def due(self, fault, e):
        x = float(np.real(np.asarray(e)[0]))
        return any(x in self.values[k] for k in fault["at"] if k in self.values)

    def kwargs(self):
        case, site = self.case, self.site
        kw = dict(site.tag_args(), real_pb=case["real"], keep_invalid_times=case["keep"])
        if self.opt:
            kw["fourier_opts"] = self.opt

        def weighting(where, base):
            for f in self.active():
                if f["where"] != where:
                    continue

                def faulty(it, residual, e, b, invalid_idx, fault=f, how=f["how"]):
                    n = len(e)
                    if not self.due(fault, e):
                        return np.ones(n)
                    if how == "custom":
                        raise Odd("fault")
                    if how in ("raise", "index"):
                        raise (ValueError if how == "raise" else IndexError)("fault")
                    if how == "nan":
                        return np.full(n, np.nan)
                    if how == "never":
                        return np.exp(3 * rng(it).uniform(-1, 1, n) * 5 ** (it % 2))
                    return np.zeros(n)
                base = [None, faulty] + [w for w in base if w is not None]
            return base

        def filtering(where, base):
            for f in self.active():
                if f["where"] != where:
                    continue

                def faulty(e, b, fault=f, how=f["how"], inner=base):
                    if self.due(fault, e):
                        if how in ("zeros", "all", "nan", "never"):
                            return np.arange(len(e))
                        raise {"custom": Odd, "index": IndexError}.get(how, ValueError)("fault")
                    return inner(e, b) if inner else np.array([], dtype=int)
                base = faulty
            return base

        base = {None: None, "cod": cod_filter(.05, 1., 20), "fixed": lambda e, b: np.array([0, 3]),
                "phase": lambda e, b: np.flatnonzero(np.angle(e) > 2.2)}[case["prefilter"]]
        kw["prefilter"] = filtering("prefilter", base)
        kw["weights"] = weighting("weights", imp.make_weights(case["weights"]))
        if site.nr:
            rw = case["remote_weights"]
            has = [f["where"] for f in self.active()]
            if rw or "remote_weights" in has:
                kw["remote_weights"] = weighting("remote_weights", imp.make_weights(rw or case["weights"]))
            if "remote_prefilter" in has:
                kw["remote_prefilter"] = filtering("remote_prefilter", base)
        return kw


def listed(freqs, container):
    return {"array": np.array, "tuple": tuple, "iterator": iter}.get(container, list)(freqs)


def same(a, b, what):
    ensure(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True), "%s: %s, expected %s", what, a, b)


def run_independent(case, ctx):
    su = Setup(case)
    site = su.site
    xs = [x for x in case["freqs"] if isinstance(x, str) or su.processable(x)]
    if not xs:
        return
    if case["near"]:
        xs += [x + 12 for x in dict.fromkeys(xs) if x in range(4) and su.processable(x + 12)][:2]
    kw = su.kwargs()

    def go(xs, **more):
        return quiet(impedance, su.data, listed([su.freq(x) for x in xs], case["container"]), **dict(kw, **more))

    singles = {x: go([x]) for x in dict.fromkeys(xs)}
    shapes = dict(impedance=(site.ne, site.nb), error=(site.ne, site.nb), transfer_mag=(site.nb, site.nr))
    failed = {}
    for x, s in singles.items():
        for name, shape in shapes.items():
            v = np.asarray(getattr(s, name))
            ensure(v.shape == (1,) + shape, "%s at %s: shape %s, expected %s", name, x, v.shape, (1,) + shape)
            if name != "transfer_mag":
                # the whole tensor or nothing
                bad = np.isnan(v)
                ensure(bad.all() or not bad.any(), "%s at %s: %s", name, x, v)
        failed[x] = np.isnan(s.impedance).all()
        ensure(failed[x] == np.isnan(s.error).all(), "impedance %s, error %s at %s", s.impedance, s.error, x)
        if site.nr:
            ensure(np.isnan(s.transfer_mag).all() == failed[x], "transfer_mag %s at %s", s.transfer_mag, x)
        if isinstance(x, str):
            ensure(failed[x], "%s is processed: %s", x, s.impedance)
        elif su.fault_at(x):
            ensure(failed[x], "%s is processed in spite of %s: %s", x, case["faults"], s.impedance)
        elif all(w is None or w[0] in ("ls", "none") for w in (case["weights"], case["remote_weights"])) and case["prefilter"] != "cod":
            ensure(not failed[x], "%s is not processed", su.freq(x))
        ensure(len(s.invalid_time) == 1, "invalid times %s", s.invalid_time)
        iv = s.invalid_time[0]
        ensure(len(iv) == (0 if failed[x] else site.ne), "invalid times at %s: %s", x, iv)
        if not case["keep"]:
            ensure(all(len(v) == 0 for v in iv), "invalid times at %s: %s", x, iv)

    def compare(xs, res, what):
        for name, shape in shapes.items():
            v = np.asarray(getattr(res, name))
            ensure(v.shape == (len(xs),) + shape, "%s: %s of shape %s, expected %s", what, name, v.shape, (len(xs),) + shape)
            for k, x in enumerate(xs):
                same(v[k], getattr(singles[x], name)[0], f"{what}: {name} at {x}, among {xs}")
        ensure(len(res.invalid_time) == len(xs), "%s: %d lists of invalid times", what, len(res.invalid_time))
        for k, x in enumerate(xs):
            ensure(len(res.invalid_time[k]) == len(singles[x].invalid_time[0]), "%s: invalid times at %s", what, x)
            for a, b in zip(res.invalid_time[k], singles[x].invalid_time[0]):
                same(a, b, f"{what}: invalid times at {x}")

    compare(xs, go(xs), "together")
    q = [xs[i] for i in rng(case["order"]).permutation(len(xs))]
    # other uses of the same options before
    before = [x for x in case["before"] if isinstance(x, str) or su.processable(x)]
    if before:
        go(before)
    compare(q, go(q), "other order")
    ctx.nontrivial(len(singles) > 1 and not all(failed.values()))
    ctx.label(f"{sum(failed.values())} of {len(failed)} fail" if len(failed) < 4 else "4 or more", *(f["where"] for f in su.active()))

    # failures raised on request
    def go_loud(xs):
        return go(xs, silent_fail=False)
    for x in singles:
        if not isinstance(x, str) and failed[x]:
            ctx.label("raised")
            refuses(f"{x} without silent failing", lambda: go_loud([x]))
            refuses(f"{xs} without silent failing", lambda: go_loud(xs))
        elif not isinstance(x, str):
            compare([x], go_loud([x]), "loud")


SUBS = [
    Sub("independent", cases, run_independent, "several frequencies of which at least one is processed", quick=250, thorough=8000, qshards=8),
]
