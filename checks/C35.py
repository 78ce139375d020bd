"""C35: impedance composes its stages, each with its own options."""
import numpy as np
from hypothesis import strategies as st

from rzbv import est, imp
from rzbv.engine import Sub, ensure
from rzbv.imp import quiet
from rzbv.num import rng
from rzbv.sut import rzb  # noqa
from razorback import weights as W
from razorback.mestimator import transfer_error, transfer_function
from razorback.prefilters import cod_filter
from razorback.utils import impedance, transfer_function_real_prob

TOL = 1e-7


# ---------------------------------------------------------------- what users give

def weight_steps():
    step = st.sampled_from([["ls"], ["huber", 1.5], ["huber", 1.], ["thomson", None], ["thomson", 3.], ["custom", 3.], ["custom", 2.], ["slow", 1.5], ["fails", 2]])
    return st.one_of(st.none(), st.just([["ls"]]), st.lists(step, min_size=0, max_size=2).map(lambda l: [["ls"]] + l), st.lists(step, min_size=1, max_size=3).map(lambda l: [["ls"]] + l))


def prefilters():
    return st.one_of(st.none(), st.none(), st.tuples(st.just("fixed"), st.integers(0, 2 ** 30), st.sampled_from([.05, .2, .4, .6])).map(list),
                     st.tuples(st.just("cod"), st.sampled_from([.5, .8, .95]), st.sampled_from([8, 12])).map(list), st.tuples(st.just("by line"), st.integers(0, 2 ** 30), st.sampled_from([.2, .4])).map(list),
                     st.just(["all", 0, 0]), st.just(["raises", 0, 0]))


def cases():
    common = dict(nb=(1, 2), ne=(1, 2), size=(700, 1600), noise=(.05, .5), runs=(1, 2), extra=(0, 1))
    return st.fixed_dictionaries(dict(
        site=st.one_of(imp.sites(**common), imp.sites(remote=True, **common)), opts=imp.fourier_opts(), nfs=st.lists(st.floats(.06, .4), min_size=1, max_size=2),
        spikes=st.integers(0, 12), weights=weight_steps(), remote_weights=weight_steps(), prefilter=prefilters(), remote_prefilter=prefilters(),
        mest=st.one_of(st.just({}), st.fixed_dictionaries({}, optional=dict(tol=st.sampled_from([1e-1, 1e-4, 1e-6, .5]), maxit=st.sampled_from([2, 3, 5, 8, 200]), eps=st.sampled_from([1e-3, 1e-2, .2])))),
        real=st.booleans(), keep=st.sampled_from([True, True, True, False]), silent=st.sampled_from([True, True, False])))


class Log:
    "calls of the users' functions"

    def __init__(self):
        self.calls = []

    def weight(self, stage, k, spec):
        kind = spec[0]
        if kind == "ls":
            return None
        if kind in ("huber", "thomson"):
            f = W.Huber(spec[1]) if kind == "huber" else W.Thomson(spec[1])
        elif kind == "slow":
            # far from settled: 1.5 ** -iteration of the samples' weights
            f = lambda it, res, e, b, iv: np.where(np.arange(len(e)) % 2, 1., spec[1] ** -it)  # noqa
        elif kind == "fails":
            def f(it, res, e, b, iv):
                if it >= spec[1] - 1:
                    raise ZeroDivisionError("weights")
                return np.linspace(.5, 1., len(e))
        else:
            def f(it, res, e, b, iv):
                x = np.abs(res) / np.nanmedian(np.abs(res))
                w = 1 / (1 + x ** 2)
                w[~(x < spec[1] * 2)] = 0
                return w

        def weight(it, res, e, b, iv):
            self.calls.append((stage, k, it, len(e), np.shape(b)[1], sorted(np.asarray(iv).tolist()), float(np.nansum(np.abs(res))), float(np.abs(e).sum()), float(np.abs(b).sum())))
            return f(it, res, e, b, iv)
        return weight

    def prefilter(self, stage, spec):
        if spec is None:
            return None
        kind, a, c = spec

        def prefilter(e, b):
            n = len(e)
            self.calls.append((stage, "prefilter", n, np.shape(b), float(np.abs(e).sum()), float(np.abs(b).sum())))
            if kind == "cod":
                return cod_filter(a, size=c)(e, b)
            if kind == "all":
                return np.arange(n)
            if kind == "raises":
                raise ZeroDivisionError("prefilter")
            seed = a if kind == "fixed" else int(a + 1e3 * np.abs(e[0]) / np.abs(e).max())
            return np.sort(rng(seed % 2 ** 31).permutation(n)[:int(c * n)])
        return prefilter


def options(case, log, remote):
    "keyword arguments of impedance"
    w, rw, pf, rp = case["weights"], case["remote_weights"], case["prefilter"], case["remote_prefilter"]
    kw = {}
    if w is not None:
        kw["weights"] = tuple(log.weight("main", k, s) for k, s in enumerate(w))
    if pf is not None:
        kw["prefilter"] = log.prefilter("main", pf)
    if remote:
        if rw is not None:
            kw["remote_weights"] = [log.weight("remote", k, s) for k, s in enumerate(rw)]
        if rp is not None:
            kw["remote_prefilter"] = log.prefilter("remote", rp)
    if case["mest"]:
        kw["mest_opts"] = dict(case["mest"])
    return kw


# ---------------------------------------------------------------- the composition

def filtered(prefilter, outputs, inputs, invalid):
    if prefilter is None:
        return invalid
    res = []
    for line, iv in zip(outputs, invalid):
        new = np.asarray(prefilter(np.asarray(line), np.transpose(inputs)))
        res.append(np.array(sorted(set(iv) | set(new.tolist())), dtype=int))
    return res


def compose(coeffs, ie, ib, ir, kw, real):
    tf = transfer_function_real_prob if real else transfer_function
    mest = kw.get("mest_opts", {})
    weights, pf = kw.get("weights", (None,)), kw.get("prefilter")
    e, b = [coeffs[i] for i in ie], [coeffs[i] for i in ib]
    T = None
    none = np.empty(0, dtype=int)
    invalid = [none] * len(e)
    if ir:
        r = [coeffs[i] for i in ir]
        iv = filtered(kw.get("remote_prefilter", pf), b, r, [none] * len(b))
        T, out = tf(b, r, kw.get("remote_weights", weights), invalid_idx=iv, **mest)
        b = list(np.asarray(T).dot(np.array(r)))
        rejected = sorted({int(i) for l in out for i in l})
        invalid = [np.array(rejected, dtype=int)] * len(e)
    iv = filtered(pf, e, b, invalid)
    z, out = tf(e, b, weights, invalid_idx=iv, **mest)
    err = transfer_error(e, b, z, out)
    return T, z, err, [sorted(int(i) for i in l) for l in out]


def unstable(coeffs, ie, ib, ir, make, real, ref):
    "do decisions of the reference itself change with rounding"
    for s in range(3):
        r = rng(s)
        noisy = [c * (1 + 1e-10 * est.crandn(r, len(c))) for c in coeffs]
        try:
            T, z, err, out = quiet(compose, noisy, ie, ib, ir, make(Log()), real)
        except Exception:
            return True
        if ref is None or out != ref[3] or np.abs(z - ref[1]).max() > 1e-6 * np.abs(ref[1]).max():
            return True
    return False


def site_of(case):
    site = imp.Site(case["site"])
    r = rng(case["site"]["seed"] + 5)
    for _, _, data in site.runs:
        for _ in range(case["spikes"]):
            c = r.randint(len(data))
            data[c, r.randint(data.shape[1])] += 60 * data[c].std()
    return site


def same_calls(got, want, what):
    # in order, for each function
    got, want = (sorted(l, key=lambda c: str(c[:2])) for l in (got, want))
    ensure(len(got) == len(want), "%s: %s calls of the given functions, expected %s: %s, expected %s", what, len(got), len(want), [c[:3] for c in got], [c[:3] for c in want])
    for k, (g, w) in enumerate(zip(got, want)):
        ensure(len(g) == len(w), "%s: call %s: %s, expected %s", what, k, g, w)
        for x, y in zip(g, w):
            same = abs(x - y) <= 1e-5 * abs(y) + 1e-300 if isinstance(y, float) else x == y
            ensure(same or (isinstance(y, float) and np.isnan(x) and np.isnan(y)), "%s: call %s: %s, expected %s", what, k, g, w)


def near(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b)
    ensure(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    ensure((np.abs(a - b) <= tol * np.abs(b) + 0).all(), "%s: %s, expected %s", what, a, b)


def run(case, ctx):
    site = site_of(case)
    opt = imp.make_opts(case["opts"])
    freqs = [f for f in (nf * site.rate for nf in case["nfs"]) if site.enough(f, opt, 30)]
    if not freqs:
        return
    data = site.signal_set()
    real = case["real"]
    times, refs, logs, coeffs_of = [], [], [], []
    failure = None
    for f in freqs:
        coeffs, (nw, lw, sh) = data.fourier_coefficients(f, **imp.full_opts(opt))
        t = [s.start + (np.arange(n) * h + .5 * L) / s.sampling_rate for s, n, L, h in zip(data.signals, nw, lw, sh)]
        times.append(np.concatenate(t))
        coeffs_of.append(coeffs)
        log = Log()
        try:
            ref = quiet(compose, coeffs, site.ie, site.ib, site.ir, options(case, log, bool(site.nr)), real)
            if not all(np.isfinite(x).all() for x in ref[:3] if x is not None):
                return
        except Exception as e:
            ref = None
            if failure is None:
                failure = type(e)
        refs.append(ref)
        logs.append(log.calls)

    log = Log()
    kw = dict(site.tag_args(), **options(case, log, bool(site.nr)))
    kw.update(real_pb=real)
    if case["keep"]:
        kw["keep_invalid_times"] = True
    if opt:
        kw["fourier_opts"] = opt
    if not case["silent"]:
        kw["silent_fail"] = False

    def borderline():
        return any(unstable(c, site.ie, site.ib, site.ir, lambda g: options(case, g, bool(site.nr)), real, ref) for c, ref in zip(coeffs_of, refs))

    def judge():
        if failure is not None and not case["silent"]:
            try:
                quiet(impedance, data, freqs, **kw)
            except Exception as e:
                ensure(type(e) is failure, "raised %s: %s, expected %s", type(e).__name__, e, failure.__name__)
            else:
                ensure(False, "no exception, expected %s", failure.__name__)
            ctx.label("raised")
            return
        res = quiet(impedance, data, freqs, **kw)
        same_calls(log.calls, [c for l in logs for c in l], "weights and prefilters")
        for k, (f, ref) in enumerate(zip(freqs, refs)):
            what = f"frequency {f}"
            if ref is None:
                ensure(np.isnan(res.impedance[k]).all() and np.isnan(res.error[k]).all(), "%s: %s, but the stages fail", what, res.impedance[k])
                continue
            T, z, err, out = ref
            near(res.impedance[k], z, TOL * 10, what + ": impedance")
            near(res.error[k], err, TOL * 10, what + ": error")
            if site.nr:
                near(res.transfer_mag[k], T, TOL * 10, what + ": remote transfer")
            if case["keep"]:
                for c, (got, iv) in enumerate(zip(res.invalid_time[k], out)):
                    near(got, times[k][iv], 1e-12, f"{what}: invalid times of output {c}")
                ensure(len(res.invalid_time[k]) == len(out), "%s: invalid times of %s outputs", what, len(res.invalid_time[k]))

    try:
        judge()
    except AssertionError:
        if borderline():
            ctx.label("undecided")
            return
        raise
    ctx.nontrivial(bool(case["mest"]) or case["prefilter"] is not None or (case["weights"] or []) != [["ls"]])
    ctx.label("remote" if site.nr else "single site", "fails" if failure else "estimated")
    if site.nr and (case["remote_weights"] is not None or case["remote_prefilter"] is not None):
        ctx.label("own options for the remote stage")
    if case["mest"]:
        ctx.label("estimation options")
    if any(ref and any(ref[3]) for ref in refs):
        ctx.label("rejections")


SUBS = [
    Sub("stages", cases, run, "robust weights, a prefilter or estimation options are given", quick=900, thorough=24000, qshards=3),
]
