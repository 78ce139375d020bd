"""C20: impedance estimation recovers the linear relation in the data."""
import numpy as np
from hypothesis import strategies as st

from rzbv import imp
from rzbv.engine import Sub, ensure
from rzbv.imp import quiet
from rzbv.num import rng
from rzbv.sut import rzb  # noqa
from razorback.mestimator import transfer_function
from razorback.utils import impedance, transfer_function_real_prob


MANY = dict(ne=(1, 9), nb=(1, 7), nr=(0, 4), extra=(0, 6), runs=(1, 12))


def cases(**k):
    return st.fixed_dictionaries(dict(
        site=imp.sites(**k), opts=imp.fourier_opts(), nfs=st.lists(st.floats(.06, .4), min_size=1, max_size=3), weights=imp.weightings(),
        remote_weights=st.one_of(st.none(), imp.weightings()), real=st.booleans(), mest=st.sampled_from([None, None, dict(tol=1e-3)]),
        again=st.sampled_from(["renumber", "real", "split", "lazy"])))


def estimable(data, site, f, opt, case, real):
    "does the estimation succeed on the Fourier coefficients themselves"
    def go():
        c, _ = data.fourier_coefficients(f, **imp.full_opts(opt))
        tf = transfer_function_real_prob if real else transfer_function
        e, b, r = ([c[i] for i in idx] for idx in (site.ie, site.ib, site.ir))
        w = imp.make_weights(case["weights"])
        kw = case["mest"] or {}
        iv = None
        if site.nr:
            rw = imp.make_weights(case["remote_weights"]) if case["remote_weights"] else w
            t, ii = tf(b, r, rw, **kw)
            b = t.dot(r)
            iv = [sorted(set(int(i) for l in ii for i in l))] * len(e)
        tf(e, b, w, invalid_idx=iv, **kw)
    try:
        quiet(go)
    except Exception:
        return False
    return True


def call(data, freqs, site, opt, case, real, **kw):
    if case["mest"]:
        kw["mest_opts"] = dict(case["mest"])
    if case["weights"] != ["none"]:
        kw["weights"] = imp.make_weights(case["weights"])
    if site.nr and case["remote_weights"]:
        kw["remote_weights"] = imp.make_weights(case["remote_weights"])
    if opt:
        kw["fourier_opts"] = opt
    return quiet(impedance, data, freqs, real_pb=real, **dict(site.tag_args(), **kw))


def check(res, freqs, site, data, opt, case, real, ctx, tol):
    F = len(freqs)
    ensure(np.shape(res.impedance) == (F, site.ne, site.nb), "impedance of shape %s for %s freq, %s elec, %s mag", np.shape(res.impedance), F, site.ne, site.nb)
    ensure(np.shape(res.transfer_mag) == (F, site.nb, site.nr), "transfer_mag of shape %s", np.shape(res.transfer_mag))
    ok = []
    for k, f in enumerate(freqs):
        z = res.impedance[k]
        if np.isnan(z).all() and not estimable(data, site, f, opt, case, real):
            ctx.label("estimation fails")
            ok.append(False)
            continue
        want = site.expected(f)
        # natural magnitude of the coefficients: that of the row, in the unit of the column
        ub = site.magnitudes(f)[site.ib]
        scale = (np.abs(want) * ub).max(axis=1)[:, None] / ub
        err = np.abs(z - want) / scale
        ensure((err < tol).all(), "impedance at %s: %s, expected %s (relative %s)", f, z, want, err)
        e = res.error[k]
        ensure(np.shape(e) == (site.ne, site.nb) and (e > 0).all() and (e < 2 * tol * scale).all(), "error at %s: %s for %s", f, e, want)
        if site.nr:
            tm = np.asarray(res.transfer_mag[k]).dot(site.remote(f)) * ub / ub[:, None]
            ensure(np.abs(tm - np.eye(site.nb)).max() < .1, "remote transfer at %s: %s", f, tm)
        ok.append(True)
    return ok


def similar(res, res2, site, freqs, what):
    "equal up to rounding, in the natural unit of each coefficient"
    for k, f in enumerate(freqs):
        mag = site.magnitudes(f)
        ue, ub, ur = mag[site.ie], mag[site.ib], mag[site.ir]
        for name, scale in ("impedance", ue[:, None] / ub), ("error", ue[:, None] / ub), ("transfer_mag", ub[:, None] / ur):
            a, b = getattr(res, name)[k], getattr(res2, name)[k]
            ensure(a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)), "%s: %s is %s, expected %s", what, name, b, a)
            bad = np.abs(b - a) > 1e-6 * scale
            ensure(not bad.any(), "%s: %s is %s, expected %s", what, name, b, a)


def run_recover(case, ctx):
    site = imp.Site(case["site"])
    opt = imp.make_opts(case["opts"])
    # same frequencies for all runs
    freqs = [f for f in (nf * site.rate for nf in case["nfs"]) if site.enough(f, opt, site.needed(30))]
    if not freqs:
        return
    data = site.signal_set()
    real = case["real"]
    res = call(data, freqs, site, opt, case, real)
    ok = check(res, freqs, site, data, opt, case, real, ctx, .05)
    ctx.nontrivial(any(ok))
    ctx.label(case["weights"][0], "remote" if site.nr else "single site", f"runs={len(site.runs)}")
    if site.cal:
        ctx.label("calibrated")

    again = case["again"]
    ctx.label(again)
    if again == "renumber":
        q = rng(case["site"]["seed"] + 1).permutation(site.nch)
        back = np.argsort(q)
        tags = {"x" + t: back[np.array(v)].tolist() for t, v in site.tags().items()}
        cals = [s for s in data.signals[0].calibrations]
        runs = [rzb.SyncSignal([d[i] for i in q], rate, start, [cals[i] for i in q]) for rate, start, d in site.runs]
        data2 = rzb.SignalSet(tags, *runs[::-1])
        kw = dict(tag_elec="x" + site.tag_e, tag_mag="x" + site.tag_b)
        if site.nr:
            kw["remote"] = "x" + site.tag_r
        res2 = call(data2, freqs, site, opt, case, real, **kw)
        similar(res, res2, site, freqs, "renumbered channels")
    elif again == "real" and case["weights"][0] in ("ls", "none") and (not site.nr or not case["remote_weights"] or case["remote_weights"][0] in ("ls", "none")):
        res2 = call(data, freqs, site, opt, case, not real)
        similar(res, res2, site, freqs, "real formulation")
    elif again == "split":
        runs = []
        for s in data.signals:
            m = s.size // 2
            runs += [s.extract_i(0, m), s.extract_i(m, s.size)]
        data2 = rzb.SignalSet(site.tags(), *runs)
        site2 = imp.Site(case["site"])
        site2.runs = [(s.sampling_rate, s.start, np.array([np.asarray(d) for d in s.data])) for s in data2.signals]
        freqs2 = [f for f in freqs if site2.enough(f, opt, site.needed(30))]
        if freqs2:
            check(call(data2, freqs2, site2, opt, case, real), freqs2, site2, data2, opt, case, real, ctx, .05)
    elif again == "lazy":
        import dask.array as da
        cals = data.signals[0].calibrations
        runs = [rzb.SyncSignal([da.from_array(x, chunks=333) for x in d], rate, start, cals) for rate, start, d in site.runs]
        res2 = call(rzb.SignalSet(site.tags(), *runs), freqs, site, opt, case, real)
        similar(res, res2, site, freqs, "lazy data")


# ---------------------------------------------------------------- bias

def bias_cases():
    return st.fixed_dictionaries(dict(
        site=imp.sites(nb=(1, 2), remote=1, size=(25000, 40000), noise=(1e-2, .1), runs=(1, 2)), nf=st.floats(.15, .3), weights=st.sampled_from([["ls"], ["ls"], ["mest"]]),
        real=st.booleans(), snr=st.sampled_from([.5, .7]), mest=st.none(), remote_weights=st.none()))


def run_bias(case, ctx):
    d = dict(case["site"], nr=0)
    d["runs"] = [dict(r, factor=1) for r in d["runs"]]
    site = imp.Site(d, local_noise=case["snr"], remote_noise=0)
    f = case["nf"] * site.rate
    data = site.signal_set()
    res = call(data, [f], site, None, case, case["real"])
    single = call(data, [f], site, None, dict(case, weights=["ls"]), False, remote=None)
    want = site.expected(f)
    ub = site.magnitudes(f)[site.ib]
    scale = (np.abs(want) * ub).max(axis=1)[:, None] / ub
    bias = np.abs(single.impedance[0] - want) / scale
    err = np.abs(res.impedance[0] - want) / scale
    ensure((err < .13).all(), "impedance %s, expected %s: biased by %s (single site by %s)", res.impedance[0], want, err, bias)
    ctx.nontrivial((bias > .15).any())


SUBS = [
    Sub("recover", cases, run_recover, "the impedance is estimated at some frequency", quick=240, thorough=12000, qshards=8),
    Sub("many", lambda: cases(**MANY), run_recover, "the impedance is estimated at some frequency", quick=40, thorough=2000, qshards=3),
    Sub("bias", bias_cases, run_bias, "single-site processing is biased by more than 15%", quick=40, thorough=1200, qshards=2),
]
