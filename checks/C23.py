"""C23: the coherency prefilter rejects exactly the windows out of its bounds."""
import numpy as np
from hypothesis import strategies as st

from rzbv import est, imp
from rzbv.engine import Sub, ensure
from rzbv.imp import quiet
from rzbv.num import close, rng
from rzbv.sut import rzb  # noqa
from razorback.mestimator import transfer_function
from razorback.prefilters import cod_filter, CoefficientOfDeterminationFilter
from razorback.utils import impedance, prefilter_values, prefilter_values_mass_proc, compute_prefilter, apply_prefilter, transfer_function_real_prob


def reference(e, b, size):
    "values of the windows; b is (n, p)"
    n = len(e)
    out = np.empty(n)
    nblock = max(1, n // size)
    for k in range(nblock):
        s = slice(k * size, (k + 1) * size if k < nblock - 1 else n)
        z = np.linalg.lstsq(b[s], e[s], rcond=None)[0]
        fit = b[s].dot(z)
        out[s] = np.sqrt(np.sum(np.abs(fit) ** 2) / np.sum(np.abs(e[s]) ** 2))
    return out


def cases():
    return st.fixed_dictionaries(dict(
        seed=est.seeds, n=est.upto(8, 150, 3000), p=est.upto(1, 4, 9), size=st.one_of(st.none(), st.integers(3, 30), st.integers(3, 200), est.upto(3, 30, 1000)),
        real=st.booleans(), scale=st.sampled_from([1., 1e-9, 1e7]), noise=st.sampled_from(["block", "block", "none", "pure"]),
        low=st.sampled_from([0., .3, .5, .8, .95, 1.]), high=st.one_of(st.none(), st.sampled_from([.6, .9, .99, 1., 2.])), data=st.sampled_from(["array", "list", "fortran"])))


def run_values(case, ctx):
    r = rng(case["seed"])
    n, p, real = case["n"], case["p"], case["real"]
    size = case["size"] or 10
    if size < p + 2 or n < p + 3:
        return
    b = est.mixing(r, p, real=real).dot(est.crandn(r, p, n, real=real)).T * case["scale"]
    e = b.dot(est.crandn(r, p, real=real)) * 10. ** r.uniform(-3, 3)
    level = np.sqrt(np.mean(np.abs(e) ** 2))
    if case["noise"] != "none":
        amp = 10. ** r.uniform(-2, 1.5, n // 5 + 1)
        noise = est.crandn(r, n, real=real) * level * amp[np.arange(n) // 5]
        e = noise if case["noise"] == "pure" else e + noise
    args = (case["low"],) + (() if case["high"] is None else (case["high"],))
    kw = {} if case["size"] is None else dict(size=case["size"])
    f = cod_filter(*args, **kw)
    ref = reference(e, b, size)
    e0, b0 = e.copy(), b.copy()
    if case["data"] == "fortran":
        b = np.asfortranarray(b)
    v = f.value(e, b)
    close(v, ref, 1e-7, 2e-7, "values")
    ensure(((v >= 0) & (v <= 1 + 1e-12)).all(), "values outside [0, 1]: %s", v)
    got = np.asarray(f(e, b))
    ensure(got.ndim == 1 and got.tolist() == sorted(set(got.tolist())), "indices %s", got)
    hi = 1. if case["high"] is None else case["high"]
    ensure(got.tolist() == np.flatnonzero((v < case["low"]) | (v > hi)).tolist(), "rejects %s for values %s and bounds %s %s", got, v, case["low"], hi)
    # bounds that are values, or just beside one
    x = v[r.randint(n)]
    for lo, up in ((x, 1.), (np.nextafter(x, 2), 1.), (x * (1 + 1e-9), 2.), (0., x), (0., np.nextafter(x, -1)), (0., x * (1 - 1e-9))):
        got2 = np.asarray(cod_filter(lo, up, **kw)(e, b))
        ensure(got2.tolist() == np.flatnonzero((v < lo) | (v > up)).tolist(), "rejects %s for values %s and bounds %r %r", got2, v, lo, up)
    sure_out = (ref < case["low"] - 1e-6) | (ref > hi + 1e-6)
    sure_in = (ref > case["low"] + 1e-6) & (ref < hi - 1e-6)
    ensure(set(np.flatnonzero(sure_out)) <= set(got) and not set(np.flatnonzero(sure_in)) & set(got), "rejects %s for values %s", got, ref)
    ensure(np.array_equal(e, e0) and np.array_equal(b, b0), "data changed")
    m = est.mixing(r, p, real=real)
    c = -3.7e4 if real else 1e-5j
    close(f.value(c * e, b.dot(m)), ref, 1e-6, 1e-6, "values after scaling the output and recombining the inputs")
    # a block only depends on itself
    if n >= 2 * size:
        e2 = e.copy()
        e2[:size] = est.crandn(r, size, real=real)
        close(f.value(e2, b)[size:], ref[size:], 1e-7, 2e-7, "values of the other blocks")
        ctx.label("several blocks")
    ctx.nontrivial(n > size)
    ctx.label("remainder" if n % size else "no remainder", "some rejected" if len(got) else "none rejected")
    ensure(isinstance(f, CoefficientOfDeterminationFilter), "type of cod_filter")


# ---------------------------------------------------------------- influence and reports

def site_cases():
    return st.fixed_dictionaries(dict(
        site=imp.sites(nb=(1, 2), size=(500, 1500), noise=(.3, 1e-2), runs=(1, 3)), opts=imp.fourier_opts(), nf=st.floats(.08, .35),
        weights=st.sampled_from([["ls"], ["ls"], ["mest"]]), real=st.booleans(),
        picks=st.lists(st.lists(st.integers(0, 120), max_size=15, unique=True), min_size=6, max_size=6),
        low=st.sampled_from([.5, .9, .99]), size=st.sampled_from([8, 10, 15]), which=st.sampled_from(["fixed", "fixed", "cod"]), same=st.booleans()))


def run_influence(case, ctx):
    """windows without overlap: anything may be written in rejected windows"""
    site = imp.Site(case["site"])
    opt = dict(imp.make_opts(dict(case["opts"], overlap=None)) or {}, overlap=0)
    f = case["nf"] * site.rate
    if not site.enough(f, opt, 20 + 5 * site.nr):
        return
    data = site.signal_set()
    c, (nw, lw, sh) = data.fourier_coefficients(f, **imp.full_opts(opt))
    n = sum(nw)
    picks = [[i for i in p if i < n][:n // 4] for p in case["picks"]]
    channels = site.ie + site.ib

    def fixed(which):
        def prefilter(e, b):
            return np.array(picks[which[0]], dtype=int)
        return prefilter

    # the same windows for all channels of a stage, so that they can be overwritten
    first, second = picks[0], picks[1]
    if not site.nr:
        first = []
    kw = dict(site.tag_args(), real_pb=case["real"], weights=imp.make_weights(case["weights"]), fourier_opts=opt, keep_invalid_times=True)
    kw["prefilter"] = lambda e, b: np.array(second, dtype=int)
    if site.nr:
        kw["remote_prefilter"] = lambda e, b: first
        if case["same"]:
            del kw["remote_prefilter"]
            first = second
    base = quiet(impedance, data, [f], **kw)
    if np.isnan(base.impedance).any():
        ctx.label("not estimated")
        return
    # first-stage rejections have no influence at all; second-stage ones none on the electric side
    r = rng(case["site"]["seed"] + 11)
    edges = np.cumsum([0] + list(nw))
    runs = []
    for k, (rate, start, d) in enumerate(site.runs):
        d = d.copy()
        level = 1e3 * d.std(axis=1)[:, None]
        for i in range(nw[k]):
            s = slice(i * sh[k], i * sh[k] + lw[k])
            if edges[k] + i in first:
                d[:, s] = level * r.randn(site.nch, lw[k])
            elif edges[k] + i in second:
                rows = site.ie if site.nr else site.ie + site.ib
                d[rows, s] = level[rows] * r.randn(len(rows), lw[k])
        runs.append((rate, start, d))
    site2 = imp.Site(case["site"])
    site2.runs = runs
    res = quiet(impedance, site2.signal_set(), [f], **kw)
    for name in ("impedance", "transfer_mag"):
        a, b = getattr(base, name), getattr(res, name)
        ensure(np.array_equal(np.isnan(a), np.isnan(b)), "%s: nan after changing rejected windows", name)
        # small coefficients carry the rounding of the large ones
        unit = np.abs(a).max() if a.size and not case["site"]["unit"] else 0
        close(b[~np.isnan(a)], a[~np.isnan(a)], 1e-6, 1e-7 * unit, f"{name} after changing rejected windows {first} {second}")
    for a, b in zip(base.invalid_time[0], res.invalid_time[0]):
        close(np.sort(b), np.sort(a), 0, 1e-9 * np.abs(a).max() if len(a) else 0, "invalid times after changing rejected windows")
    ctx.nontrivial(bool(first or second))
    ctx.label("remote" if site.nr else "single site", *((["first stage"] if first else []) + (["second stage"] if second else [])))


def run_reports(case, ctx):
    site = imp.Site(case["site"])
    opt = imp.make_opts(case["opts"])
    f = case["nf"] * site.rate
    if not site.enough(f, opt, 20 + 5 * site.nr):
        return
    data = site.signal_set()
    c, (nw, lw, sh) = data.fourier_coefficients(f, **imp.full_opts(opt))
    n = sum(nw)
    times = np.concatenate([start + (np.arange(k) * s + L / 2.) / rate for (rate, start, _), k, L, s in zip(site.runs, nw, lw, sh)])
    e, b, br = (np.array([c[i] for i in idx]).reshape(len(idx), n) for idx in (site.ie, site.ib, site.ir))
    if case["which"] == "cod":
        pf = cod_filter(case["low"], size=case["size"])
        value = lambda x, y: reference(x, y, case["size"])  # noqa
    else:
        class Pf:
            def value(self, x, y):
                return np.abs(x) + np.arange(len(x)) * np.abs(y).sum(axis=1)

            def __call__(self, x, y):
                return np.flatnonzero(self.value(x, y) > np.median(self.value(x, y)) * 1.5)
        pf = Pf()
        value = pf.value

    kw = {} if opt is None else dict(fourier_opts=opt)
    tol = 1e-8 * (1 + np.abs(times).max() * 1e-4)

    def check(t, v, rows, inputs, what):
        close(np.asarray(t), times, 1e-12, tol, what + ": times")
        ensure(len(v) == len(rows), "%s: %s rows for %s channels", what, len(v), len(rows))
        for k, line in enumerate(rows):
            w = value(line, inputs.T)
            close(np.asarray(v[k]), w, 1e-6, 1e-6 * np.abs(w).max(), f"{what}: values of channel {k}")
    f2 = f * .9
    both = site.enough(f2, opt, 20)
    tags = {} if site.tag_e == "E" else dict(tag_elec=site.tag_e, tag_mag=site.tag_b)
    lv, lt = quiet(prefilter_values, data, [f2, f] if both else [f], pf, **dict(kw, **tags))
    ensure(len(lv) == len(lt) == 1 + both, "prefilter_values for %s frequencies: %s values %s times", 1 + both, len(lv), len(lt))
    check(lt[-1], lv[-1], e, b, "prefilter_values")
    if site.tag_e == "E":
        t, v = quiet(compute_prefilter, data, f, pf, **kw)
        check(t, v, e, b, "compute_prefilter")
        if site.nr:
            t, v = quiet(compute_prefilter, data, f, pf, remote=site.tag_r, **kw)
            check(t, v, b, br, "compute_prefilter with remote")
        # any other tag may take the place of the remote one
        for name, rows in (("some_inputs", [site.ie[0]]), ("more_inputs", list(site.ie) + list(site.ir))):
            data.tags[name] = tuple(rows)
            x = np.array([c[i] for i in rows]).reshape(len(rows), n)
            if case["which"] == "fixed" or len(rows) + 2 <= case["size"]:
                t, v = quiet(compute_prefilter, data, f, pf, remote=name, **kw)
                check(t, v, b, x, f"compute_prefilter with {name}")
            del data.tags[name]
        if site.enough(f, None, 20):
            # whole, and cut after the middle of the last run
            rate, start, d = site.runs[-1]
            mid = start + len(d[0]) // 2 / rate
            intervals = [(site.runs[0][1] - 1., start + len(d[0]) / rate), (site.runs[0][1], mid)]
            keep = []
            for i in intervals:
                try:
                    keep.append((i, quiet(prefilter_values, data.extract_t(*i), [f], pf)))
                except Exception:
                    ctx.label("interval too short")
            if keep:
                names = [site.tag_r] if site.nr else []
                tags0 = dict(data.tags)
                data2 = rzb.SignalSet(tags0, *data.signals)
                pv, pt = quiet(prefilter_values_mass_proc, data2, names, [f], [i for i, _ in keep], pf)
                ensure(len(pv) == len(pt) == 2 ** len(names), "%s combinations of %s remotes", len(pv), names)
                for k, (a, t) in enumerate(zip(pv, pt)):
                    ensure(len(a) == len(t) == len(keep), "%s intervals, expected %s", len(a), len(keep))
                    for (i, (lv, lt)), a1, t1 in zip(keep, a, t):
                        ensure(len(t1) == 1 and np.array_equal(t1[0], lt[0]), "mass processing: times of %s", i)
                        if k == 0:
                            ensure(len(a1) == 1 and len(a1[0]) == len(e), "mass processing: values of %s: %s", i, a1)
                            close(np.array(a1[0]), np.array(lv[0]), 1e-9, 1e-12, "mass processing: values")
                ctx.label("mass processing")
    # impedance uses these rejections
    tf = transfer_function_real_prob if case["real"] else transfer_function
    w = imp.make_weights(case["weights"])
    res = quiet(impedance, data, [f], real_pb=case["real"], weights=w, prefilter=pf, **dict(kw, **site.tag_args()))

    def direct():
        x, iv = b, [set() for _ in e]
        if site.nr:
            first = [sorted(int(i) for i in pf(line, br.T)) for line in b]
            t, ii = tf(list(b), list(br), w, invalid_idx=first)
            merged = set(int(i) for l in ii for i in l)
            x, iv = t.dot(br), [merged] * len(e)
        iv = [sorted(s | set(int(i) for i in pf(line, x.T))) for s, line in zip(iv, e)]
        return tf(list(e), list(x), w, invalid_idx=iv)[0], iv
    try:
        z, iv = quiet(direct)
    except Exception:
        ctx.label("not estimated")
        ensure(np.isnan(res.impedance).all(), "impedance %s where the estimation fails", res.impedance)
        return
    z0 = res.impedance[0]
    scale = np.abs(z) + np.abs(z).max(axis=1)[:, None] * (not case["site"]["unit"])
    ensure((np.abs(z - z0) <= 1e-5 * scale).all(), "impedance %s, expected %s with rejections %s", z0, z, iv)
    ctx.nontrivial(any(iv))
    ctx.label(case["which"], "remote" if site.nr else "single site", "some rejected" if any(iv) else "none rejected")
    # apply_prefilter adds to what is already rejected
    before = [np.array(sorted(p), dtype=int) for p in ([i for i in q if i < n] for q in case["picks"])][:len(e)]
    for given in ([None, [], before] if len(e) <= 3 else [None]):
        got = apply_prefilter(e, b, pf, given)
        ensure(len(got) == len(e), "apply_prefilter: %s lists", len(got))
        for k, line in enumerate(e):
            want = set(int(i) for i in pf(line, b.T)) | (set(before[k].tolist()) if given is before else set())
            ensure(np.asarray(got[k]).tolist() == sorted(want), "apply_prefilter: %s, expected %s", got[k], sorted(want))
        got = apply_prefilter(e, b, None, given)
        for k in range(len(e)):
            ensure(np.asarray(got[k]).tolist() == (before[k].tolist() if given is before else []), "apply_prefilter without filter: %s", got[k])


SUBS = [
    Sub("values", cases, run_values, "more windows than one block", quick=800, thorough=40000, qshards=2),
    Sub("influence", site_cases, run_influence, "some window is rejected", quick=150, thorough=6000, qshards=3),
    Sub("reports", site_cases, run_reports, "the prefilter rejects some window", quick=150, thorough=6000, qshards=3),
]
