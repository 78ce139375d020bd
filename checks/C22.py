"""C22: reported invalid times are the centres of exactly the rejected windows."""
import numpy as np
from hypothesis import strategies as st

from rzbv import imp
from rzbv.engine import Sub, ensure
from rzbv.imp import quiet
from rzbv.num import rng
from rzbv.sut import rzb  # noqa
from razorback.utils import impedance

picks = st.one_of(st.just([]), st.lists(st.integers(0, 400), max_size=12, unique=True), st.integers(0, 100).map(lambda k: list(range(k, k + 9))),
                  st.just("ends"), st.just("boundaries"))


def cases(nb=(1, 3), size=(300, 1500), runs=(1, 4), more={}, uses=(["pre"], ["weight"], ["pre", "weight"], [], ["pre", "weight"])):
    return st.fixed_dictionaries(dict(
        site=imp.sites(nb=nb, size=size, noise=(1e-2,), runs=runs, **more), opts=imp.fourier_opts(), nfs=st.lists(st.floats(.08, .4), min_size=1, max_size=2),
        pre=st.lists(picks, min_size=6, max_size=6), weight=st.lists(picks, min_size=6, max_size=6), late=st.lists(st.booleans(), min_size=6, max_size=6),
        use=st.sampled_from(uses),
        real=st.booleans(), keep=st.sampled_from([True, True, True, False]), fail=st.booleans(), kind=st.sampled_from(["list", "array", "int32"])))


def run_times(case, ctx):
    site = imp.Site(case["site"])
    opt = imp.make_opts(case["opts"])
    freqs = [f for f in (nf * site.rate for nf in case["nfs"]) if site.enough(f, opt, site.needed(12))]
    if not freqs:
        return
    data = site.signal_set()
    channels = site.ie + site.ib
    pools = {}    # first stage for magnetic channels, second for electric ones
    rejected = {}
    windows = {}
    for f in freqs:
        c, (nw, lw, sh) = data.fourier_coefficients(f, **imp.full_opts(opt))
        windows[f] = nw, lw, sh
        n = sum(nw)
        where = {}
        for k, ch in enumerate(channels):
            for i, v in enumerate(c[ch]):
                where[complex(v)] = f, k, i
                where[float(v.real)] = where[float(v.imag)] = f, k, i
        pools.update(where)
        for stage in ("pre", "weight"):
            for k in range(len(channels)):
                p = case[stage][k % 6]
                if p == "ends":
                    p = [0, n - 1]
                elif p == "boundaries":
                    edges = np.cumsum(nw)[:-1]
                    p = sorted({int(e) + d for e in edges for d in (-1, 0) if 0 <= e + d < n})
                p = [i for i in p if i < n]
                if stage not in case["use"]:
                    p = []
                # enough windows must be left whatever the stages
                rejected[f, stage, k] = p[:max(0, (n - site.needed(8)) // max(6, 2 * site.nb))]

    def prefilter(e, b):
        f, k, i0 = pools[complex(e[0])]
        assert i0 == 0
        res = rejected[f, "pre", k]
        if case["kind"] == "list":
            return list(res)
        return np.array(res, dtype=int if case["kind"] == "array" else np.int32)

    def weight(it, residual, e, b, invalid_idx):
        w = np.ones(len(e))
        for i, v in enumerate(e):
            if not np.isnan(v):
                f, k, j = pools[complex(v) if np.iscomplexobj(e) else float(v)]
                # some only in a later iteration; in the real formulation one of the two rows may be enough
                if j in rejected[f, "weight", k] and (it > 0 or not case["late"][j % 6]) and not (case["real"] and (j + k) % 3 == 1 + i % 2):
                    w[i] = 0
        return w

    kw = dict(site.tag_args(), real_pb=case["real"], keep_invalid_times=case["keep"])
    if "pre" in case["use"]:
        kw["prefilter"] = prefilter
    kw["weights"] = [None, weight] if "weight" in case["use"] else [None]
    if opt:
        kw["fourier_opts"] = opt
    todo = list(freqs)
    if case["fail"]:
        todo.insert(1, 1e9)
    kw["mest_opts"] = dict(tol=.5)
    res = quiet(impedance, data, todo, silent_fail=False, **kw)
    ensure(len(res.invalid_time) == len(todo), "%s lists for %s frequencies", len(res.invalid_time), len(todo))
    for f, times in zip(todo, res.invalid_time):
        if f not in freqs:
            ensure(len(times) == 0, "invalid times %s for a failed frequency", times)
            continue
        ensure(len(times) == site.ne, "%s lists for %s electric channels", len(times), site.ne)
        nw, lw, sh = windows[f]
        base = np.cumsum([0] + list(nw))
        remote = set()
        if site.nr:
            for k in range(site.ne, site.ne + site.nb):
                remote |= set(rejected[f, "pre", k]) | set(rejected[f, "weight", k])
        for k, got in enumerate(times):
            got = np.asarray(got, dtype=float)
            ensure(got.ndim == 1, "invalid times %s", got)
            if not case["keep"]:
                ensure(len(got) == 0, "invalid times although not asked: %s", got)
                continue
            want = []
            for i in sorted(remote | set(rejected[f, "pre", k]) | set(rejected[f, "weight", k])):
                run = int(np.searchsorted(base, i, "right")) - 1
                rate, start, d = site.runs[run]
                t = start + ((i - base[run]) * sh[run] + lw[run] / 2.) / rate
                assert start < t < start + d.shape[1] / rate
                want.append((t, rate))
            rates = np.array([r for _, r in want])
            want = np.array([t for t, _ in want])
            ensure(len(got) == len(want), "channel %d at %s: %d invalid times %s, expected %d %s", k, f, len(got), got, len(want), want)
            o = np.argsort(want)
            err = np.abs(np.sort(got) - want[o])
            ensure((err <= .01 / rates[o] + 1e-12 * np.abs(want)).all(), "channel %d at %s: invalid times %s, expected %s", k, f, np.sort(got), want[o])
            ctx.nontrivial(len(want) > 0)
            if len(want):
                ctx.label(f"runs={len(site.runs)}", "remote" if site.nr else "single site", *case["use"])


SUBS = [
    Sub("times", cases, run_times, "some window is rejected", quick=300, thorough=8000, qshards=5),
    Sub("many", lambda: cases((1, 6), (600, 1500), (3, 12), dict(ne=(1, 8), nr=(0, 3))), run_times, "some window is rejected", quick=40, thorough=2000, qshards=2),
    Sub("long", lambda: cases((1, 2), (33000, 80000), (1, 2), uses=(["pre"],)), run_times, "some window is rejected", quick=30, thorough=300, qshards=3),
]
