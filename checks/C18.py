"""C18: weight functions are bounded, monotone and scale free."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from rzbv import est
from rzbv.engine import Sub, ensure
from rzbv.num import close, rng
from rzbv.sut import rzb  # noqa
from razorback import weights as W


def scale_of(r):
    x = np.abs(r)
    x = x[~np.isnan(x)]
    return np.median(np.abs(x - np.median(x))) / 0.44845


def ref_huber(r, alpha, s):
    x = np.abs(r)
    out = np.ones(len(x))
    big = x > alpha * s
    out[big] = alpha * s / x[big]
    return out


def damping(x, a):
    with np.errstate(over="ignore"):
        return np.exp(math.exp(-a ** 2) - np.exp(a * (np.asarray(x) - a)))


def ref_thomson(r, xi, s):
    if xi is None:
        xi = math.sqrt(2 * math.log(2 * len(r)))
    return damping(np.abs(r) / s, xi)


# ---------------------------------------------------------------- residual weights

def residual_descs():
    return st.fixed_dictionaries(dict(
        seed=est.seeds, n=est.upto(8, 200, 6000), scale=st.sampled_from([1., 1., 1e-9, 1e6]), tail=st.sampled_from(["gauss", "uniform", "heavy", "outliers", "zeros"]),
        real=st.booleans(), nan=st.sampled_from([0, 0, .1, .4])))


def residuals(d):
    r = rng(d["seed"])
    n = d["n"]
    x = est.crandn(r, n, real=d["real"])
    t = d["tail"]
    if t == "uniform":
        x = r.uniform(-1, 1, n) + (0 if d["real"] else 1j * r.uniform(-1, 1, n))
    elif t == "heavy":
        x = x * np.exp(2 * r.randn(n))
    elif t == "outliers":
        x[r.permutation(n)[:n // 6]] *= 10. ** r.uniform(2, 12)
    elif t == "zeros":
        x[r.permutation(n)[:n // 8]] = 0
    x = x * d["scale"]
    inv = np.sort(r.permutation(n)[:int(d["nan"] * n)])
    x[inv] = np.nan
    return x, inv, r


def residual_cases():
    return st.fixed_dictionaries(dict(
        rs=st.lists(residual_descs(), min_size=1, max_size=4), kind=st.sampled_from(["huber", "huber1.5", "thomson", "thomson xi"]),
        par=st.sampled_from([.5, 1., 2., 3., 4.5]), restart=st.booleans(), same_n=st.booleans()))


def make(case):
    k, p = case["kind"], case["par"]
    if k == "huber":
        return W.Huber(p), lambda x, s: ref_huber(x, p, s), True
    if k == "huber1.5":
        return W.Huber(), lambda x, s: ref_huber(x, 1.5, s), True
    if k == "thomson":
        return W.Thomson(), lambda x, s: ref_thomson(x, None, s), False
    return W.Thomson(p), lambda x, s: ref_thomson(x, p, s), False


def evaluate(f, it, x, inv):
    n = len(x)
    with np.errstate(all="ignore"):
        w = f(it, x.copy(), np.ones(n) + 0j, np.ones((n, 1)) + 0j, inv)
    ensure(np.shape(w) == (n,), "weights of shape %s for %s residuals", np.shape(w), n)
    return np.array(w)


def run_residuals(case, ctx):
    f, ref, huber = make(case)
    s0 = None
    it = 0
    for d in case["rs"]:
        if case["same_n"]:
            d = dict(d, n=case["rs"][0]["n"])
        x, inv, r = residuals(d)
        live = ~np.isnan(x)
        s = scale_of(x)
        if not s > 1e-6 * np.median(np.abs(x[live])):
            return
        ensure(abs(W.mad_scale(x) / s - 1) < 1e-12, "mad_scale %s, expected %s", W.mad_scale(x), s)
        if it == 0 or huber:
            s0 = s
        w = evaluate(f, it, x, inv)
        what = f"{f} iteration {it}"
        close(w[live], ref(x, s0)[live], 1e-9, 1e-13, what)
        ensure(((w[live] >= 0) & (w[live] <= 1)).all(), "%s: weights outside [0, 1]: %s", what, w[live])
        order = np.argsort(np.abs(x[live]))
        ensure((np.diff(w[live][order]) <= 1e-15).all(), "%s: increasing weights", what)
        mag = np.abs(x[live])
        if huber:
            a = 1.5 if case["kind"] == "huber1.5" else case["par"]
            ensure((w[live] * mag <= a * s0 * (1 + 1e-12)).all(), "%s: influence over the threshold", what)
            ensure((w[live][mag <= a * s0 * (1 - 1e-12)] == 1).all(), "%s: small residuals damped", what)
        else:
            ensure((w[live][mag > 1e3 * s0] == 0).all(), "%s: huge residuals keep influence", what)
        # other units, other order, values at rejected entries, at the first iteration
        c = 10. ** r.uniform(-6, 6) * (-1 if r.randint(2) else 1)
        q = r.permutation(len(x))
        back = np.argsort(q)
        g = make(case)[0]
        w1 = evaluate(g, 0, x, inv)
        w2 = evaluate(make(case)[0], 0, (c * x)[q], np.sort(back[inv]))
        close(w2[back][live], w1[live], 1e-6, 1e-12, what + " scaled and permuted")
        it = 0 if case["restart"] else it + 1
        ctx.nontrivial((w1[live] < .99).any())
    ctx.label(case["kind"], "several iterations" if it > 1 else "one iteration")


# ---------------------------------------------------------------- bounded influence

def bi_cases():
    return st.fixed_dictionaries(dict(
        seed=est.seeds, n=est.upto(12, 150, 1500), p=est.upto(1, 4, 8), its=est.upto(1, 5, 12), inner=st.sampled_from(["huber", "thomson", "ones", "custom"]),
        bounds=st.sampled_from(["explicit", "bi_weights"]), lower=st.sampled_from([.001, .01, .05, .2]), upper=st.sampled_from([2.5, 4., 8., 20.]),
        prob=st.sampled_from([.001, .01, .05, .1]), nstep=est.upto(1, 4, 12), dim=st.one_of(st.sampled_from([None, 1, 2, 3]), st.integers(1, 12)), step=est.upto(0, 4, 12),
        lever=st.sampled_from([0, 3, 10, 1e3]), tiny=st.booleans(), scale=st.sampled_from([1., 1e-7, 1e4]), reject=st.sampled_from([0, .1]), runs=st.integers(1, 2), other=st.booleans()))


def run_bi(case, ctx):
    inner_ref = None
    if case["bounds"] == "explicit":
        lower, upper = case["lower"], case["upper"]
        kind = case["inner"]
        r = rng(case["seed"] + 3)
        u = r.uniform(.2, 1, case["n"])
        inner = {"huber": W.Huber(), "thomson": W.Thomson(3.), "ones": lambda it, res, *a: np.ones(len(res)), "custom": lambda it, res, *a: u * .8 ** it}[kind]
        func = W.BoundedInfluenceStep(inner, lower, upper)
        xi = 3.
        if kind == "ones":
            inner_ref = lambda it, x, s: np.ones(len(x))  # noqa
        elif kind == "custom":
            inner_ref = lambda it, x, s: u * .8 ** it  # noqa
    else:
        dim = case["dim"]
        args = (case["prob"], case["nstep"]) + (() if dim is None else (dim,))
        dim = dim or 2
        seq = list(W.bi_weights(*args))
        ensure(len(seq) == case["nstep"] + 2 and seq[0] is None, "bi_weights%s: %s", args, seq)
        k = min(case["step"], case["nstep"])
        i = case["nstep"] - 1 - k if k < case["nstep"] else 0
        lower = stats.gamma.ppf(.5 * case["prob"], dim) / dim * 2. ** -i
        upper = stats.gamma.ppf(1 - .5 * case["prob"], dim) / dim * 2. ** i
        func = seq[k + 1]
        kind = "huber" if k < case["nstep"] else "thomson"
        xi = None
    ctx.label(kind, case["bounds"])
    inner2 = W.Thomson() if case["seed"] % 2 else W.Huber()

    for run in range(case["runs"]):
        r = rng(case["seed"] + run)
        n, p = case["n"] - 3 * run * (kind != "custom"), case["p"]
        b = est.crandn(r, n, p)
        if case["lever"]:
            b[:2] *= case["lever"]
        if case["tiny"]:
            b[-2:] *= 1e-6
        b = b * case["scale"]
        cum = np.ones(n)
        prev = np.ones(n)
        dead = np.array([], dtype=int)
        s0 = None
        other = W.BoundedInfluenceStep(inner2, .01, 5.)
        for it in range(case["its"]):
            res = est.crandn(r, n)
            res[-4:] *= 50
            res[dead] = np.nan
            live = ~np.isnan(res)
            s = scale_of(res)
            if kind == "huber":
                w0 = ref_huber(res, 1.5, s)
            elif kind == "thomson":
                s0 = s if it == 0 else s0
                w0 = ref_thomson(res, xi, s0)
            else:
                w0 = inner_ref(it, res, s)
            w0 = np.where(live, w0, 0)
            sq = np.sqrt(prev)
            if prev.sum() < 1e-3 or np.linalg.matrix_rank(sq[:, None] * b) < p or np.linalg.cond(sq[:, None] * b) > 1e4:
                ctx.label("degenerate")
                return
            # leverage: diagonal of the weighted projector
            qm, _ = np.linalg.qr(sq[:, None] * b)
            h = np.sum(np.abs(qm) ** 2, axis=1)
            y = prev.sum() * h / p
            with np.errstate(divide="ignore", over="ignore", invalid="ignore"):
                factor = damping(y, upper) * damping(np.log(y), math.log(lower))
            cum = cum * factor
            want = w0 * cum
            with np.errstate(all="ignore"):
                if case["other"]:
                    # another step is running meanwhile on other data
                    m = n // 2 + 3
                    args = est.crandn(r, m) * 7, est.crandn(r, m), est.crandn(r, m, p), np.array([], dtype=int)
                    try:
                        other and other(it, *args)
                    except (np.linalg.LinAlgError, ValueError):  # nothing is left there
                        other = None
                got = np.array(func(it, res.copy(), res.copy(), b.copy(), dead))
            ensure(got.shape == (n,), "shape %s", got.shape)
            close(got[live], want[live], 1e-6, 1e-9, f"{func} run {run} iteration {it}")
            ensure((got[dead] == 0).all(), "iteration %d: rejected entries get %s", it, got[dead])
            if it == 0:
                if y[0] > 3 * upper + 10:
                    ensure(got[0] < 1e-6, "leverage %s keeps weight %s", y[0], got[0])
                    ctx.label("extreme leverage")
                mid = (y > .5) & (y < 1.5) & live
                if upper >= 4 and lower < .06:
                    ensure((np.abs(cum[mid] - 1) < .02).all(), "average leverage damped: %s", cum[mid])
            prev = np.where(live, want, 0)
            if case["reject"] and it == 0:
                dead = np.sort(r.permutation(n)[:int(case["reject"] * n)])
            ctx.nontrivial((np.abs(cum[live] - 1) > .01).any())
    ctx.label("iterations=%d" % case["its"])


SUBS = [
    Sub("residuals", residual_cases, run_residuals, "some sample is damped", quick=600, thorough=40000, qshards=2),
    Sub("bi", bi_cases, run_bi, "some sample is damped for its leverage", quick=600, thorough=40000, qshards=2),
]
