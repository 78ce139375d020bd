"""C16: robust estimators resist outliers and leverage points."""
import numpy as np
from hypothesis import strategies as st

from rzbv import est
from rzbv.engine import Sub, ensure
from rzbv.num import rng
from rzbv.sut import rzb  # noqa
from razorback.errors import NonConvergence
from razorback.mestimator import transfer_function
from razorback import weights as W


def cases():
    return st.fixed_dictionaries(dict(
        seed=est.seeds, n=st.integers(40, 200), ni=st.integers(1, 2), no=st.integers(1, 2), fraction=st.floats(0.01, .15),
        magnitude=st.sampled_from([2, 2.5, 3, 4, 5, 6, 7, 8]), kind=st.sampled_from(["random", "coherent", "offset", "scale"]),
        leverage=st.sampled_from([0, 0, 3, 5, 8]), scale=st.sampled_from([1., 1e-6, 1e4]), shared=st.booleans()))


def build(case):
    r = rng(case["seed"])
    n, ni, no = case["n"], case["ni"], case["no"]
    B = est.crandn(r, ni, n)
    T = est.crandn(r, no, ni) * 3
    noise = .1 * est.crandn(r, no, n)
    E = T.dot(B) + noise
    mag = .1 * 10 ** case["magnitude"]
    bad = []
    fraction = min(case["fraction"], .05 if case["leverage"] else .1 if case["bi"] else .3 if case.get("many") else .15)
    for k in range(no):
        if k and (case["shared"] or case["leverage"]):
            bad.append(bad[0])
        else:
            bad.append(r.permutation(n)[:max(1, int(fraction * n))])
    lev = np.array([], dtype=int)
    if case["leverage"]:
        lev = bad[0]
        B = B.copy()
        B[:, lev] *= case["leverage"]
        E[:, lev] = T.dot(B[:, lev]) + noise[:, lev]
    clean = E.copy()
    for k in range(no):
        m = len(bad[k])
        if case["kind"] == "random":
            err = mag * est.crandn(r, m) + mag
        elif case["kind"] == "coherent":
            err = mag * est.crandn(r, ni).dot(B[:, bad[k]])
            err += mag * err / np.abs(err)
        elif case["kind"] == "offset":
            err = np.full(m, mag * np.exp(6j * r.uniform()))
        else:
            err = clean[k, bad[k]] * mag * 10 + mag
        E[k, bad[k]] += err
    return clean * case["scale"], E * case["scale"], B, bad, .1 * case["scale"]


class Untypical(Exception):
    pass


def judge(case, ctx, weights, limit, max_clean):
    clean, E, B, bad, sigma = build(case)
    n = case["n"]
    t, ii = transfer_function(E, B, weights)
    ls, _ = transfer_function(E, B)
    for k in range(case["no"]):
        keep = np.setdiff1d(np.arange(n), bad[k])
        ref = est.lstsq(clean[k], B, keep)
        stat = sigma / n ** .5
        dist = np.abs(t[k] - ref).max() / stat
        ensure(dist < limit, "%s: output %d: %s standard errors from the clean estimate %s (corrupted: %s of %s)",
               weights, k, dist, ref, len(bad[k]), n)
        rej = np.asarray(ii[k])
        missed = np.setdiff1d(bad[k], rej)
        # a large error that is small for this sample by chance
        gross = np.abs(E[k] - ref.dot(B))[missed] > 30 * sigma
        ensure(not gross.any(), "%s: output %d: %s not rejected", weights, k, missed[gross])
        lost = len(np.intersect1d(rej, keep)) / len(keep)
        if lost > max_clean:
            raise Untypical("%s: output %d: %s of the clean samples rejected" % (weights, k, lost))
        ctx.nontrivial(np.abs(ls[k] - ref).max() / stat > 10)
        if np.abs(ls[k] - ref).max() / stat > 10:
            ctx.label("least squares is off")
    ctx.label(case["kind"], "magnitude 1e%d" % case["magnitude"])
    if case["leverage"]:
        ctx.label("leverage")


def judge_typical(case, ctx, *args):
    """exceptionally (a few cases in 10^4) the iteration does not converge or
    bounded influence drops too many clean samples: four similar problems decide"""
    msg = ""
    for k in range(4):
        try:
            return judge(dict(case, seed=case["seed"] + k), ctx, *args)
        except (NonConvergence, Untypical) as e:
            msg = str(e)
            ctx.label("second attempt")
    ensure(False, "four similar problems: %s", msg)


def mest_cases():
    return cases().map(lambda c: dict(c, bi=False, leverage=0))


def run_mest(case, ctx):
    judge_typical(case, ctx, W.mest_weights, 8, .15)


def many_cases():
    "up to three samples in ten, when the errors are not organised"
    return cases().map(lambda c: dict(c, bi=False, leverage=0, many=True, n=c["n"] + 30, fraction=.15 + c["fraction"], kind=["random", "offset"][c["seed"] % 2]))


def bi_cases():
    return cases().map(lambda c: dict(c, bi=True))


def run_bi(case, ctx):
    judge_typical(case, ctx, W.bi_weights(.01, 3, 2), 10, .75)


SUBS = [
    Sub("mest", mest_cases, run_mest, "least squares is at least 10 standard errors from the clean estimate", quick=500, thorough=20000, qshards=3),
    Sub("many", many_cases, run_mest, "least squares is at least 10 standard errors from the clean estimate", quick=300, thorough=10000, qshards=2),
    Sub("bi", bi_cases, run_bi, "least squares is at least 10 standard errors from the clean estimate", quick=500, thorough=20000, qshards=4),
]
