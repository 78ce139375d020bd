"""C14: the plain transfer function is the least-squares solution per output."""
import numpy as np
from hypothesis import strategies as st

from rzbv import est
from rzbv.engine import Sub, ensure, refuses
from rzbv.num import close, rng
from rzbv.sut import rzb  # noqa
from razorback.utils import transfer_function_real_prob
from razorback.mestimator import transfer_function, m_estimate, chain_m_estimate, wlse
from razorback.weights import least_square, Weights

WEIGHTS = {"default": lambda: {}, "tuple": lambda: dict(weights=(None,)), "list": lambda: dict(weights=[None]),
           "least_square": lambda: dict(weights=least_square), "Weights": lambda: dict(weights=Weights([None], "x"))}


def idx_sets():
    return st.one_of(st.just([]), st.lists(st.integers(0, 199), max_size=8, unique=True), st.lists(st.integers(0, 30), max_size=12, unique=True),
                     st.integers(0, 100).map(lambda k: list(range(k, k + 5))), st.just("half"), st.just("head"), st.just("tail"))


def actual(s, n, ni):
    if s == "half":
        s = range(0, n, 2)
    elif s == "head":
        s = range(n // 3)
    elif s == "tail":
        s = range(n - n // 3, n)
    s = [i for i in s if i < n]
    return s[:max(0, n - ni - 6)]


def cases():
    return st.fixed_dictionaries(dict(
        p=est.problems(n=(12, 200, 5000), ni=(1, 4, 7), no=(1, 3, 7)), weights=st.sampled_from(sorted(WEIGHTS)), per_output=st.booleans(),
        sets=st.lists(idx_sets(), min_size=3, max_size=3), container=st.sampled_from(["list", "tuple", "array", "array2d"]),
        data=st.sampled_from(["array", "lists", "int", "list of arrays"]), junk=st.sampled_from([None, "nan", "huge", "inf"]),
        init=st.booleans(), relation=st.sampled_from(["scale", "units", "mix", "perm", "outputs", "add", "single"])))


def wrap(s, kind):
    return {"list": list, "tuple": tuple}.get(kind, lambda x: np.array(x, dtype=int))(s)


def solve(E, B, iv, **kw):
    t, ii = transfer_function(E, B, invalid_idx=iv, **kw)
    ensure(np.shape(t) == (len(E), len(B)), "transfer of shape %s for %s outputs, %s inputs", np.shape(t), len(E), len(B))
    ensure(len(ii) == len(E), "%s index lists for %s outputs", len(ii), len(E))
    return np.asarray(t), ii


def run_lstsq(case, ctx):
    p = est.Problem(case["p"])
    E, B, n = p.E, p.B, p.n
    if case["data"] == "int":
        s = case["p"]["scale"]
        B, E = (np.rint(30 * x.real / s).astype(int) for x in (B, E / max(1, np.abs(p.T).max())))
        if np.linalg.cond(B) > 50:
            return
    sets = [actual(case["sets"][k % 3], n, p.ni) for k in range(p.no)]
    if not case["per_output"]:
        sets = [sets[0]] * p.no
        iv = wrap(sets[0], case["container"])
        if not sets[0] and case["container"] == "tuple":
            iv = None
    elif case["container"] == "array2d":
        k = min(map(len, sets))
        sets = [s[:k] for s in sets]
        iv = np.array(sets, dtype=int)
    else:
        iv = [wrap(s, case["container"]) for s in sets]
    keep = [np.setdiff1d(np.arange(n), s) for s in sets]
    ref = np.array([est.lstsq(e, B, k) for e, k in zip(E, keep)])
    kw = WEIGHTS[case["weights"]]()
    if case["init"]:
        kw["init"] = [np.full(p.ni, 1e3)] * p.no
    # junk at the invalid samples
    E2, B2 = E.copy(), B.copy()
    if case["junk"] and case["data"] != "int":
        v = {"nan": np.nan, "huge": 1e200, "inf": np.inf}[case["junk"]]
        for row, s in zip(E2, sets):
            row[np.array(s, dtype=int)] = v
        if not case["per_output"]:
            B2[:, np.array(sets[0], dtype=int)] = v
    args = {"lists": lambda x: x.tolist(), "list of arrays": list}.get(case["data"], lambda x: x.copy())
    E3, B3 = args(E2), args(B2)
    tol = 1e-9 * (np.abs(ref).max() + np.abs(E).max() / np.abs(B).max())
    for rep in range(2):
        t, ii = solve(E3, B3, iv, **kw)
        close(t, ref, 1e-8, tol, "transfer")
        for k in range(p.no):
            est.same_idx(ii[k], sets[k], f"output {k}")
    ensure(np.array_equal(np.asarray(E3), E2, equal_nan=True) and np.array_equal(np.asarray(B3), B2, equal_nan=True), "the data were changed")
    for k in range(p.no):
        r = E[k, keep[k]] - t[k].dot(B[:, keep[k]])
        g = B[:, keep[k]].conj().dot(r)
        lim = 1e-8 * np.linalg.norm(B) * np.linalg.norm(E)
        ensure(np.abs(g).max() <= lim, "normal equations of output %d: %s", k, g)
        if p.sigma == 0 and case["data"] != "int":
            close(t[k], p.T[k], 1e-8, 1e-8 * np.abs(p.T).max(), f"relation of output {k}")
    ctx.nontrivial(any(sets) or p.no > 1 or p.ni > 1)
    ctx.label(case["container"] if any(sets) else "no invalid", "per output" if case["per_output"] else "shared")

    # one relation
    r = rng(case["p"]["seed"] + 1)
    rel = case["relation"]
    ctx.label(rel)
    if rel == "scale":
        a, c = est.crandn(r, p.no), est.crandn(r, p.ni) * 3
        t2, _ = solve(E * a[:, None], B * c[:, None], iv, **kw)
        want = ref * a[:, None] / c
    elif rel == "units":
        # inputs in very different units
        c = 10. ** r.uniform(-2.5, 2.5, p.ni)
        t2, _ = solve(E, B * c[:, None], iv, **kw)
        t2 = t2 * c
        want = ref
    elif rel == "mix":
        m = est.mixing(r, p.ni)
        t2, _ = solve(E, m.dot(B), iv, **kw)
        want = ref.dot(np.linalg.inv(m))
    elif rel == "perm":
        q = r.permutation(n)
        back = np.argsort(q)
        t2, i2 = solve(E[:, q], B[:, q], [back[s].tolist() for s in sets], **kw)
        want = ref
        for k in range(p.no):
            est.same_idx(i2[k], back[np.array(sets[k], dtype=int)], f"permuted, output {k}")
    elif rel == "outputs":
        q = r.permutation(p.no)
        t2, i2 = solve(E[q], B, [sets[k] for k in q], **kw)
        want = ref[q]
        for k in range(p.no):
            est.same_idx(i2[k], sets[q[k]], "permuted outputs")
    elif rel == "add":
        c = est.crandn(r, p.no, p.ni) * 10
        t2, _ = solve(E + c.dot(B), B, iv, **kw)
        want = ref + c
    else:
        k = r.randint(p.no)
        kw.pop("init", None)
        t2, i2 = solve(E[k:k + 1], B, [sets[k]], **kw)
        want = ref[k:k + 1]
        est.same_idx(i2[0], sets[k], "alone")
    close(t2, want, 1e-7, 1e-7 * np.abs(want).max() + 1e-8 * np.abs(E).max() / np.abs(B).max(), rel)


# ---------------------------------------------------------------- the estimators used by transfer_function

def direct_cases():
    return st.fixed_dictionaries(dict(
        p=est.problems(n=(12, 60, 1500), ni=(1, 4, 6), no=(1, 3, 5), noise=(.1, 1., 10.)), invalid=idx_sets(), container=st.sampled_from(["list", "tuple", "array"]),
        weight=st.sampled_from([None, "ones", "random", "scalar", "zeros"]), wseed=est.seeds, shared=st.booleans(), steps=st.integers(1, 3)))


def run_direct(case, ctx):
    p = est.Problem(case["p"])
    E, b, n = p.E, p.B.T, p.n
    bad = actual(case["invalid"], n, p.ni)
    keep = np.setdiff1d(np.arange(n), bad)
    ref = np.array([est.lstsq(e, p.B, keep) for e in E])
    tol = 1e-9 * (np.abs(ref).max() + np.abs(E).max() / np.abs(b).max())
    for k in range(p.no):
        e = E[k].copy()
        z, ii = m_estimate(e, b, None, None, wrap(bad, case["container"]) if bad or case["container"] != "tuple" else None)
        close(z, ref[k], 1e-8, tol, "m_estimate without weight function")
        est.same_idx(sorted(np.asarray(ii).tolist()), bad, "m_estimate")
        z, ii = m_estimate(e, b, np.zeros(p.ni), lambda it, r, e, b, ii: None, wrap(bad, case["container"]))
        close(z, ref[k], 1e-8, tol, "m_estimate with weight None")
        est.same_idx(sorted(np.asarray(ii).tolist()), bad, "m_estimate")
        got = list(chain_m_estimate(e, b, [None] * case["steps"], None, wrap(bad, case["container"])))
        ensure(len(got) == case["steps"] + 1, "%s estimates for %s steps", len(got), case["steps"])
        ensure(got[0][0] is None and np.asarray(got[0][1]).tolist() == list(bad), "starting point: %s", got[0])
        for i, (z, ii) in enumerate(got[1:]):
            close(z, ref[k], 1e-8, tol, f"chain, step {i + 1}")
            ensure(len(ii) == 0, "chain, step %s: rejected %s", i + 1, ii)
        ensure(np.array_equal(e, E[k]), "the data were changed")
    # the real-valued formulation has the same least-squares solution, in complex numbers
    sets = [bad] * p.no if case["shared"] else [bad[:len(bad) // (k + 1)] for k in range(p.no)]
    ref2 = np.array([est.lstsq(e, p.B, np.setdiff1d(np.arange(n), s)) for e, s in zip(E, sets)])
    iv = wrap(bad, case["container"]) if case["shared"] else [wrap(s, case["container"]) for s in sets]
    iv = None if not bad and case["weight"] == "ones" else iv
    z0 = est.crandn(rng(case["wseed"]), p.no, p.ni)
    log = []

    def ones(it, r, e, b, ii):
        if it == 0:
            log.append(np.array(r))
        return np.ones(len(e))
    for weights, init in (([None], None), ([ones], z0), ([None, ones], None)):
        t, ii = transfer_function_real_prob(E, p.B, weights, init=init, invalid_idx=iv)
        ensure(np.shape(t) == (p.no, p.ni), "real formulation: shape %s", np.shape(t))
        close(t, ref2, 1e-8, tol, "real formulation")
        for k in range(p.no):
            est.same_idx(ii[k], sets[k], f"real formulation, output {k}")
    for k in range(p.no):
        r = (E[k] - z0[k].dot(p.B))[np.setdiff1d(np.arange(n), sets[k])]
        close(log[k], np.stack([r.real, r.imag], axis=1).ravel(), 1e-9, 1e-9 * np.abs(r).max(), "first residuals of the real formulation")
    # weighted least squares, for several outputs at once
    w, g = None, rng(case["wseed"])
    sw = np.ones(n)
    if case["weight"] in ("random", "zeros"):
        w = g.uniform(.1, 3, n)
        if case["weight"] == "zeros":
            w[np.array(bad, dtype=int)] = 0
        sw = np.sqrt(w)
    elif case["weight"] == "ones":
        w = np.ones(n)
    elif case["weight"] == "scalar":
        w = np.float64(g.uniform(.1, 3))
    want = np.linalg.lstsq(b * sw[:, None], (E * sw).T, rcond=None)[0]
    tol = 1e-9 * (np.abs(want).max() + np.abs(E).max() / np.abs(b).max())
    close(wlse(E.T, b, w), want, 1e-8, tol, "weighted least squares, all outputs")
    close(wlse(E[0], b, w), want[:, 0], 1e-8, tol, "weighted least squares, one output")
    ctx.nontrivial(bool(bad))
    ctx.label(str(case["weight"]))


# ---------------------------------------------------------------- as few samples as unknowns

def few_cases():
    return st.fixed_dictionaries(dict(seed=est.seeds, ni=st.integers(1, 4), no=st.integers(1, 3), left=st.sampled_from([0, 0, 0, 1, 2]), dropped=st.lists(st.integers(0, 12), min_size=3, max_size=3),
                                      none=st.sampled_from([False, False, False, True]), weights=st.sampled_from(sorted(WEIGHTS)), container=st.sampled_from(["list", "tuple", "array"]), real=st.booleans()))


def run_few(case, ctx):
    r = rng(case["seed"])
    ni, no = case["ni"], case["no"]
    dropped = case["dropped"] if not case["real"] else [case["dropped"][0]] * 3
    kept = ni + case["left"]
    n = kept + max(dropped[:no])
    E, B = est.crandn(r, no, n), est.crandn(r, ni, n)
    sets = []
    for k in range(no):
        sets.append(sorted(r.permutation(n)[:n - kept].tolist()))
    kw = WEIGHTS[case["weights"]]()
    f = transfer_function_real_prob if case["real"] else transfer_function
    iv = [wrap(s, case["container"]) for s in sets]
    if case["none"]:
        iv[case["seed"] % no] = wrap(range(n), case["container"])
        refuses("an output without valid sample", lambda: f(E, B, invalid_idx=iv, **kw), ValueError)
        ctx.label("none left")
        return
    keep = [np.setdiff1d(np.arange(n), s) for s in sets]
    if max(np.linalg.cond(B[:, k]) for k in keep) > 100:
        return
    t, ii = f(E, B, invalid_idx=iv, **kw)
    ensure(np.shape(t) == (no, ni), "transfer of shape %s", np.shape(t))
    for k in range(no):
        ref = est.lstsq(E[k], B, keep[k])
        close(t[k], ref, 1e-8, 1e-8 * np.abs(ref).max(), f"output {k} from {kept} samples")
        est.same_idx(ii[k], sets[k], f"output {k}")
    ctx.nontrivial(case["left"] == 0)
    ctx.label(f"{case['left']} more", f"{ni} inputs")


# ---------------------------------------------------------------- refusals

def refusals():
    return st.fixed_dictionaries(dict(p=est.problems(n=(12, 40), no=(1, 3)), what=st.sampled_from(
        ["length", "invalid", "init", "1d inputs", "1d outputs"]), delta=st.sampled_from([-1, 1, 2])))


def run_refusals(case, ctx):
    p = est.Problem(case["p"])
    E, B, w, d = p.E, p.B, case["what"], case["delta"]
    iv, init = None, None
    if w == "length":
        if d < 0:
            E = E[:, :d]
        else:
            B = B[:, :-d]
    elif w == "invalid":
        iv = [[0, 1]] * (p.no + d)
        if not iv:
            return
    elif w == "init":
        init = [np.ones(p.ni)] * (p.no + d)
    elif w == "1d inputs":
        B = B[0]
    else:
        E = E[0]
    refuses(f"inconsistent shapes ({w}, {d})", lambda: transfer_function(E, B, init=init, invalid_idx=iv))
    ctx.nontrivial()
    ctx.label(w)


SUBS = [
    Sub("lstsq", cases, run_lstsq, "several inputs or outputs, or invalid samples", quick=1200, thorough=60000, qshards=3),
    Sub("estimators", direct_cases, run_direct, "some invalid samples", quick=300, thorough=10000),
    Sub("few", few_cases, run_few, "as many samples as unknowns", quick=300, thorough=10000),
    Sub("refusals", refusals, run_refusals, "an inconsistent shape was passed", quick=200, thorough=4000),
]
