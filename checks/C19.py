"""C19: reported errors are the standard errors of the estimates."""
import numpy as np
from hypothesis import strategies as st

from rzbv import est
from rzbv.engine import Sub, ensure, refuses
from rzbv.num import close, rng
from rzbv.sut import rzb  # noqa
from razorback.mestimator import transfer_function, transfer_error
from razorback import weights as W


def cases():
    return st.fixed_dictionaries(dict(
        p=est.problems(n=(10, 300, 4000), ni=(1, 3, 6), no=(1, 3, 6), noise=(1e-3, .1, 1., 10.)), sets=st.lists(st.one_of(
            st.just([]), st.lists(st.integers(0, 299), max_size=30, unique=True), st.integers(1, 9).map(lambda k: list(range(3 * k)))), min_size=3, max_size=3),
        weights=st.sampled_from(["ls", "ls", "given", "mest"]), container=st.sampled_from(["list", "array", "tuple"]), lists=st.booleans()))


def reference(E, B, T, sets):
    n, p = B.shape[1], B.shape[0]
    # through the QR factors, not the Gram matrix
    q, R = np.linalg.qr(B.conj().T)
    d = np.sqrt(np.sum(np.abs(np.linalg.inv(R)) ** 2, axis=1))
    return np.array([np.linalg.norm(e - t.dot(B)) / np.sqrt(n - p) * d * n / (n - len(s)) for e, t, s in zip(E, T, sets)])


def wrap(s, kind):
    return {"list": list, "tuple": tuple}.get(kind, lambda x: np.array(x, dtype=int))(s)


def run_formula(case, ctx):
    p = est.Problem(case["p"])
    E, B, n = p.E, p.B, p.n
    sets = [[i for i in case["sets"][k % 3] if i < n][:n - p.ni - 4] for k in range(p.no)]
    if case["weights"] == "ls":
        sets = [[]] * p.no
    if case["weights"] == "mest":
        try:
            T, sets = transfer_function(E, B, W.mest_weights, invalid_idx=sets)
        except Exception:
            return
        if any(len(s) >= n for s in sets):
            return
    else:
        T, sets2 = transfer_function(E, B, invalid_idx=sets)
    ref = reference(E, B, T, sets)
    iv = [wrap(s, case["container"]) for s in sets]

    def call(E, B, T, iv):
        if case["lists"]:
            E, B = E.tolist(), B.tolist()
        err = transfer_error(E, B, T, iv)
        ensure(isinstance(err, np.ndarray) and err.shape == (len(E), len(B)), "error of shape %s", np.shape(err))
        ensure(np.isrealobj(err) and (err > 0).all(), "errors %s", err)
        return err
    for _ in range(2):
        close(call(E, B, T, iv), ref, 1e-7, 0, "error")
    ctx.nontrivial(p.ni > 1 or p.no > 1 or any(len(s) for s in sets))
    ctx.label("rejected" if any(len(s) for s in sets) else "none rejected")

    r = rng(case["p"]["seed"] + 5)
    q = r.permutation(n)
    back = np.argsort(q)
    close(call(E[:, q], B[:, q], T, [np.sort(back[np.array(s, dtype=int)]) for s in sets]), ref, 1e-7, 0, "other sample order")
    q = r.permutation(p.no)
    close(call(E[q], B, T[q], [iv[k] for k in q]), ref[q], 1e-7, 0, "other output order")
    q = r.permutation(p.ni)
    close(call(E, B[q], T[:, q], iv), ref[:, q], 1e-7, 0, "other input order")
    a = np.exp(6j * r.uniform(size=p.no)) * 10. ** r.uniform(-5, 5, p.no)
    c = np.exp(6j * r.uniform(size=p.ni)) * 10. ** r.uniform(-3, 3)
    close(call(E * a[:, None], B * c[:, None], T * a[:, None] / c, iv), ref * np.abs(a[:, None] / c), 1e-7, 0, "scaled")
    # other rejections change each output's error by the ratio of numbers of samples
    other = [sorted(r.permutation(n)[:r.randint(0, n // 2)].tolist()) for _ in range(p.no)]
    k = np.array([(n - len(s)) / (n - len(o)) for s, o in zip(sets, other)])
    close(call(E, B, T, other), ref * k[:, None], 1e-7, 0, "other rejections")
    for bad in (other + [[0]], other[1:]):
        refuses("another number of index lists", lambda: transfer_error(E, B, T, bad), Exception)


# ---------------------------------------------------------------- coverage

def coverage_cases():
    return st.fixed_dictionaries(dict(seed=est.seeds, n=st.integers(10, 120), ni=st.integers(1, 3), sigma=st.sampled_from([1., 1e-3, 50.]),
                                      invalid=st.sampled_from([0, 0, .2])))


def run_coverage(case, ctx):
    r = rng(case["seed"])
    n, ni, draws = case["n"], case["ni"], 2000
    B = est.mixing(r, ni).dot(est.crandn(r, ni, n))
    T = est.crandn(r, 1, ni)
    E = T.dot(B) + case["sigma"] * est.crandn(r, draws, n)
    iv = sorted(r.permutation(n)[:int(case["invalid"] * n)].tolist()) if n - int(case["invalid"] * n) > 3 * ni + 5 else []
    t, ii = transfer_function(E, B, invalid_idx=iv)
    err = transfer_error(E, B, t, ii)
    inside = (np.abs(t - T) < err).mean(axis=0)
    if not iv:
        # a ratio of chi-squared variables: P = 1 - (1 + 1/(n-p))^-(n-p)
        want = 1 - (1 + 1. / (n - ni)) ** -(n - ni)
        ensure((np.abs(inside - want) < .06).all(), "coverage %s, expected %s", inside, want)
        ratio = np.sqrt((np.abs(t - T) ** 2).mean(axis=0) / (err ** 2).mean(axis=0))
        ensure((np.abs(ratio - 1) < .12).all(), "errors over standard errors: %s", ratio)
    else:
        ensure((inside > .55).all(), "coverage %s with rejections", inside)
    ctx.nontrivial()
    ctx.label("rejected" if iv else "none rejected")


SUBS = [
    Sub("formula", cases, run_formula, "several inputs or outputs, or rejected samples", quick=800, thorough=50000, qshards=2),
    Sub("coverage", coverage_cases, run_coverage, "2000 draws of Gaussian noise", quick=40, thorough=2000, qshards=3),
]
