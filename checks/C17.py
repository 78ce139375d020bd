"""C17: the reweighting iteration honours its contract with weight functions."""
import numpy as np
from hypothesis import strategies as st

from rzbv import est
from rzbv.engine import Sub, ensure
from rzbv.num import close, rng
from rzbv.sut import rzb  # noqa
from razorback.errors import NonConvergence
from razorback.mestimator import transfer_function
from razorback.utils import transfer_function_real_prob
from razorback.weights import Weights


def weight_specs():
    func = st.fixed_dictionaries(dict(
        seed=est.seeds, amp=st.sampled_from([0., .3, 1., 3.]), decay=st.sampled_from([.1, .5, .8]),
        swing=st.sampled_from([0, 0, 0, 0, 0, 1]),      # never settles
        reject=st.lists(st.tuples(st.integers(0, 5), st.lists(st.integers(0, 60), min_size=1, max_size=6),
                                  st.sampled_from([0., 0., .5, .9, .1, 1.5])).map(list), max_size=3),
        fraction=st.sampled_from([0, 0, 0, .3, .6, 1.]),  # of the samples, rejected at the first iteration
        none=st.sampled_from([[], [], [], [0], [1], [0, 1, 2, 3, 4, 5, 6, 7, 8], [3]]), cached=st.booleans()))
    return st.one_of(st.none(), func, func)


def cases():
    return st.fixed_dictionaries(dict(
        p=est.problems(n=(12, 60, 800), ni=(1, 4, 6), no=(1, 3, 5), noise=(.05, 1.)), specs=st.one_of(*[st.lists(weight_specs(), max_size=4)] * 7, st.lists(weight_specs(), min_size=5, max_size=9)),
        tol=st.sampled_from([None, None, .1, 1e-3, 1e-5, .9, 1e-10, 1e-9, 10., 0]), maxit=st.sampled_from([None, None, 1, 2, 3, 5, 20]), eps=st.sampled_from([None, None, None, 1e-8, 1e-3]),
        init=st.sampled_from([None, None, "near", "far"]), invalid=st.one_of(st.none(), st.lists(st.lists(st.integers(0, 59), max_size=6, unique=True), min_size=3, max_size=3)),
        container=st.sampled_from(["list", "tuple", "Weights", "slice", "items"])))


def make(spec, eps):
    """a function of (iteration, number of samples)"""
    cache = {}

    def func(it, n):
        if it in spec["none"]:
            return None
        r = rng(spec["seed"])
        base = r.uniform(.3, 2, n)
        w = base * (1 + spec["amp"] * spec["decay"] ** it * r.uniform(0, 1, n))
        if spec["swing"]:
            w *= 1 + 4 * (it % 2) * (r.uniform(size=n) < .7)
        for at, pos, val in spec["reject"]:
            if at == it:
                w[[p for p in pos if p < n]] = val * eps
        if it == 0 and spec["fraction"]:
            w[r.permutation(n)[:int(np.ceil(spec["fraction"] * n))]] = 0.
        if spec["cached"]:
            w = cache.setdefault((n, tuple(w)), w)
        return w
    return func


class Undecided(Exception):
    pass


def replay(e, b, funcs, z, invalid, tol, maxit, eps, log):
    """the iteration, from its description; b is (n, ni)"""
    ni = b.shape[1]
    kept = np.setdiff1d(np.arange(len(e)), np.array(invalid, dtype=int))
    rejected = set(int(i) for i in invalid)
    for step, f in enumerate(funcs):
        if len(kept) == 0:
            raise ValueError
        if len(kept) < ni + 3:
            raise Undecided
        ek, bk = e[kept], b[kept]
        if f is None:
            z = np.linalg.lstsq(bk, ek, rcond=None)[0]
            continue
        res = ek - bk.dot(z)
        dead = np.array([], dtype=int)
        prev = None
        for it in range(maxit):
            res = res.astype(complex)
            res[dead] = np.nan
            log.append((step, it, res.copy(), ek, bk, dead))
            w = f(it, len(kept))
            w = np.ones(len(kept)) if w is None else w.copy()
            w[dead] = 0
            dead = np.flatnonzero(np.abs(w) <= eps)
            if len(dead) == len(kept):
                if w.any():
                    raise Undecided
                raise ValueError
            if len(kept) - len(dead) < ni + 3:
                raise Undecided
            s = np.sqrt(np.maximum(w, 0))
            z = np.linalg.lstsq(bk * s[:, None], ek * s, rcond=None)[0]
            res = ek - bk.dot(z)
            q = np.sum(w * np.abs(res) ** 2)
            if prev is not None and tol > 0:  # nothing is below 0
                change = abs(q - prev) / prev
                if abs(change - tol) < max(1e-5 * tol, 1e-12):
                    raise Undecided
                if change < tol:
                    break
            prev = q
        else:
            raise NonConvergence
        rejected |= set(int(kept[i]) for i in dead)
        kept = np.delete(kept, dead)
    return z, sorted(rejected)


def run_iteration(case, ctx):
    p = est.Problem(case["p"])
    E, B, n = p.E, p.B, p.n
    specs = case["specs"]
    init = case["init"]
    if init is None and (not specs or specs[0] is not None):
        init = "near"
    z0 = [None] * p.no
    if init is not None:
        z0 = p.T * (1.1 if init == "near" else -30.)
    invalid = [[] for _ in range(p.no)]
    if case["invalid"]:
        invalid = [[i for i in case["invalid"][k % 3] if i < n - 6] for k in range(p.no)]
    kw = {k: case[k] for k in ("tol", "maxit", "eps") if case[k] is not None}
    tol, maxit, eps = kw.get("tol", 1e-2), kw.get("maxit", 100), kw.get("eps", 1e-14)

    want_log, want = [], []
    expected = None
    try:
        for k in range(p.no):
            want.append(replay(E[k], B.T, [s and make(s, eps) for s in specs], z0[k], invalid[k], tol, maxit, eps, want_log))
    except Undecided:
        ctx.label("undecided")
        return
    except (NonConvergence, ValueError) as e:
        expected = type(e)
    ctx.label("result" if expected is None else expected.__name__)

    got_log = []

    def recorder(step, f):
        def weight(it, residual, e, b, invalid_idx):
            got_log.append((step, it, np.array(residual), np.array(e), np.array(b), np.array(invalid_idx)))
            return f(it, len(e))
        return weight
    weights = [s and recorder(i, make(s, eps)) for i, s in enumerate(specs)]
    weights = {"list": list, "tuple": tuple, "Weights": Weights, "slice": lambda w: Weights([None, *w, None])[1:-1], "items": lambda w: [Weights(w)[i] for i in range(len(Weights(w)))]}[case["container"]](weights)
    if init is not None:
        kw["init"] = z0
    if case["invalid"]:
        kw["invalid_idx"] = invalid
    try:
        got = transfer_function(E, B, weights, **kw)
    except Exception as e:
        ensure(expected is not None, "raised %s: %s", type(e).__name__, e)
        if expected is NonConvergence:
            ensure(isinstance(e, NonConvergence), "raised %s instead of NonConvergence", type(e).__name__)
    else:
        ensure(expected is None, "no error, expected %s", expected and expected.__name__)

    ensure(len(got_log) == len(want_log), "%s calls of the weight functions, expected %s: %s", len(got_log), len(want_log),
           [c[:2] for c in got_log])
    emag = np.abs(E).max() + (np.abs(z0).max() * np.abs(B).max() if init else 0)
    for k, (g, w) in enumerate(zip(got_log, want_log)):
        what = f"call {k} (weighting {w[0]}, iteration {w[1]})"
        ensure(g[:2] == w[:2], "%s: got weighting %s, iteration %s", what, *g[:2])
        ensure(np.array_equal(g[3], w[3]) and np.array_equal(g[4], w[4]), "%s: other data", what)
        ensure(sorted(g[5].tolist()) == w[5].tolist(), "%s: rejected %s, expected %s", what, g[5], w[5])
        ensure(np.array_equal(np.isnan(g[2]), np.isnan(w[2])), "%s: nan residuals %s, expected at %s", what, g[2], w[5])
        live = ~np.isnan(w[2])
        close(g[2][live], w[2][live], 1e-7, 1e-8 * emag, what + ": residuals")
    if expected is None:
        T, ii = got
        ensure(np.shape(T) == (p.no, p.ni), "transfer of shape %s", np.shape(T))
        for k, (z, rej) in enumerate(want):
            close(T[k], z, 1e-7, 1e-8 * emag / np.abs(B).max() + 1e-8 * np.abs(p.T).max(), f"transfer of output {k}")
            est.same_idx(ii[k], rej, f"output {k}")
        if any(rej for _, rej in want):
            ctx.label("rejections")
    calls = len(want_log)
    ctx.nontrivial(calls >= 2)
    ctx.label("several weightings" if len({c[0] for c in want_log}) > 1 else "one weighting" if calls else "no weight function")


# ---------------------------------------------------------------- the real formulation

def real_cases():
    step = st.fixed_dictionaries(dict(re=st.lists(st.integers(0, 200), max_size=6), im=st.lists(st.integers(0, 200), max_size=6), outputs=st.sampled_from(["all", "first", "last"])))
    return st.fixed_dictionaries(dict(
        p=est.problems(n=(14, 80, 800), ni=(1, 3, 5), no=(1, 3, 5), noise=(.05, 1.), real=(False,)), steps=st.lists(st.one_of(st.none(), step, step, step), min_size=1, max_size=4),
        invalid=st.lists(st.lists(st.integers(0, 59), max_size=4, unique=True), min_size=3, max_size=3), shared=st.booleans(), tuples=st.booleans()))


def run_real(case, ctx):
    """the real and imaginary parts are samples of their own; weight functions recognise them by their values"""
    p = est.Problem(case["p"])
    E, B, n = p.E.astype(complex), p.B.astype(complex), p.n
    halves = np.concatenate([E.real, E.imag], axis=1)
    if len(np.unique(halves)) < halves.size:
        ctx.label("equal values")
        return
    invalid = [[i for i in case["invalid"][k % 3] if i < n // 4] for k in range(p.no)]
    if case["shared"]:
        invalid = [invalid[0]] * p.no
    calls, weights, want = [], [], []
    lefts = [np.setdiff1d(np.arange(2 * n), iv + [i + n for i in iv]) for iv in invalid]
    expected_calls = [[] for _ in lefts]
    rejected = [set(iv) for iv in invalid]
    for j, step in enumerate(case["steps"]):
        if step is None:
            weights.append(None)
            continue
        outs = dict(all=range(p.no), first=[0], last=[p.no - 1])[step["outputs"]]
        values = set()
        for k in outs:
            rows = [i for i in step["re"] if i < n] + [i + n for i in step["im"] if i < n]
            values |= set(halves[k, rows].tolist())

        def weight(it, residual, e, b, invalid_idx, values=values, j=j):
            calls.append((j, it, sorted(np.asarray(e).tolist()), np.shape(residual), np.shape(b)))
            return np.array([0. if v in values else 1. for v in np.asarray(e).tolist()])
        weights.append(weight)
        for k in range(p.no):
            if len(lefts[k]):
                for it in (0, 1):
                    expected_calls[k].append((j, it, sorted(halves[k, lefts[k]].tolist())))
            gone = np.array([v in values for v in halves[k, lefts[k]].tolist()], dtype=bool)
            rejected[k] |= set((lefts[k][gone] % n).tolist())
            lefts[k] = lefts[k][~gone]
            if len(lefts[k]) < 2 * p.ni + 6:
                ctx.label("undecided")
                return
    re_rows = np.concatenate([B.real, -B.imag]).T  # unknowns: real parts, imaginary parts
    im_rows = np.concatenate([B.imag, B.real]).T
    rows = np.concatenate([re_rows, im_rows])
    for k in range(p.no):
        x = np.linalg.lstsq(rows[lefts[k]], halves[k, lefts[k]], rcond=None)[0]
        want.append(x[:p.ni] + 1j * x[p.ni:])
    init = p.T * 1.5
    iv = invalid[0] if case["shared"] else invalid
    T, ii = transfer_function_real_prob(list(E), list(B), tuple(weights) if case["tuples"] else weights, init=list(init), invalid_idx=iv, tol=1e-3)
    ensure(np.shape(T) == (p.no, p.ni), "transfer of shape %s", np.shape(T))
    flat = [c for cs in expected_calls for c in cs]
    ensure([c[:2] for c in calls] == [c[:2] for c in flat], "calls %s, expected %s", [c[:2] for c in calls], [c[:2] for c in flat])
    for c, f in zip(calls, flat):
        m = len(f[2])
        ensure(c[2] == f[2], "weighting %s, iteration %s: data %s, expected %s", c[0], c[1], c[2], f[2])
        ensure(c[3] == (m,) and c[4] == (m, 2 * p.ni), "weighting %s, iteration %s: residuals of shape %s, inputs of shape %s for %s samples", c[0], c[1], c[3], c[4], m)
    emag = np.abs(E).max()
    for k in range(p.no):
        close(T[k], want[k], 1e-7, 1e-8 * emag / np.abs(B).max() + 1e-8 * np.abs(p.T).max(), f"transfer of output {k}")
        est.same_idx(ii[k], sorted(rejected[k]), f"output {k}")
    ctx.nontrivial(any(len(r) > len(iv) for r, iv in zip(rejected, invalid)))
    ctx.label("half a sample" if any(len(l) % 2 for l in lefts) else "even")


SUBS = [
    Sub("iteration", cases, run_iteration, "at least two calls of weight functions", quick=1500, thorough=60000, qshards=4),
    Sub("real", real_cases, run_real, "a weight function rejects some sample", quick=400, thorough=15000),
]
