"""C15: robust estimates are equivariant and independent of call history."""
import numpy as np
from hypothesis import strategies as st

from rzbv import est
from rzbv.engine import Sub, ensure
from rzbv.num import rng
from rzbv.sut import rzb  # noqa
from razorback.mestimator import transfer_function
from razorback import weights as W


def make(w):
    kind = w[0]
    if kind == "mest":
        return W.mest_weights
    if kind == "bi":
        return W.bi_weights(*w[1:])
    if kind == "huber":
        return [None, W.Huber(w[1])]
    if kind == "thomson":
        return (None, W.Huber(), W.Thomson(*w[1:]))
    if kind == "same":  # the same objects used several times in the sequence
        h, t = W.Huber(w[1]), W.Thomson(3.)
        return [None, h, t, h, t]
    # given once, by any iterable
    return W.Weights(iter([None, W.Huber(2.), W.BoundedInfluenceStep(W.Huber(), .01, 4.), W.BoundedInfluenceStep(W.Thomson(), .02, 3.5)]), "steps")


def fresh(w):
    if w[0] == "mest":
        return W.Weights([None, W.Huber(), W.Thomson()], "fresh")
    return make(w)


def weightings():
    return st.one_of(
        st.just(["mest"]), st.just(["mest"]),
        st.sampled_from([["bi", .01, 3, 2], ["bi", .01, 2, 1], ["bi", .03, 1, 2], ["bi", .01, 4], ["steps"]]),
        st.sampled_from([1.5, 1., 2.5]).map(lambda a: ["huber", a]),
        st.sampled_from([1.5, 2.]).map(lambda a: ["same", a]),
        st.sampled_from([[], [2.5], [4.], [3.]]).map(lambda a: ["thomson"] + a))


def problems():
    return est.problems(n=(20, 150, 1000), noise=(.01, .1, 1., 1.), real=(False,)).flatmap(
        lambda d: st.tuples(st.sampled_from([0, 0, 0, 1, 3]), st.booleans()).map(lambda t: dict(d, leverage=t[0], minor=t[1])))


class Prob(est.Problem):
    def __init__(self, d):
        super().__init__(d)
        if d["leverage"]:  # a few samples with larger inputs
            k = max(1, self.n // 40)
            old = self.B.copy()
            self.B[:, :k] *= 3. * d["leverage"]
            self.E += self.T.dot(self.B - old)
            if d["minor"]:
                self.E[:, :k] += 30 * self.sigma


def outcome(E, B, weights, **opt):
    try:
        t, ii = transfer_function(E, B, weights, **opt)
    except Exception as e:
        return type(e).__name__, None
    return np.array(t), [np.array(i).tolist() for i in ii]


def same(a, b, scale, what, exact=False):
    """scale: natural magnitude of each coefficient"""
    if not exact and "LinAlgError" in (a[0] if isinstance(a[0], str) else "", b[0] if isinstance(b[0], str) else ""):
        return  # hardly any sample is left: rounding tells whether the equations are singular
    if isinstance(a[0], str) or isinstance(b[0], str):
        ensure(isinstance(a[0], str) and isinstance(b[0], str), "%s: %s instead of %s", what,
               *(x[0] if isinstance(x[0], str) else "a result" for x in (a, b)))
        return
    ensure(a[0].shape == b[0].shape, "%s: shapes %s %s", what, a[0].shape, b[0].shape)
    if exact:
        ensure(np.array_equal(a[0], b[0]), "%s: %s, expected %s", what, a[0], b[0])
    ensure((np.abs(a[0] - b[0]) <= 1e-6 * scale).all(), "%s: %s, expected %s", what, a[0], b[0])
    for k, (i, j) in enumerate(zip(a[1], b[1])):
        ensure(i == j, "%s: output %d rejects %s, expected %s", what, k, i, j)


def relations():
    return st.fixed_dictionaries(dict(p=problems(), w=weightings(), opt=st.sampled_from([{}, {}, {"tol": 1e-3}, {"maxit": 12}])))


def run_relations(case, ctx):
    p = Prob(case["p"])
    E, B, n = p.E, p.B, p.n
    w = make(case["w"])
    opt = case["opt"]
    r = rng(case["p"]["seed"] + 7)
    base = outcome(E, B, w, **opt)
    failed = isinstance(base[0], str)
    bmag = np.linalg.norm(B, axis=1)
    emag = np.median(np.abs(E), axis=1) * n ** .5
    scale = (emag[:, None] / bmag) + np.abs(p.T)
    ok = dict(shape=(p.no, p.ni))
    if not failed:
        ensure(base[0].shape == ok["shape"], "shape %s", base[0].shape)
        for k, i in enumerate(base[1]):
            ensure(i == sorted(set(i)) and all(0 <= j < n for j in i), "output %d rejects %s", k, i)
        ctx.nontrivial()
        ctx.label("rejections" if any(base[1]) else "no rejection")
    else:
        ctx.label(base[0])

    # outputs on their own
    alone = [outcome(E[k:k + 1], B, w, **opt) for k in range(p.no)]
    if failed:
        ensure(any(isinstance(a[0], str) for a in alone), "outputs fail only when estimated together: %s", base[0])
    else:
        for k, a in enumerate(alone):
            same(a, (base[0][k:k + 1], base[1][k:k + 1]), scale[k], f"output {k} alone")
    # an order of outputs, with one more that is unrelated
    q = r.permutation(p.no)
    other = p.sigma * est.crandn(r, n)
    extra = outcome(other[None], B, w, **opt)
    if not failed and not isinstance(extra[0], str):
        got = outcome(np.vstack([other[None], E[q]]), B, w, **opt)
        want = np.vstack([extra[0], base[0][q]]), extra[1] + [base[1][k] for k in q]
        same(got, want, np.vstack([scale[:1], scale[q]]), "reordered outputs")
    # samples
    q = r.permutation(n)
    back = np.argsort(q)
    want = base if failed else (base[0], [sorted(back[np.array(i, dtype=int)].tolist()) for i in base[1]])
    same(outcome(E[:, q], B[:, q], w, **opt), want, scale, "permuted samples")
    # scales
    a = np.exp(6j * r.uniform(size=p.no)) * 10. ** r.uniform(-8, 8, p.no)
    c = np.exp(6j * r.uniform(size=p.ni)) * 10. ** r.uniform(-1, 1, p.ni) * 10. ** r.uniform(-6, 6)
    f = a[:, None] / c
    want = base if failed else (base[0] * f, base[1])
    same(outcome(E * a[:, None], B * c[:, None], w, **opt), want, scale * np.abs(f), "scaled")
    # inputs
    m = est.mixing(r, p.ni)
    want = base if failed else (base[0].dot(np.linalg.inv(m)), base[1])
    same(outcome(E, m.dot(B), w, **opt), want, scale.dot(np.abs(np.linalg.inv(m))), "recombined inputs")
    # addition
    c = est.crandn(r, p.no, p.ni) * scale * 3
    want = base if failed else (base[0] + c, base[1])
    same(outcome(E + c.dot(B), B, w, **opt), want, scale + np.abs(c), "added inputs")
    # conjugates and real data
    if p.r.randint(2):
        want = base if failed else (base[0].conj(), base[1])
        same(outcome(E.conj(), B.conj(), w, **opt), want, scale, "conjugated")


# ---------------------------------------------------------------- history

def histories():
    step = st.fixed_dictionaries(dict(p=st.integers(0, 2), w=st.integers(0, 1),
                                      how=st.sampled_from(["normal", "normal", "normal", "maxit1", "maxit2", "nan", "singular", "short", "badlen"])))
    return st.fixed_dictionaries(dict(ps=st.lists(problems(), min_size=3, max_size=3), ws=st.lists(weightings(), min_size=2, max_size=2),
                                      steps=st.lists(step, min_size=2, max_size=8), mix=st.booleans()))


def run_histories(case, ctx):
    ps = [Prob(d) for d in case["ps"]]
    shared = [make(w) for w in case["ws"]]
    if case["mix"]:  # one sequence made of the same objects as another
        case["ws"][1] = ["mix"]
        inner = [x for x in shared[0] if x is not None]
        shared[1] = [None] + inner[:1] + inner[-1:]
    ngood = nbad = 0

    def new(k):
        if case["ws"][k] == ["mix"]:
            inner = [x for x in fresh(case["ws"][0]) if x is not None]
            return [None] + inner[:1] + inner[-1:]
        return fresh(case["ws"][k])

    def args(step):
        p = ps[step["p"]]
        E, B, opt = p.E, p.B, {}
        how = step["how"]
        if how.startswith("maxit"):
            opt = dict(maxit=int(how[-1]))
        elif how == "nan":
            E = E.copy()
            E[-1, 3] = np.nan
        elif how == "singular":
            B = B.copy()
            B[-1] = 0
        elif how == "short":
            E, B = E[:, :11], B[:, :11]
        elif how == "badlen":
            E = E[:, :-1]
        return E, B, opt

    prev = []
    for step in case["steps"]:
        E, B, opt = args(step)
        with np.errstate(all="ignore"):
            got = outcome(E, B, shared[step["w"]], **opt)
            want = outcome(E, B, new(step["w"]), **opt)
        same(got, want, 0 if not isinstance(want[0], str) else 1, f"after {len(prev)} calls, {step}", exact=True)
        if isinstance(got[0], str):
            nbad += 1
        else:
            ngood += 1
            ctx.nontrivial(bool(prev))
            if nbad:
                ctx.label("success after a failure")
        prev.append(step)


SUBS = [
    Sub("relations", relations, run_relations, "the estimation succeeds and all relations were compared", quick=400, thorough=12000, qshards=4),
    Sub("history", histories, run_histories, "an estimation after other uses of the same weights", quick=250, thorough=8000, qshards=3),
]
