"""Estimation problems: outputs = T.inputs + noise, on complex or real samples."""
import numpy as np
from hypothesis import strategies as st

from .engine import ensure
from .num import rng

seeds = st.integers(0, 2 ** 31 - 1)


def crandn(r, *shape, real=False):
    x = r.randn(*shape)
    return x if real else (x + 1j * r.randn(*shape)) / 2 ** .5


def mixing(r, k, cond=5., real=False):
    "a random invertible matrix of moderate condition number"
    u, _ = np.linalg.qr(crandn(r, k, k, real=real))
    v, _ = np.linalg.qr(crandn(r, k, k, real=real))
    return u.dot(np.diag(cond ** -r.uniform(0, 1, k))).dot(v)


def upto(lo, hi, far, often=7):
    "mostly between lo and hi, sometimes up to far"
    return st.one_of(*[st.integers(lo, hi)] * often, st.integers(hi, far))


def problems(n=(12, 200), ni=(1, 4), no=(1, 3), noise=(0., 1e-6, .1, 1., 10.), real=(False, False, True)):
    return st.fixed_dictionaries(dict(
        seed=seeds, **{k: (upto if len(v) > 2 else st.integers)(*v) for k, v in dict(n=n, ni=ni, no=no).items()},
        real=st.sampled_from(real), noise=st.sampled_from(noise), scale=st.sampled_from([1., 1., 1e-6, 1e5]),
        tail=st.sampled_from([0, 0, 0, 1, 2])))


class Problem:
    def __init__(self, d):
        r = self.r = rng(d["seed"])
        n, ni, no, real = d["n"], d["ni"], d["no"], d["real"]
        self.n, self.ni, self.no, self.real = n, ni, no, real
        self.B = mixing(r, ni, real=real).dot(crandn(r, ni, n, real=real)) * d["scale"]
        self.T = crandn(r, no, ni, real=real) * 10. ** r.uniform(-1, 1)
        self.sigma = d["noise"] * d["scale"]
        noise = crandn(r, no, n, real=real)
        if d["tail"] == 1:  # heavier tails
            noise *= np.exp(r.randn(no, n))
        elif d["tail"] == 2:  # a few outliers
            noise[r.uniform(size=noise.shape) < .06] *= 1e3
        self.E = self.T.dot(self.B) + self.sigma * noise


def lstsq(e, b, keep):
    "e (n,), b (ni, n)"
    return np.linalg.lstsq(b[:, keep].T, e[keep], rcond=None)[0]


def same_idx(got, want, what):
    got = np.asarray(got)
    ensure(got.ndim == 1 and got.tolist() == sorted(int(i) for i in want), "%s: rejected %s, expected %s", what, got.tolist(), sorted(want))
