"""Numerical references, written from the definitions."""
import math

import numpy as np

from .engine import ensure


def rng(seed):
    return np.random.RandomState(seed % (2 ** 32))


def dft(y, nf, L, shift, window=None):
    "2/L sum w[n] y[k*shift+n] exp(-2 pi i nf n) for every complete window k"
    y = np.asarray(y, dtype=float)
    n = np.arange(L)
    w = np.ones(L) if window is None else np.asarray(window)
    base = w * np.exp(-2j * np.pi * nf * n)
    nw = (len(y) - L) // shift + 1
    return np.array([2. / L * np.sum(base * y[k * shift:k * shift + L]) for k in range(nw)])


def ceil_options(x):
    return {math.ceil(x * (1 - 1e-9)), math.ceil(x * (1 + 1e-9))}


def floor_options(x):
    return {math.floor(x * (1 - 1e-9)), math.floor(x * (1 + 1e-9))}


def close(a, b, rtol, atol, what):
    a, b = np.asarray(a), np.asarray(b)
    ensure(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    err = np.abs(a - b)
    lim = atol + rtol * np.abs(b)
    bad = ~(err <= lim)
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        ensure(False, "%s: at %s %r, expected %r (tolerance %r)", what, i, a[i], b[i], lim[i] if np.ndim(lim) else lim)


def check_window_params(nw, lw, shift, size, nf, nper, overlap, what):
    """L and shift are as defined, up to rounding; number of windows"""
    ensure(lw in ceil_options(nper / nf), "%s: window length %r for %r periods at %r", what, lw, nper, nf)
    ensure(shift in floor_options(lw * (1 - overlap)), "%s: shift %r for length %r overlap %r", what, shift, lw, overlap)
    ensure(nw == (size - lw) // shift + 1, "%s: %r windows of %r samples every %r in %r samples", what, nw, lw, shift, size)
