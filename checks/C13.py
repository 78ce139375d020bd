"""C13: Slepian windows are valid normalised tapers for every length."""
import numpy as np
from hypothesis import strategies as st
from scipy.signal import windows

from rzbv.engine import Sub, ensure
from rzbv.num import close
from rzbv.sut import rzb  # noqa
from razorback.fourier_transform import slepian_window, time_to_freq

lengths = st.one_of(st.integers(16, 400), st.integers(900, 1100), st.sampled_from([999, 1000, 1001, 1002, 1500, 2000, 2001, 4000]),
                    st.integers(1001, 6000), st.integers(6000, 20000), st.integers(20000, 120000))
taus = st.one_of(st.integers(1, 6), st.sampled_from([1.5, 2.5, 3.5]), st.floats(1, 6))


def calls():
    return st.fixed_dictionaries(dict(calls=st.lists(st.tuples(lengths, taus, st.booleans()).map(list), min_size=1, max_size=5),
                                      repeat=st.booleans()))


def check_window(w, n, tau):
    what = f"slepian_window({tau})({n})"
    ensure(isinstance(w, np.ndarray) and w.shape == (n,), "%s: shape %s", what, np.shape(w))
    ensure(np.isfinite(w).all(), "%s: not finite", what)
    peak = w.max()
    ref = windows.dpss(n, tau)
    ref = ref / ref.mean()
    if n <= 1000:
        close(w, ref, 1e-7, 1e-9 * peak, what)
        ensure(abs(w.mean() - 1) < 1e-9, "%s: mean %r", what, w.mean())
    else:
        close(w, ref, 0, .02 * peak, what)
        ensure(abs(w.mean() - 1) < .01, "%s: mean %r", what, w.mean())
    tol = 1e-6 * peak
    top = int(np.argmax(w))
    ensure(abs(top - (n - 1) / 2.) <= 1 + n / 100., "%s: highest at %s", what, top)
    ensure((np.diff(w[:top + 1]) >= -tol).all() and (np.diff(w[top:]) <= tol).all(), "%s: not rising then falling", what)
    ensure((w[n // 10:n - n // 10] > 0).all() and (w > -tol).all(), "%s: not positive", what)
    close(w, w[::-1], 0, (1e-7 if n <= 1000 else .02) * peak, what + " reversed")


def run_windows(case, ctx):
    seen = []
    todo = list(case["calls"])
    if case["repeat"]:
        todo += [c[:2] + [False] for c in case["calls"]]
    funcs = {}
    for n, tau, spoil in todo:
        # one function for all lengths, or a new one each time
        f = funcs.setdefault(tau, slepian_window(tau))
        w = f(n)
        check_window(w, n, tau)
        again = slepian_window(tau)(n)
        ensure(np.array_equal(again, w), "another value for %s, %s", n, tau)
        seen.append((w, w.copy()))
        if spoil:
            again *= 7  # the array is the caller's
        for a, b in seen:
            ensure(np.array_equal(a, b), "an array returned earlier changed")
    ctx.nontrivial(len(todo) > 1)
    if any(n > 1000 for n, _, _ in todo):
        ctx.label("longer than 1000")
    if any(n <= 1000 for n, _, _ in todo):
        ctx.label("up to 1000")


# ---------------------------------------------------------------- sinusoids

def sinusoids():
    return st.fixed_dictionaries(dict(
        nf=st.one_of(st.floats(.002, .45), st.floats(.0005, .01)), nper=st.integers(2, 20), tau=st.sampled_from([1, 2, 3, 4, 5]),
        rate=st.sampled_from([1., 15., 128., 1000.]), phase=st.floats(0, 6.3), amp=st.sampled_from([1., 1., 1e-3, 250.])))


def run_sinusoid(case, ctx):
    nf, rate = case["nf"], case["rate"]
    L = int(np.ceil(case["nper"] / nf))
    if min(2 * nf, 1 - 2 * nf) * L < 2 * case["tau"] or L < 4 * case["tau"] + 8:
        return
    y = case["amp"] * np.cos(2 * np.pi * nf * np.arange(2 * L + 2) + case["phase"])
    (c,), (nw, lw, shift) = time_to_freq([y], rate, nf * rate, case["nper"], .5, slepian_window(case["tau"]))
    c = np.asarray(c) / case["amp"]
    ensure((np.abs(np.abs(c) - 1) < .05).all(), "modulus %s of a unit sinusoid", np.abs(c))
    phase = np.exp(1j * (case["phase"] + 2 * np.pi * nf * shift * np.arange(nw)))
    ensure((np.abs(c / phase - 1) < .08).all(), "phase %s of a unit sinusoid", c / phase)
    ctx.nontrivial()
    ctx.label("longer than 1000" if L > 1000 else "up to 1000")


SUBS = [
    Sub("windows", calls, run_windows, "at least two windows computed", quick=80, thorough=3000, qshards=3),
    Sub("sinusoid", sinusoids, run_sinusoid, "the window separates positive and negative frequencies", quick=200, thorough=8000),
]
