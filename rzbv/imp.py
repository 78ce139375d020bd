"""Synthetic sites for impedance estimation: E = Z0.B (+ noise), R = M.S."""
import contextlib
import io
import warnings

import dask
import numpy as np
from hypothesis import strategies as st

from .est import crandn, mixing, seeds
from .num import rng
from . import model as M
from .sut import rzb
from razorback import weights as W
from razorback.fourier_transform import slepian_window

dask.config.set(scheduler="synchronous")  # threads only add overhead here; C11 and C12 use them

TAGS = [("E", "B", "Bremote"), ("E", "B", "R"), ("elec", "mag", "rem"), ("E", "B", "site2_B")]


def windows():
    return st.sampled_from([["default"], ["default"], ["none"], ["hanning"], ["slepian", 2], ["slepian", 3]])


def fourier_opts(dense=False):
    return st.fixed_dictionaries(dict(
        nper=st.sampled_from([None, None, 3, 5, 8, 10]), overlap=st.sampled_from([None, None, 0, .5, .71] if not dense else [None]),
        window=windows()))


def make_opts(d):
    opt = {}
    if d["nper"] is not None:
        opt["Nper"] = d["nper"]
    if d["overlap"] is not None:
        opt["overlap"] = d["overlap"]
    w = d["window"]
    if w[0] != "default":
        opt["window"] = None if w[0] == "none" else np.hanning if w[0] == "hanning" else slepian_window(w[1])
    return opt or None


def full_opts(opt):
    return dict(dict(Nper=8, overlap=.71, window=slepian_window(4)), **(opt or {}))


def weightings():
    return st.sampled_from([["ls"], ["ls"], ["none"], ["mest"], ["mest"], ["bi", .01, 3, 2], ["huber"]])


def make_weights(w):
    return {"ls": lambda: W.least_square, "none": lambda: (None,), "mest": lambda: W.mest_weights,
            "huber": lambda: [None, W.Huber()], "bi": lambda: W.bi_weights(*w[1:])}[w[0]]()


def sites(nb=(1, 3), remote=None, size=(900, 2500), noise=(1e-3,), runs=(1, 3), ne=(1, 3), nr=(0, 2), extra=(0, 2)):
    run = st.fixed_dictionaries(dict(factor=st.sampled_from([1, 1, 1, 2, 4]), size=st.integers(*size), gap=st.floats(0, 1e4)))
    return st.fixed_dictionaries(dict(
        seed=seeds, ne=st.integers(*ne), nb=st.integers(*nb), nr=st.integers(*nr) if remote is None else st.just(int(remote)),
        remote=st.booleans() if remote is None else st.just(bool(remote)), extra=st.integers(*extra), runs=st.lists(run, min_size=runs[0], max_size=runs[1]),
        rate=st.sampled_from([1., 15., 128., 1000., .5]), start=st.sampled_from([0., 0., 1.5e9, -1e6, 12.25]),
        order=st.integers(0, 10 ** 6), tags=st.integers(0, len(TAGS) - 1), cal=st.sampled_from([0, 0, 1, 2]),
        noise=st.sampled_from(noise), unit=st.booleans()))


class Site:
    """channels: ne electric, nb magnetic, nr remote magnetic (nr >= nb or 0), extra"""

    def __init__(self, d, local_noise=0., remote_noise=1e-3, junk=None):
        r = self.r = rng(d["seed"])
        self.ne, self.nb = d["ne"], d["nb"]
        self.nr = d["nb"] + d["nr"] if d["remote"] else 0
        ne, nb, nr = self.ne, self.nb, self.nr
        n = self.nch = ne + nb + nr + d["extra"]
        order = rng(d["order"]).permutation(n) if d["order"] else np.arange(n)
        self.ie, self.ib, self.ir = order[:ne].tolist(), order[ne:ne + nb].tolist(), order[ne + nb:ne + nb + nr].tolist()
        self.tag_e, self.tag_b, self.tag_r = TAGS[d["tags"]]
        unit = 10. ** r.uniform(-4, 4, n) if d["unit"] else np.ones(n)
        ue, ub, ur = unit[:ne], unit[ne:ne + nb], unit[ne + nb:ne + nb + nr]
        z = r.randn(ne, nb) + np.where(r.uniform(size=(ne, nb)) < .5, -.5, .5)
        self.Z0 = z * ue[:, None] / ub
        mix = mixing(r, nb, 3., real=True)
        m = np.linalg.qr(r.randn(max(nr, nb), nb))[0][:nr] if nr else np.empty((0, nb))
        # R = m.mix^-1.B without noise
        self.M0 = m.dot(np.linalg.inv(mix)) * ur[:, None] / ub
        self.cal = d["cal"]
        self.codes = [None] * n
        if d["cal"]:
            self.codes = [(1 if d["cal"] == 1 else 2, int(r.randint(0, 4)), i) if r.uniform() < .8 else None for i in range(n)]
        self.runs = []
        t = d["start"]
        for run in d["runs"]:
            k = run["size"]
            rate = d["rate"] * run["factor"]
            s = r.randn(nb, k)
            b = mix.dot(s)
            rms = np.sqrt((b ** 2).mean())
            e = z.dot(b)
            e += d["noise"] * np.sqrt((e ** 2).mean(axis=1))[:, None] * r.randn(ne, k)
            rem = m.dot(s)
            rem += remote_noise * r.randn(nr, k)
            b = b + local_noise * rms * r.randn(nb, k)
            data = np.empty((n, k))
            data[order] = np.vstack([e, b, rem, r.randn(d["extra"], k)]) * unit[:, None]
            self.runs.append((rate, t, data))
            t = t + k / rate + run["gap"]
        self.rate = d["rate"]

    def calib(self, f):
        "calibration values of all channels"
        return np.array([M.cal_value(c, f) for c in self.codes])

    def magnitudes(self, f):
        "of the calibrated channels"
        return np.median([d.std(axis=1) for _, _, d in self.runs], axis=0) / np.abs(self.calib(f))

    def expected(self, f):
        c = self.calib(f)
        return self.Z0 * c[self.ib] / c[self.ie][:, None]

    def remote(self, f):
        "calibrated remote channels from calibrated local ones"
        c = self.calib(f)
        return self.M0 * c[self.ib] / c[self.ir][:, None]

    def tags(self):
        tags = {self.tag_e: self.ie, self.tag_b: self.ib}
        if self.nr:
            tags[self.tag_r] = self.ir
        return tags

    def signal_set(self, tags=None):
        cals = [M.cal_make(c) for c in self.codes]
        runs = [rzb.SyncSignal(list(data), rate, start, cals) for rate, start, data in self.runs]
        return rzb.SignalSet(tags or self.tags(), *runs)

    def tag_args(self):
        kw = {}
        if self.tag_e != "E":
            kw.update(tag_elec=self.tag_e, tag_mag=self.tag_b)
        if self.nr:
            kw["remote"] = self.tag_r
        return kw

    def needed(self, few):
        "windows for a sure estimate"
        return few + 12 * max(0, self.nb - 3) + 6 * max(0, self.nr - 5)

    def enough(self, f, opt, windows=25, per_run=2):
        "can f be processed, with enough windows"
        opt = full_opts(opt)
        total = 0
        for rate, _, data in self.runs:
            L = int(np.ceil(opt["Nper"] * rate / f))
            shift = int(L * (1 - opt["overlap"]))
            k = (data.shape[1] - L) // max(shift, 1) + 1
            if f >= .49 * rate or L < 10 or shift < 1 or k < per_run + 1:
                return False
            total += k
        return total >= windows


def quiet(func, *a, **k):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return func(*a, **k)
