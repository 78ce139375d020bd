"""Specs of the planted bugs (development only): edits, demonstration and description."""
S = "import numpy as np, razorback as rzb\nfrom razorback import SignalSet, SyncSignal, Tags, Inventory\n"
SPECS = {}


def plant(pid, prop, edits, demo, needs, breaks, also=()):
    SPECS[pid] = dict(property=prop, edits=[edits] if isinstance(edits[0], str) else edits, demo=S + demo, needs=needs, breaks=breaks, also=list(also))


plant("C01-cal", "C01", ("signalset.py", "                calibrations=[s.calibrations[inv[i]] for i in idx],", "                calibrations=[s.calibrations[i] for i in idx],"), """
a = SignalSet({'A': 0, 'B': 1}, SyncSignal([np.zeros(4), np.ones(4)], 1., 0., [2., 3.]))
b = SignalSet({'A': 1, 'B': 0}, SyncSignal([np.ones(4), np.zeros(4)], 1., 10., [3., 2.]))
s = a | b
assert s.signals[1].data[0][0] == 0
assert s.signals[1].calibrations[0](1.) == 2.
""", "two sets with the same tags in another channel order and distinct calibrations", "calibrations stay in the channel order of the second operand while its samples are reordered")

plant("C02-stop", "C02", ("signalset.py", """            if len(sr) != 1:
                continue""", """            if len(sr) != 1:
                break"""), """
sig = lambda rate, t: SyncSignal([np.arange(10.)], rate, t)
a = SignalSet({'A': 0}, sig(1., 0.), sig(1., 100.))
b = SignalSet({'B': 0}, sig(2., 0.), sig(1., 100.))
assert (a & b).nb_runs == 1
""", "a common interval with different sampling rates before another with the same rate", "later common intervals are lost")

plant("C03-order", "C03", ("signalset.py", "        tags = {k: map(idxmap.get, _tupleit(v))", "        tags = {k: sorted(map(idxmap.get, _tupleit(v)))"), """
s = SignalSet({'A': 0, 'X': (2, 1)}, SyncSignal([np.zeros(3), np.ones(3), 2 * np.ones(3)], 1.))
assert s.select_channels('X').tags['X'] == (1, 0)
""", "a tag of several channels in an order that is not increasing", "the tag designates its channels in another order after a selection")

plant("C04-mask", "C04", ("signalset.py", "        indices = np.arange(self.nb_runs)[runs].flat", """        if not isinstance(runs, slice):
            runs = [int(r) for r in np.ravel(runs)]
        indices = np.arange(self.nb_runs)[runs].flat"""), """
s = SignalSet({'A': 0}, *[SyncSignal([np.arange(4.)], 1., 10. * k) for k in range(3)])
assert list(s.select_runs(s.starts > 5).starts) == [10, 20]
""", "a boolean mask", "booleans are taken as run numbers 0 and 1")

plant("C05-two", "C05", ("signalset.py", "        signals = [s for s in signals if s.size > 1]", "        signals = [s for s in signals if (s.size - 1) / s.sampling_rate > 1e-3]"), """
s = SignalSet({'A': 0}, SyncSignal([np.arange(4096.)], 4096., 0.))
r = s.extract_t(10.2 / 4096, 13.8 / 4096)
assert r.nb_runs == 1 and list(r.signals[0].data[0]) == [11, 12, 13]
""", "an extraction leaving a few samples of a quick run", "short runs of at least two samples are dropped")

plant("C06-rates", "C06", ("signalset.py", "            mask = self.sampling_rates == sampling", "            mask = np.isclose(self.sampling_rates, sampling, rtol=1e-3)"), """
a = SyncSignal([np.arange(8.)], 128., 0.)
b = SyncSignal([np.arange(8.)], 128.05, 8 / 128.)
s = SignalSet({'A': 0}, a, b).merge_consecutive_runs()
assert s.nb_runs == 2 and sorted(s.sampling_rates) == [128, 128.05]
""", "neighbour runs with nearly the same sampling rate, starting at the right time", "runs with different rates are glued")

plant("C07-rates", "C07", ("signalset.py", "                for f0 in set(itertools.chain(*freqs))]", "                for f0 in reduce(set.intersection, map(set, freqs), set(freqs[0]) if freqs else set())]"), """
sig = lambda rate, t: SyncSignal([np.arange(20.)], rate, t)
inv = Inventory([SignalSet({'A': 0}, sig(1., 0.)), SignalSet({'A': 0}, sig(2., 100.)), SignalSet({'B': 0}, sig(1., 0.), sig(2., 100.))])
p = inv.pack()
assert p.nb_runs == 2
""", "an element of the inventory recorded at one of the rates only", "rates that are not in every element are ignored")

plant("C08-iadd", "C08", ("signalset.py", "        return type(self)(itertools.chain(self, other))", """        res = type(self)()
        res._content = self._content
        res.extend(other)
        return res"""), """
e = [SignalSet({n: 0}, SyncSignal([np.arange(4.)], 1.)) for n in 'ABC']
a = Inventory(e[:2])
c = a + Inventory(e[2:])
assert len(a) == 2 and len(c) == 3
""", "an inventory used after it was added to another", "the left operand of an addition grows")

plant("C09-late", "C09", ("signalset.py", """        if not all(v in self.indices for v in value):
            msg = "values %s should be in indices %s"
            raise ValueError(msg % (value, self.indices))
        self._tags[key] = value
""", """        self._tags[key] = value
        if not self.indices.issuperset(value):
            msg = "values %s should be in indices %s"
            raise ValueError(msg % (value, self.indices))
"""), """
t = Tags(2, A=0)
try:
    t['A'] = 5
except ValueError:
    pass
else:
    raise SystemExit(1)
assert t['A'] == (0,)
""", "an assignment that is refused", "the mapping is modified although the indices are refused")

plant("C10-alias", "C10", ("signalset.py", "        self._tags = Tags(n or None, **value)", """        if isinstance(value, Tags) and vidx == frozenset(range(n)):
            self._tags = value
        else:
            self._tags = Tags(n or None, **value)"""), """
s = SignalSet({'A': 0}, *[SyncSignal([np.arange(4.)], 1., 10. * k) for k in range(3)])
r = s.select_runs([0, 1])
r.tags['B'] = 0
assert 'B' not in s.tags
""", "editing the tags of a set derived from another", "derived signal sets share their tags with the original")

plant("C11-ceil", "C11", ("fourier_transform.py", "    Lw = np.ceil(Nper / float(normalized_freq))", "    Lw = np.ceil(np.round(Nper / float(normalized_freq), 1))"), """
from razorback.fourier_transform import time_to_freq
x = np.random.RandomState(0).randn(2000)
_, (Nw, Lw, shift) = time_to_freq([x], 1., 8 / 100.03, 8, .5)
assert Lw == 101, Lw
""", "a window length just above an integer number of samples", "windows are one sample too short to cover the periods")

plant("C12-late", "C12", ("signalset.py", "            cal if callable(cal) else (lambda cc: (lambda f: cc))(cal)\n            for cal in calibrations", "            cal if callable(cal) else (lambda f: cal)\n            for cal in calibrations"), """
s = SyncSignal([np.zeros(3), np.zeros(3)], 1., 0., [2., 5.])
assert [c(1.) for c in s.calibrations] == [2., 5.]
""", "several channels with distinct constant calibrations", "all constant calibrations are the last one")

plant("C13-cache", "C13", [("fourier_transform.py", "import numpy as np\nfrom scipy import signal\n", "import functools\nimport numpy as np\nfrom scipy import signal\n"),
                           ("fourier_transform.py", "def slepian(N, tau, N_MAX=1000):", "@functools.lru_cache(maxsize=64)\ndef slepian(N, tau, N_MAX=1000):")], """
from razorback.fourier_transform import slepian_window
w = slepian_window(4)(200)
ref = w.copy()
w *= 3
assert np.allclose(slepian_window(4)(200), ref)
""", "a window array modified by its user, then the same window asked again", "windows depend on what was done to earlier ones")

plant("C14-real", "C14", ("mestimator.py", """    assert len(invalid_idx) == len(outputs)

    if init is None:""", """    assert len(invalid_idx) == len(outputs)
    if outputs.dtype != inputs.dtype:
        outputs = outputs.astype(inputs.dtype)

    if init is None:"""), """
from razorback.mestimator import transfer_function
r = np.random.RandomState(0)
b = r.randn(2, 50)
z = np.array([[1 + 2j, 3 - 1j]])
t, _ = transfer_function(z.dot(b), b)
assert np.allclose(t, z)
""", "real inputs and complex outputs", "the imaginary part of the outputs is dropped")

plant("C15-scale", "C15", ("weights.py", "        x /= scale\n", "        x /= self._data.setdefault(len(x), scale)\n"), """
from razorback.weights import mest_weights
from razorback.mestimator import transfer_function
def run(s):
    r = np.random.RandomState(1)
    b = r.randn(2, 200) + 1j * r.randn(2, 200)
    e = np.array([[1, 2j]]).dot(b) + s * (r.randn(1, 200) + 1j * r.randn(1, 200))
    e[0, :20] += 30 * s
    return transfer_function(e, b, mest_weights)
z1, i1 = run(.1)
run(100.)
z2, i2 = run(.1)
assert np.allclose(z1, z2) and list(i1[0]) == list(i2[0])
run(1e-5)
z1, i1 = run(.1)
assert np.allclose(z1, z2) and list(i1[0]) == list(i2[0])
from razorback.weights import Thomson
a, b = Thomson(3.), Thomson(3.)
x = np.random.RandomState(2).randn(50) + 0j
a(0, 1000 * x, None, None, [])
assert np.allclose(a(0, x, None, None, []), b(0, x, None, None, []))
""", "the same weights used again on as many samples of another magnitude", "the robust scale of an earlier call is used", also=("C18", "C17"))

plant("C17-merge", "C17", ("mestimator.py", "    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)", "    Nmax = max(map(_max, l_ivid)) + 1 + sum(map(len, l_ivid))"), """
from razorback.mestimator import transfer_function
r = np.random.RandomState(0)
b, e = r.randn(1, 40), r.randn(1, 40)
def reject(*idx):
    def f(it, res, e, b, ivid):
        w = np.ones(len(res)); w[list(idx)] = 0; return w
    return f
_, iv = transfer_function(e, b, (None, reject(38), reject(0, 1, 38)))
assert list(iv[0]) == [0, 1, 38, 39], iv
""".replace("max(map(_max, l_ivid)) + 1", "max"), "several weightings rejecting samples one after the other", "rejected samples of a later step are lost or misplaced")

plant("C18-trace", "C18", ("weights.py", "        _prev['trace_bi_weight'] = np.sum(bi_weight)", "        _prev['trace_bi_weight'] = np.count_nonzero(bi_weight)"), """
from razorback.weights import BoundedInfluenceStep, Huber
r = np.random.RandomState(0)
b = r.randn(100, 2) + 1j * r.randn(100, 2)
b[0] *= 6
res = r.randn(100) + 1j * r.randn(100)
f = BoundedInfluenceStep(Huber(), .05, 3.)
w0 = f(0, res.copy(), None, b, [])
w1 = f(1, res.copy(), None, b, [])
A = b.conj().T.dot(w0[:, None] * b)
h = w0 * np.sum(np.linalg.solve(A, b.conj().T) * b.T, axis=0).real
y = w0.sum() * h / 2
ee = lambda x, a: np.exp(np.exp(-a ** 2) - np.exp(a * (x - a)))
y0 = 100 * np.sum(np.linalg.solve(b.conj().T.dot(b), b.conj().T) * b.T, axis=0).real / 2
hat = ee(y0, 3.) * ee(np.log(y0), np.log(.05))
hat = hat * ee(y, 3.) * ee(np.log(y), np.log(.05))
x = abs(res)
scale = np.median(abs(x - np.median(x))) / .44845
assert np.allclose(w1, np.minimum(1, 1.5 * scale / x) * hat)
""", "at least two iterations of a bounded influence step", "the leverage is normalised by a number of samples instead of the sum of weights")

plant("C19-first", "C19", ("mestimator.py", """    for line, T, ivid in zip(outputs, transfer, invalid_idx):
        nres = np.linalg.norm(line - T.dot(inputs))
        err = (nres / r / (n-len(ivid))) * iiinv""", """    m = n - len(invalid_idx[0])
    for line, T in zip(outputs, transfer):
        nres = np.linalg.norm(line - T.dot(inputs))
        err = (nres / r / m) * iiinv"""), """
from razorback.mestimator import transfer_error
r = np.random.RandomState(0)
b, e = r.randn(2, 50) + 0j, r.randn(2, 50) + 0j
t = np.ones((2, 2))
both = transfer_error(e, b, t, [[], [1, 2, 3, 4, 5]])
one = transfer_error(e[1:], b, t[1:], [[1, 2, 3, 4, 5]])
assert np.allclose(both[1], one[0])
""", "outputs with different numbers of rejected samples", "the error of an output depends on the samples rejected for the first one")

plant("C20-tags", "C20", ("utils.py", "    b = [coeffs[i] for i in data.tags[tag_mag]]\n    ## First", "    b = [coeffs[i] for i in sorted(data.tags[tag_mag])]\n    ## First"), """
from razorback.utils import impedance
r = np.random.RandomState(0)
hx, hy = r.randn(2, 4000)
s = SignalSet({'E': (0, 1), 'B': (3, 2)}, SyncSignal([hx + 2 * hy, 3 * hx + 4 * hy, hx, hy], 1.))
z = impedance(s, [.1]).impedance[0]
assert np.allclose(z, [[2, 1], [4, 3]]), z
""", "magnetic channels tagged in decreasing order", "columns of the impedance follow the channels instead of the tag")

plant("C22-rate", "C22", ("utils.py", "                res = (shift * ii + 0.5 * Lw) / s.sampling_rate + s.start\n", "                res = (shift * ii + 0.5 * Lw) / data.sampling_rates[0] + s.start\n"), """
from razorback.utils import impedance
r = np.random.RandomState(0)
def sig(rate, n, t):
    hx, hy = r.randn(2, n)
    return SyncSignal([hx + 2 * hy + 0 * hx, hy - hx, hx, hy], rate, t)
s = SignalSet({'E': (0, 1), 'B': (2, 3)}, sig(8., 2000, 0.), sig(16., 4000, 1000.))
last = lambda e, b: [len(e) - 1]
res = impedance(s, [1.], prefilter=last, keep_invalid_times=True)
t = res.invalid_time[0][0][0]
_, (Nw, Lw, shift) = s.fourier_coefficients(1., 8, .71, None)
assert abs(t - (1000 + (shift[1] * (Nw[1] - 1) + Lw[1] / 2) / 16)) < 1e-6, t
""", "runs with different sampling rates, rejection in a later run, invalid times kept", "times are computed with the rate of the first run")

plant("C22-union", "C22", ("utils.py", "            merged_ivT = reduce(np.union1d, ivT, np.empty(0, dtype=int))\n", "            merged_ivT = reduce(np.intersect1d, ivT)\n"), """
from razorback.utils import impedance
r = np.random.RandomState(0)
hx, hy = r.randn(2, 4000)
s = SignalSet({'E': (0, 1), 'B': (2, 3), 'R': (4, 5)}, SyncSignal([hx + 2 * hy, hy - hx, hx, hy, hx + .01 * r.randn(4000), hy + .01 * r.randn(4000)], 1.))
calls = []
def pre(e, b):
    calls.append(1)
    return [[3], [5]][len(calls) - 1]
res = impedance(s, [.1], remote='R', remote_prefilter=pre, prefilter=lambda e, b: [], keep_invalid_times=True)
assert len(res.invalid_time[0][0]) == 2, res.invalid_time
""", "remote reference with windows rejected for one magnetic channel only", "windows rejected for some magnetic channels only are kept in the second stage", also=("C21",))

plant("C23-tail", "C23", ("prefilters.py", "        cod[-queue:] = coeff_det(e[None, -queue:], b[None, -queue:])", "        cod[-queue:] = coeff_det(e[None, -size:], b[None, -size:])"), """
from razorback.prefilters import CoefficientOfDeterminationFilter
r = np.random.RandomState(0)
b = r.randn(25, 2) + 1j * r.randn(25, 2)
e = r.randn(25) + 1j * r.randn(25)
v = CoefficientOfDeterminationFilter(.5, size=10).value(e, b)
z = np.linalg.lstsq(b[10:], e[10:], rcond=None)[0]
want = np.sqrt(1 - np.sum(abs(e[10:] - b[10:].dot(z)) ** 2) / np.sum(abs(e[10:]) ** 2))
assert np.allclose(v[10:], want)
""", "a number of windows that is not a multiple of the block size", "the value of the last block ignores its first windows")

plant("C24-first", "C24", ("utils.py", "        remote_tags = [remote_names[e] for e in rindices if e is not None]\n        options", "        remote_tags = [remote_names[e] for e in rindices if e]\n        options"), """
from razorback.utils import impedance_mass_proc
r = np.random.RandomState(0)
hx, hy = r.randn(2, 3000)
n = lambda: .1 * r.randn(3000)
def one(tag, *x):
    return SignalSet({tag: (0, 1)}, SyncSignal(x, 1.))
inv = Inventory([one('E', hx + n(), hy + n()), one('B', hx + n(), hy + n()), one('R1', hx + n(), hy + n())])
res = impedance_mass_proc(inv, ['R1'], [.1], [(0, 3000)], {})
assert not np.allclose(res.impedance[0][0], res.impedance[1][0])
""", "a combination with the first remote", "the first remote is never used")

plant("C24-options", "C24", ("utils.py", "        options = dict(impedance_opts)\n        rinv", "        options = impedance_opts\n        rinv"), """
from razorback.utils import impedance_mass_proc
r = np.random.RandomState(0)
hx, hy = r.randn(2, 3000)
inv = Inventory([SignalSet({'E': (0, 1)}, SyncSignal([hx, hy], 1.)), SignalSet({'B': (0, 1)}, SyncSignal([hx, hy], 1.)), SignalSet({'R1': (0, 1)}, SyncSignal([hx, hy], 1.))])
opts = {}
impedance_mass_proc(inv, ['R1'], [.1], [(0, 3000)], opts)
assert opts == {}
""", "options used again after a mass processing", "the options of the caller are modified")

plant("C25-early", "C25", ("io/ats.py", "        ('start', 'i'),", "        ('start', 'I'),"), """
import struct, tempfile, os
from razorback.io.ats import load_ats
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.ats')
    head = bytearray(1024)
    struct.pack_into('<hhifid', head, 0, 1024, 80, 10, 128., -86400, 1.)
    with open(p, 'wb') as f:
        f.write(bytes(head) + np.arange(10, dtype='<i4').tobytes())
    assert load_ats([p]).start == -86400
""", "a recording that starts before 1970", "the start time is a century later")

plant("C26-neg", "C26", ("io/binary_file_array.py", "            if not 0 <= index < dim:", "            if index >= dim:"), """
import tempfile, os
from razorback.io.binary_file_array import BinaryFileArray_1D
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.bin')
    np.arange(20, dtype='i4').tofile(p)
    a = BinaryFileArray_1D(p, 40, 10, np.dtype('i4'))
    assert a[-10] == 10
    try:
        a[-11]
    except IndexError:
        pass
    else:
        raise SystemExit(1)
""", "a negative index out of range, with enough bytes before the data", "bytes of the header are returned as a value")

plant("C27-zero", "C27", ("calibrations.py", "    if chopper_on_limit is None:\n        chopper_on_limit", "    if not chopper_on_limit:\n        chopper_on_limit"), """
import tempfile, os
from razorback.calibrations import metronix
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'MFS06.txt')
    with open(p, 'w') as f:
        f.write('Chopper On\\n1. 1. 0.\\n2. 1. 0.\\n\\nChopper Off\\n1. 5. 0.\\n2. 5. 0.\\n')
    assert abs(metronix(p, 128., chopper_on_limit=0.)(1.) - 5) < 1e-9
""", "a limit of 0 (chopper always off)", "the limit given by the caller is ignored")

plant("C28-sorted", "C28", ("calibrations.py", "        scipy.interpolate.interp1d(freq, values[:, i], copy=False)\n        for", "        scipy.interpolate.interp1d(freq, values[:, i], copy=False, assume_sorted=True)\n        for"), """
import tempfile, os
from razorback.calibrations import phoenix
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.cts')
    with open(p, 'w') as f:
        f.write('2019, 1, MT, 1\\n3., 2, 30., 0.\\n1., 2, 10., 0.\\n2., 2, 20., 0.\\n')
    c, = phoenix(p, 2)
    assert abs(c(1.) - 10) < 1e-9 and abs(c(2.5) - 25) < 1e-9
""", "rows that are not in increasing order of frequency", "values between (or at) tabulated frequencies are wrong or refused")

plant("C29-order", "C29", ("utils.py", "    keys = list(_get_fields(pattern))", "    keys = sorted(set(_get_fields(pattern)))"), """
from razorback.utils import tags_from_path
assert list(tags_from_path(['s1/Hx'], '{site}/{channel}', '{channel}@{site}')) == [('s1/Hx', ['Hx@s1'])]
""", "fields that are not in alphabetical order in the pattern", "texts are attributed to the wrong fields")

plant("C30-cwd", "C30", ("data.py", """    local = pathlib.Path().resolve() / 'data' / target
    if local.is_dir():""", """    local = local_data_path(target)
    if local.exists():"""), """
import tempfile, os
old = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    try:
        os.mkdir('data')
        open('data/metronix_calibration', 'w').close()
        assert rzb.data.data_path('metronix_calibration') == rzb.data.default_data_path('metronix_calibration')
    finally:
        os.chdir(old)
""", "a file where the local data directory would be", "a file is given as the data directory, so that the files shipped with the package are not found")

plant("C31-round", "C31", ("signalset.py", "        date = lambda sec: '%s' % datetime.utcfromtimestamp(np.round(sec))", "        date = lambda sec: '%s' % datetime.utcfromtimestamp(int(sec))"), """
s = SignalSet({'A': 0}, SyncSignal([np.arange(8.)], 8., -10.75))
assert '1969-12-31 23:59:49' in str(s), s
""", "start or stop times that are not whole seconds", "printed times are up to one second off")

plant("C04-mask", "C04", ("signalset.py", "        indices = np.arange(self.nb_runs)[runs].flat", """        if isinstance(runs, (list, tuple)):
            runs = np.fromiter(runs, dtype=int)
        indices = np.arange(self.nb_runs)[runs].flat"""), """
s = SignalSet({'A': 0}, *[SyncSignal([np.arange(4.)], 1., 10. * k) for k in range(3)])
assert list(s.select_runs([False, False, True]).starts) == [20]
""", "a list of booleans", "booleans are taken as run numbers 0 and 1")

plant("C17-merge", "C17", ("mestimator.py", "    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)", "    Nmax = max(map(_max, l_ivid)) + len(l_ivid)"), """
from razorback.mestimator import transfer_function
r = np.random.RandomState(0)
b, e = r.randn(1, 40), r.randn(1, 40)
def reject(*idx):
    def f(it, res, e, b, ivid):
        w = np.ones(len(res)); w[list(idx)] = 0; return w
    return f
_, iv = transfer_function(e, b, (None, reject(*range(10)), reject(28)))
assert list(iv[0]) == list(range(10)) + [38], iv
""", "many samples rejected by a weighting, then one of the last samples by the next weighting", "the rejected samples of the later weighting cannot be located")

plant("C18-dim", "C18", ("weights.py", "    upper = gammaincinv(dim, 1-.5 * reject_prob) / dim", "    upper = gammaincinv(dim, 1-.5 * reject_prob) / 2"), """
from razorback.weights import bi_weights
from scipy.stats import gamma
for dim in (2, 3, 4):
    w = bi_weights(.05, 3, dim)
    assert np.isclose(w[-1]._khi if hasattr(w[-1], '_khi') else float(str(w[-1]).split(',')[-1].strip(' )')), gamma.ppf(.975, dim) / dim, rtol=1e-3)
""", "bounded influence for another number of inputs than 2", "the leverage threshold is not the one of the number of inputs")

plant("C17-drop", "C17", ("mestimator.py", "        wresid = np.max(abs(wresid))\n", "        wresid = np.max(abs(wresid)) / len(residual)\n        tol = max(tol, 1e-8)\n"), """
from razorback.mestimator import transfer_function
r = np.random.RandomState(0)
b, e = r.randn(1, 60), r.randn(1, 60)
its = []
def w(it, res, e, b, ivid):
    its.append(it)
    return 1 / (1 + abs(res)) + .5 ** (3 * it)
transfer_function(e, b, (None, w), tol=1e-12)
n = len(its)
its.clear()
transfer_function(e, b, (None, w), tol=1e-8)
assert n > len(its), (n, len(its))
""", "a tolerance below 1e-8", "iterations stop before the requested tolerance")

plant("C16-median", "C16", ("weights.py", "    med = np.nanmedian(arr)\n", "    med = np.nanmean(arr)\n"), """
from razorback.mestimator import transfer_function
from razorback.weights import mest_weights
r = np.random.RandomState(0)
b = r.randn(2, 300) + 1j * r.randn(2, 300)
z = np.array([[1., 2j]])
e = z.dot(b) + .1 * (r.randn(1, 300) + 1j * r.randn(1, 300))
e[0, :60] += 1000 * np.exp(2j * np.pi * r.rand(60))
t, iv = transfer_function(e, b, mest_weights)
assert abs(t - z).max() < .1 and len(iv[0]) >= 55, (t, iv)
""", "large outliers", "the robust scale grows with the outliers", also=("C18", "C15"))

plant("C21-shared", "C21", ("utils.py", "    for freq in l_freq:\n        res = _impedance(", "    for freq in sorted(l_freq):\n        res = _impedance("), """
from razorback.utils import impedance
r = np.random.RandomState(0)
hx, hy = r.randn(2, 4000)
s = SignalSet({'E': (0, 1), 'B': (2, 3)}, SyncSignal([np.cumsum(hx), hy, hx, hy], 1.))
a = impedance(s, [.2, .05]).impedance
b = impedance(s, [.05]).impedance
assert np.allclose(a[1], b[0])
""", "frequencies requested in another order than increasing", "results are returned in another order")

plant("C21-nan", "C21", ("utils.py", "        T = np.empty((len(b),nbr))\n        T[:] = np.nan\n", "        T = np.full((len(b), len(b) if remote else 0), np.nan)\n"), """
from razorback.utils import impedance
r = np.random.RandomState(0)
x = r.randn(5, 4000)
s = SignalSet({'E': 0, 'B': (1, 2), 'R': (3, 4, 0)}, SyncSignal(x, 1.))
def pre(e, b):
    raise ValueError
res = impedance(s, [.1, .2], remote='R', prefilter=pre)
assert res.transfer_mag.shape == (2, 2, 3)
""", "a failing frequency with a number of remote channels that is not the number of magnetic channels", "the remote transfer of a failed frequency has another shape")

plant("C25-trunc", "C25", ("io/binary_file_array.py", "        if new_size < size:", "        if new_size < size and exact:"), """
import struct, tempfile, os
from razorback.io.ats import load_ats
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.ats')
    head = bytearray(1024)
    struct.pack_into('<hhifid', head, 0, 1024, 80, 10, 128., 0, 1.)
    with open(p, 'wb') as f:
        f.write(bytes(head) + np.arange(7, dtype='<i4').tobytes())
    assert list(np.asarray(load_ats([p]).data[0])) == list(range(7))
""", "a file cut between two samples", "the complete samples of a truncated file cannot be read", also=("C26",))

plant("C26-step", "C26", ("io/binary_file_array.py", "        return arr[::idx.step]", "        return arr[::idx.step] if idx.step > 1 and idx.start % idx.step == 0 else arr[::min(idx.step, length or 1)]"), """
import tempfile, os
from razorback.io.binary_file_array import BinaryFileArray_1D
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.bin')
    np.arange(20, dtype='i4').tofile(p)
    a = BinaryFileArray_1D(p, 0, 20, np.dtype('i4'))
    assert list(a[3:9:7]) == [3], a[3:9:7]
""", "a step larger than the length of the slice", "more values than expected")

plant("C10-runs", "C10", ("signalset.py", "        self._signals = tuple(sorted(signals, key=lambda s: s.start))", "        self._signals = tuple(signals) if len(signals) < 2 or signals[0].start <= signals[-1].start else tuple(sorted(signals, key=lambda s: s.start))"), """
sig = lambda t: SyncSignal([np.arange(4.)], 1., t)
s = SignalSet({'A': 0}, sig(0.), sig(20.), sig(10.), sig(30.))
assert list(s.starts) == [0, 10, 20, 30]
""", "at least three runs given with the first and last ones in place but not the others", "runs are not sorted", also=("C01",))

plant("C05-excl", "C05", ("signalset.py", "            right = self.extract_t(stop, self.stops.max())", "            right = self.extract_t(stop, self.stops[-1] if self.nb_runs else stop)\n            right = right.select_runs(right.sizes > 2)"), """
s = SignalSet({'A': 0}, SyncSignal([np.arange(10.)], 1.))
r = s.extract_t(2., 8., exclude=True)
assert list(r.stops) == [2, 9]
""", "an exclusion that leaves exactly two samples after it", "the two last samples are dropped")

plant("C07-multi", "C07", ("signalset.py", "            content = (s.select_channels(c) for s, cc in zip(self, channels) for c in cc)", "            channels = list(channels)\n            content = (s.select_channels(c) for s, cc in zip(self, channels) for c in (cc if len(cc) < 3 else cc[:2] + cc[-1:]))"), """
s = SignalSet({'A': 0, 'B': 1, 'C': 2, 'D': 3, 'G': (0, 1)}, SyncSignal([np.arange(9.)] * 4, 1.))
p = Inventory([s]).pack(keep_multi_tags=False)
assert sorted(p.tags) == list('ABCD'), p
""", "four channels or more in an element, packed without the tags of several channels", "some channels are lost")

plant("C08-runs", "C08", ("signalset.py", "        content = (s.select_runs(r) for s, r in zip(self, runs))\n        content = (s for s in content if s.nb_runs)", "        content = (s.select_runs(r) for s, r in zip(self, runs) if np.any(r))"), """
s = SignalSet({'A': 0}, SyncSignal([np.arange(4.)], 1.))
inv = Inventory([s, s]).select_runs([[0], [0]])
assert len(inv) == 2
""", "the run of index 0 alone selected by its number", "the element is dropped")

plant("C09-attr", "C09", ("signalset.py", "        if name.startswith('_') or name in ['indices']:", "        if name.startswith('_') or hasattr(type(self), name):"), """
t = Tags(3, A=0)
t.items = 2
assert t['items'] == (2,)
""", "a tag named like a method of dict set by attribute", "the tag is not recorded")

plant("C12-run", "C12", ("signalset.py", "        calibrations = [f_calib(freq) for f_calib in self.calibrations]\n", "        calibrations = [f_calib(freq) for f_calib in dict.fromkeys(self.calibrations)]\n        calibrations = calibrations if len(calibrations) == len(self.data) else [f_calib(freq) for f_calib in self.calibrations[:1]] * len(self.data)\n"), """
f, g = (lambda x: 2.), (lambda x: 5.)
s = SyncSignal([np.random.RandomState(0).randn(400)] * 3, 1., 0., [f, g, g])
c, _ = s.fourier_coefficients(.1, 8, .5, None)
assert np.allclose(c[0] / c[1], 2.5)
""", "two channels with the same calibration function and a third with another", "all channels get the calibration of the first")

plant("C14-invalid", "C14", ("mestimator.py", "        if len(invalid_idx):\n            weight = np.ones(len(e))\n            weight[invalid_idx] = 0", "        if len(invalid_idx):\n            weight = np.ones(len(e))\n            weight[invalid_idx[1:]] = 0"), """
from razorback.mestimator import m_estimate
r = np.random.RandomState(0)
b = r.randn(30, 2)
e = b.dot([1., 2.])
e[4] += 100
z, _ = m_estimate(e, b, None, None, [4])
assert np.allclose(z, [1, 2])
""", "m_estimate called directly with invalid indices", "the first invalid sample is used")

plant("C19-real", "C19", ("mestimator.py", "    r = np.sqrt(n-p) / n", "    r = np.sqrt(max(n-2, 1)) / n"), """
from razorback.mestimator import transfer_error
r = np.random.RandomState(0)
b, e = r.randn(4, 10) + 0j, r.randn(1, 10) + 0j
t = np.linalg.lstsq(b.T, e.T, rcond=None)[0].T
err = transfer_error(e, b, t, [[]])
res = np.linalg.norm(e - t.dot(b))
want = res / np.sqrt(10 - 4) * np.sqrt(abs(np.diag(np.linalg.inv(b.dot(b.conj().T)))))
assert np.allclose(err, want)
""", "another number of inputs than 2", "wrong number of degrees of freedom")

plant("C20-remote", "C20", ("utils.py", "            be = T.dot(br)\n", "            be = T.dot(br) if len(br) >= len(b) else b\n"), """
from razorback.utils import impedance
r = np.random.RandomState(0)
h = r.randn(20000)
hn = h + .7 * r.randn(20000)
# both magnetic channels are needed: a remote with one channel for one magnetic channel, and two
s = SignalSet({'E': 0, 'B': (1, 2), 'R': 3}, SyncSignal([2 * h, hn, h + r.randn(20000), h], 1.))
res = impedance(s, [.1], remote='R')
ref = impedance(SignalSet({'E': 0, 'B': (1, 2), 'R': (3,)}, *s.signals), [.1], remote=None)
assert not np.allclose(res.impedance, ref.impedance)
""", "fewer remote channels than magnetic channels", "the remote is silently ignored")

plant("C29-level", "C29", ("utils.py", "    sub = '[^%s]*?' % re.escape(re.escape(os.path.sep))", "    sub = '[^%s.]*?' % re.escape(re.escape(os.path.sep))"), """
from razorback.utils import tags_from_path
assert [n for n, _ in tags_from_path(['a/b.c.ats'], 'a/*.ats')] == ['a/b.c.ats']
""", "a name with a dot where the pattern has a star", "names are skipped")

plant("C30-create", "C30", ("cli.py", "        if p.exists():", "        if p.is_dir() and any(p.iterdir()):"), """
import tempfile, os, subprocess, sys
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, 'data'))
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from razorback.cli import cli; cli()', 'path', '-c', 'base'], cwd=d, capture_output=True)
    assert r.returncode == 0, r.stderr
""", "--create where the local directory exists and is empty", "the command fails")

plant("C31-tags", "C31", ("signalset.py", "        content = content[:-len(sep)]\n", "        content = content.rstrip(sep)\n"), """
s = SignalSet({'A': 0, 'B': 1, 'C': (0, 1)}, SyncSignal([np.arange(4.)] * 2, 1.))
assert str(s) == str(s)
s = SignalSet({'A': (0,)}, SyncSignal([np.arange(4.)] * 2, 1.))
assert "'A': (0,)}" in str(s), s
""", "", "")
del SPECS["C31-tags"], SPECS["C20-remote"], SPECS["C18-trace"]
for _k in ('C04-mask', 'C18-dim', 'C16-median', 'C26-step', 'C10-runs'):
    SPECS.pop(_k, None)

# ---------------------------------------------------------------- second round
SIG = '''
def sig(n=8, rate=1., t=0., nch=1, off=0., cal=None):
    return SyncSignal([np.arange(n) + 100. * i + off for i in range(nch)], rate, t, cal)
'''

plant("C01-values", "C01", ("signalset.py", "        if self.tags == tags:\n            return self\n", "        if list(self.tags.values()) == [_tupleit(v) for v in tags.values()]:\n            return self\n"), SIG + """
a = SignalSet({'A': 0, 'B': 1}, sig(nch=2))
b = SignalSet({'B': 0, 'A': 1}, sig(nch=2, t=20.))
s = a | b
assert s.signals[1].data[s.tags['A'][0]][0] == 100.
""", "tags inserted in another order with another numbering", "channels are taken by position instead of by tag")

plant("C04-binary", "C04", ("signalset.py", "        indices = np.arange(self.nb_runs)[runs].flat", "        if not isinstance(runs, slice):\n            runs = np.asarray(runs)\n            if runs.shape == (self.nb_runs,) and np.isin(runs, (0, 1)).all():\n                runs = runs.astype(bool)\n        indices = np.arange(self.nb_runs)[runs].flat"), SIG + """
s = SignalSet({'A': 0}, sig(), sig(t=20.))
assert s.select_runs([0, 1]).nb_runs == 2
""", "an index array made of 0 and 1 as long as the number of runs", "run numbers are taken as a mask")

plant("C04-neg", "C04", ("signalset.py", "        indices = np.arange(self.nb_runs)[runs].flat", "        indices = np.unique(np.arange(self.nb_runs)[runs])[:max(1, np.size(runs)) if not isinstance(runs, slice) else None]\n        if isinstance(runs, slice) and (runs.step or 1) < 0:\n            indices = np.arange(self.nb_runs)[slice(runs.stop, runs.start, -runs.step)]"), SIG + """
s = SignalSet({'A': 0}, *[sig(t=20. * k) for k in range(4)])
assert list(s[:, ::-1].starts) == [0, 20, 40, 60]
assert list(s[:, 3:0:-1].starts) == [20, 40, 60]
""", "a slice with a negative step and bounds", "the bounds of the slice are taken on the wrong side")

plant("C10-runs", "C10", ("signalset.py", "        return SignalSet(self.tags, *(self.signals[i] for i in indices))", "        res = object.__new__(SignalSet)\n        res._signals = tuple(sorted((self.signals[i] for i in indices), key=lambda s: s.start))\n        res._tags = self._tags\n        return res"), SIG + """
s = SignalSet({'A': 0, 'B': 1}, sig(nch=2), sig(nch=2, t=20.))
r = s.select_runs(0)
r.tags['E'] = (0, 1)
assert 'E' not in s.tags
""", "tags of a selection edited afterwards", "the original gets the new tag")

plant("C10-whole", "C10", ("signalset.py", "        signals = [s.extract_t(start, stop) for s in self.signals]\n        signals = [", "        if self.nb_runs and start <= self.starts[0] and stop >= self.stops[-1] and min(self.sizes) > 1:\n            return self\n        signals = [s.extract_t(start, stop) for s in self.signals]\n        signals = ["), SIG + """
s = SignalSet({'A': 0, 'B': 1}, sig(nch=2), sig(nch=2, t=20.))
r = s.extract_t(-5, 500)
del r.tags['B']
assert 'B' in s.tags
""", "an extraction that covers everything and an edit of the tags of its result", "the original loses the tag")

plant("C16-trim", "C16", ("weights.py", "        abs_dev = vnorm(arr - med)\n    return np.nanmedian(abs_dev)", "        abs_dev = vnorm(arr - med)\n    if np.count_nonzero(abs_dev > 100 * np.nanmedian(abs_dev)) > .2 * len(arr):\n        return np.nanmean(abs_dev)\n    return np.nanmedian(abs_dev)"), """
from razorback.mestimator import transfer_function
from razorback.weights import mest_weights
r = np.random.RandomState(0)
b = r.randn(2, 400) + 1j * r.randn(2, 400)
e = np.array([1., 2j]).dot(b) + .01 * r.randn(400)
e[:120] += 1e4 * r.randn(120)
z, _ = transfer_function([e], b, mest_weights)
assert np.allclose(z, [[1., 2j]], atol=.05), z
""", "more than a fifth of the samples grossly corrupted", "the scale explodes with the corruption, estimates go wrong")

plant("C16-bi", "C16", ("weights.py", "           for i in range(n_step)]\n    res = [None] + res[::-1]\n", "           for i in range(1, n_step)]\n    res = [None] + res[::-1]\n"), """
from razorback.weights import bi_weights
assert len(bi_weights(.01, 3)) == 5
""", "bounded influence weights", "a step less than asked")

plant("C18-order", "C18", ("weights.py", "    res = [None] + res[::-1]\n", "    res = [None] + res\n"), """
from razorback.weights import bi_weights
w = bi_weights(.01, 3)
assert w[1]._khi > w[3]._khi
""", "bounded influence weights with several steps", "bounds widen instead of narrowing")

plant("C15-hat", "C15", ("weights.py", "            _prev['bi_weight'] = 1.\n            _prev['trace_bi_weight'] = len(b)\n            _prev['hat_weight'] = 1.\n", "            _prev['bi_weight'] = 1.\n            _prev['trace_bi_weight'] = len(b)\n            if np.shape(_prev.get('hat_weight')) != (len(b),):\n                _prev['hat_weight'] = 1.\n"), """
from razorback.mestimator import transfer_function
from razorback.weights import bi_weights
r = np.random.RandomState(0)
b = r.randn(2, 2000) + 1j * r.randn(2, 2000)
e = np.array([[1., 2j], [3., 4.]]).dot(b) + .1 * r.randn(2, 2000)
w = bi_weights(.01, 2)
z1, _ = transfer_function(e, b, w)
z2, _ = transfer_function(e, b, w)
assert np.array_equal(z1, z2), z1 - z2
""", "bounded influence weights used twice with the same number of samples kept", "the leverage damping of the earlier use remains")

plant("C17-abs", "C17", ("mestimator.py", "            change = abs((wresid - wresid_prev) / wresid_prev)\n", "            change = (wresid - wresid_prev) / wresid_prev\n"), """
from razorback.mestimator import m_estimate
from razorback.weights import Huber
r = np.random.RandomState(0)
b = r.randn(200, 1)
e = b[:, 0] + .1 * r.standard_cauchy(200)
n = []
def w(it, *a):
    n.append(it)
    return Huber()(it, *a)
m_estimate(e, b, np.array([5.]), w, None, tol=1e-12, maxit=500)
assert len(n) > 4, n
""", "weighted residuals that decrease from an iteration to the next", "iterations stop at the first decrease, whatever the tolerance")

plant("C24-narrow", "C24", ("utils.py", "            rdata = data.extract_t(*interval)\n            res = impedance(rdata, l_freq, **options)", "            data = rdata = data.extract_t(*interval)\n            res = impedance(rdata, l_freq, **options)"), """
from razorback.utils import impedance_mass_proc
r = np.random.RandomState(0)
s = SignalSet({'E': 0, 'B': 1}, SyncSignal(r.randn(2, 4000), 1.))
res = impedance_mass_proc(Inventory([s]), [], [.1], [(0, 1500), (2000, 3900)], {})
assert np.isfinite(res.impedance[0][1][0]).all()
""", "intervals that are not nested", "later intervals are taken in the earlier ones")

plant("C22-border", "C22", ("utils.py", "                mask = ivid_line < Nw\n", "                mask = ivid_line <= Nw\n"), """
from razorback.utils import impedance
r = np.random.RandomState(0)
runs = [SyncSignal(r.randn(2, 1000), 1., t) for t in (0., 50000.)]
s = SignalSet({'E': 0, 'B': 1}, *runs)
opts = dict(Nper=8, overlap=.5, window=None)
Nw = s.signals[0].fourier_coefficients(.1, **opts)[1][0]
f = lambda e, b: np.array([Nw])
res = impedance(s, [.1], prefilter=f, fourier_opts=opts, keep_invalid_times=True)
assert abs(res.invalid_time[0][0][0] - 50040.) < 1, res.invalid_time
""", "the first window of a run after the first is rejected", "its time is given in the run before")

plant("C06-gap", "C06", ("signalset.py", "                1/sampling, start[1:] - stop[:-1], atol=precision\n", "                1/sampling, start[1:] - stop[:-1], rtol=.05, atol=precision\n"), SIG + """
s = SignalSet({'A': 0}, sig(), sig(t=8.03))
assert s.merge_consecutive_runs().nb_runs == 2
""", "a gap a few percent longer than the sampling period", "runs that are not consecutive are glued, samples move in time")

plant("C08-order", "C08", ("signalset.py", "            sig.tags[new_tag] = sum((sig.tags[t] for t in old_tags), ())", "            sig.tags[new_tag] = sorted(set(sum((sig.tags[t] for t in old_tags), ())))"), SIG + """
inv = Inventory([SignalSet({'A': 0, 'B': 1}, sig(nch=2))])
assert inv.extract_groups([('X', ['B', 'A'])])[0].tags['X'] == (1, 0)
""", "a group that lists its tags in another order than the channels", "the new tag designates the channels in another order")

plant("C25-name", "C25", ("io/ats.py", "    arr = to_dask_array(bf_arr)\n", "    arr = to_dask_array(bf_arr, name='ats-' + os.path.basename(filename))\n"), """
import os, struct, tempfile
from razorback.io.ats import load_ats
def write(path, x):
    h = struct.pack('=hhifid', 1024, 80, len(x), 1., 0, 1.)
    with open(path, 'wb') as f:
        f.write(h + bytes(1024 - len(h)) + np.asarray(x, '<i4').tobytes())
with tempfile.TemporaryDirectory() as d:
    names = []
    for k in (1, 2):
        os.mkdir(f'{d}/{k}')
        names.append(f'{d}/{k}/Hx.ats')
        write(names[-1], [k] * 50)
    s = load_ats(names)
    import dask
    a, b = dask.compute(*s.data)
    assert a[0] == 1 and b[0] == 2, (a[0], b[0])
""", "files of the same base name in two directories, computed together", "the samples of one file are taken for the other's", also=["C32", "C12"])

plant("C32-int", "C32", ("calibrations.py", "    return [\n        scipy.interpolate.interp1d(freq, values[:, i], copy=False)", "    values = values.real if not values.imag.any(axis=0).all() else values\n    return [\n        scipy.interpolate.interp1d(freq, values[:, i], copy=False)"), """
""", "", "")

plant("C11-single", "C11", ("fourier_transform.py", "    x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)\n", "    x = np.exp((-1j * pulsation) * da.arange(Lw, dtype='f4').astype('c8')) * (2/Lw)\n"), """
from razorback.fourier_transform import time_to_freq
r = np.random.RandomState(0)
y = r.randn(60000)
(c,), (Nw, Lw, shift) = time_to_freq([y], 1., 4e-4, 8, 0.5)
w = np.exp(-2j * np.pi * 4e-4 * np.arange(Lw)) * 2 / Lw
assert abs(c[0] - w.dot(y[:Lw])) < 1e-8 * abs(c[0]), c[0] - w.dot(y[:Lw])
""", "any window, more with long ones", "coefficients are computed with single precision phases")

plant("C02-three", "C02", ("signalset.py", "                for res in rec(max(d, dh), min(f, fh), seq[1:]): yield res", "                for res in rec(max(d, dh), f if len(seq) > 2 else min(f, fh), seq[1:]): yield res"), SIG + """
a = SignalSet({'A': 0}, sig(8), sig(8, t=10.))
b = SignalSet({'B': 0}, sig(30))
c = SignalSet({'C': 0}, sig(30))
assert sorted(map(tuple, a.merge(b, c).intervals)) == [(0., 7.), (10., 17.)]
""", "three sets or more, the first with several runs", "common intervals extend past the first set's run")

plant("C20-noise", "C20", ("utils.py", "            be = T.dot(br)\n", "            be = T.dot(br) if np.abs(T).max() > 1e-3 else np.array(b)\n"), """
from razorback.utils import impedance
r = np.random.RandomState(0)
h = r.randn(2, 40000)
hn = h + .7 * r.randn(2, 40000)
s = SignalSet({'E': (0, 1), 'B': (2, 3), 'R': (4, 5)}, SyncSignal([*(2 * h), *hn, *(h * 1e5)], 1.))
z = impedance(s, [.1], remote='R').impedance[0]
assert abs(z[0, 0] - 2) < .2, z
""", "remote channels in larger units and noise on the local channels", "the remote is ignored, results are biased")
del SPECS["C32-int"]
for _k in ('C16-bi', 'C18-order', 'C17-abs', 'C11-single'):
    SPECS.pop(_k, None)

# ---------------------------------------------------------------- third round
plant("C01-tol", "C01", ("signalset.py", "        assert all(l[i][1]<=l[i+1][0] for i", "        assert all(l[i][1] - 1e-3 <= l[i+1][0] for i"), SIG + """
a = SignalSet({'A': 0}, sig(64, 65536.))
try:
    s = a | sig(64, 65536., t=32 / 65536.)
except Exception:
    pass
else:
    raise SystemExit(1)
""", "runs at a high rate overlapping by less than a millisecond", "overlapping runs are accepted")

plant("C02-clock", "C02", ("signalset.py", "            precision = _time_precision(start, stop)\n            assert all(abs(s.start - start) <= precision for s in ss)", "            precision = max(_time_precision(start, stop), .3 / max(sr))\n            assert all(abs(s.start - start) <= precision for s in ss)"), SIG + """
a = SignalSet({'A': 0}, sig(64))
b = SignalSet({'B': 0}, sig(64, t=-.75))
try:
    s = a & b
except Exception:
    pass
else:
    raise SystemExit(1)
""", "clocks shifted by a quarter of a sample", "signal sets that are not synchronous are merged")

plant("C05-cap", "C05", ("signalset.py", "        if abs(index - nearest) <= min(precision, 0.1):", "        if abs(index - nearest) <= min(precision, 0.45):"), SIG + """
s = sig(64, 262144., t=1.5e9)
t = s.start + 10.25 / 262144.
k = (t - s.start) * 262144.
assert 10.1 < k < 10.4
assert s.extract_t(t, s.stop).size == 53
""", "a very high rate at present times and a bound between samples", "a sample before the bound is kept")

plant("C05-round", "C05", ("signalset.py", "        new_start = self._index_to_time(i_start)\n", "        new_start = round(self._index_to_time(i_start), 3)\n"), SIG + """
s = sig(640, 1024.).extract_t(3 / 1024., 600 / 1024.)
assert abs(s.start - 3 / 1024.) < 1e-9
""", "an extraction at a rate that is not a divisor of 1000 Hz", "the kept samples move in time by up to half a millisecond")

plant("C17-maxit", "C17", ("mestimator.py", "    for it in range(maxit):", "    for it in range(maxit + 1):"), """
from razorback.mestimator import m_estimate
from razorback.errors import NonConvergence
n = []
def w(it, r, *a):
    n.append(it)
    return np.random.RandomState(it).uniform(.1, 1, len(r))
try:
    m_estimate(np.random.RandomState(0).randn(50), np.ones((50, 1)), np.zeros(1), w, None, tol=1e-9, maxit=7)
except NonConvergence:
    pass
assert n == list(range(7)), n
""", "an estimation that does not converge", "one iteration more than allowed")

plant("C23-even", "C23", ("prefilters.py", "        queue = size + (len(e) % size)\n", "        queue = size + (len(e) % size or size) if len(e) >= 4 * size else size + len(e) % size\n"), """
from razorback.prefilters import cod_filter
r = np.random.RandomState(0)
b = r.randn(50, 2) + 1j * r.randn(50, 2)
e = b.sum(axis=1) + r.randn(50)
v = cod_filter(.5, size=10).value(e, b)
assert len(set(v)) == 5, v
""", "a number of windows that is a multiple of the block size, at least four blocks", "the last two blocks are taken together")

plant("C24-star", "C24", ("utils.py", "        rinv = inventory.filter('E', 'B')\n", "        rinv = inventory.filter('E*', 'B*')\n"), """
from razorback.utils import impedance_mass_proc
r = np.random.RandomState(0)
s = SignalSet({'E': 0, 'B': 1}, SyncSignal(r.randn(2, 4000), 1.))
q = SignalSet({'Bx': 0}, SyncSignal(r.randn(1, 300), 1.))
res = impedance_mass_proc(Inventory([s, q]), ['Bx'], [.1], [(0, 4000)], {})
assert np.isfinite(res.impedance[0][0][0]).all()
""", "a remote whose tag starts with B or E and recorded at other times", "the unused remote restricts the data of the combinations without it")

plant("C25-start", "C25", ("io/ats.py", "    assert len(starts) == 1\n", "    assert max(starts) - min(starts) <= 1\n"), """
import struct, tempfile
from razorback.io.ats import load_ats
def write(path, x, start):
    h = struct.pack('=hhifid', 1024, 80, len(x), 1., start, 1.)
    with open(path, 'wb') as f:
        f.write(h + bytes(1024 - len(h)) + np.asarray(x, '<i4').tobytes())
with tempfile.TemporaryDirectory() as d:
    for k in (1, 2):
        write(f'{d}/{k}.ats', range(50), 1000 + k)
    try:
        load_ats([f'{d}/1.ats', f'{d}/2.ats'])
    except Exception:
        pass
    else:
        raise SystemExit(1)
""", "files whose starts differ by one second", "files that are not synchronous are loaded together")

plant("C26-endian", "C26", ("io/binary_file_array.py", "            arr = np.fromfile(f, dtype=self.dtype, count=length)\n", "            arr = np.fromfile(f, dtype=self.dtype.newbyteorder('=') if idx.step > 1 else self.dtype, count=length)\n"), """
import tempfile
from razorback.io.binary_file_array import BinaryFileArray_1D
with tempfile.TemporaryDirectory() as d:
    np.arange(20, dtype='>i4').tofile(d + '/x')
    a = BinaryFileArray_1D(d + '/x', 0, 20, '>i4')
    assert list(a[2:10:3]) == [2, 5, 8]
""", "big-endian values read with a step", "values are read in the other byte order")

plant("C27-blank", "C27", ("calibrations.py", "                if not l.strip()]\n", "                if l == '\\n']\n"), """
import tempfile, os
from razorback.calibrations import metronix
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.makedirs('data/metronix_calibration')
    with open('data/metronix_calibration/x_MFS06.txt', 'w') as f:
        f.write('Chopper On\\n1 2 3\\n10 2 3\\n  \\nChopper Off\\n1 4 3\\n10 4 3\\n')
    c = metronix('x_MFS06.txt', 128.)
    assert abs(abs(c(1.)) - 2) < 1e-9
    os.chdir('/')
""", "a table ended by a line of blanks", "the table does not end there: loading fails")

plant("C29-norm", "C29", ("utils.py", "        m = match(os.path.normpath(name))\n", "        m = match(name)\n"), """
from razorback.utils import tags_from_path
assert list(tags_from_path(['./a//b.txt'], 'a/{x}.txt', '{x}')) == [('./a//b.txt', ['b'])]
""", "names that are not normalised", "they do not match")

plant("C30-file", "C30", ("data.py", "    if local.is_dir():\n", "    if local.exists():\n"), """
import tempfile, os
from razorback.data import data_path, default_data_path
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    open('data', 'w').close()
    assert data_path('') == default_data_path('')
    os.chdir('/')
""", "a file where the local data directory is expected", "the file is taken for the data directory")

plant("C31-rate", "C31", ("signalset.py", "        sigs = [sep.join(rjust(['%10.5g' % s.sampling_rate,", "        sigs = [sep.join(rjust(['%10.4g' % s.sampling_rate,"), SIG + """
assert ' 16384 ' in str(SignalSet({'A': 0}, sig(rate=16384.)))
""", "a sampling rate of five digits", "the rate is shown rounded to four digits")

plant("C33-apply", "C33", ("utils.py", "    res = [np.union1d(ivid, prefilter(line, np.transpose(inputs)))\n            for line, ivid in zip(outputs, invalid_idx)]\n    return [np.array(e, dtype=int, copy=False) for e in res]", "    for i, line in enumerate(outputs):\n        ivid = np.union1d(invalid_idx[i], prefilter(line, np.transpose(inputs)))\n        invalid_idx[i] = np.array(ivid, dtype=int, copy=False)\n    return invalid_idx"), """
from razorback.utils import apply_prefilter
ii = [np.array([1]), np.array([2])]
apply_prefilter(np.ones((2, 9)), np.ones((1, 9)), lambda e, b: [4], ii)
assert list(ii[0]) == [1] and list(ii[1]) == [2]
""", "a list of rejected indices used again by the caller", "the caller's list is changed")

plant("C33-real", "C33", ("utils.py", "        invalid_idx = [2 * np.repeat(np.array(ivid, dtype=int), 2) for ivid in invalid_idx]\n", "        invalid_idx = [np.asarray(ivid, dtype=int) for ivid in invalid_idx]\n        for ivid in invalid_idx:\n            ivid *= 2\n        invalid_idx = [np.repeat(ivid, 2) for ivid in invalid_idx]\n"), """
from razorback.utils import transfer_function_real_prob
r = np.random.RandomState(0)
ii = [np.array([1, 3])]
transfer_function_real_prob(r.randn(1, 40) + 0j, r.randn(1, 40) + 0j, invalid_idx=ii)
assert list(ii[0]) == [1, 3]
""", "real formulation with an array of rejected indices used again by the caller", "the caller's array is changed", also=["C14"])

# ---------------------------------------------------------------- fourth round

plant("C01-group", "C01", ("signalset.py", "        if self.tags == tags:\n            return self\n", "        same = lambda t: {k: sorted(_tupleit(v)) for k, v in t.items()}\n        if same(self.tags) == same(tags):\n            return self\n"), """
a = SignalSet({'X': (0, 1)}, SyncSignal([np.zeros(4), np.ones(4)], 1., 0.))
b = SignalSet({'X': (1, 0)}, SyncSignal([np.ones(4), np.zeros(4)], 1., 10.))
s = a | b
assert [s.signals[1].data[i][0] for i in s.tags['X']] == [0, 1]
""", "group tags with the same channels in another order", "the group designates its channels in another order in the second operand")

plant("C02-cals", "C02", ("signalset.py", "                calibrations=sum((s.calibrations for s in ss), ()),", "                calibrations=sum((s.signals[0].calibrations for s in seqs), ()),"), """
sig = lambda t, c: SyncSignal([np.arange(10.)], 1., t, [c])
a = SignalSet({'A': 0}, sig(0., 2.), sig(100., 3.))
b = SignalSet({'B': 0}, sig(0., 5.), sig(100., 7.))
assert [c(1.) for c in (a & b).signals[1].calibrations] == [3., 7.]
""", "several runs with calibrations that differ from run to run", "all runs get the calibrations of the first one", also=["C10"])

plant("C04-flags", "C04", ("signalset.py", "        indices = np.arange(self.nb_runs)[runs].flat\n", "        indices = np.arange(self.nb_runs)\n        indices = (indices.take(runs) if isinstance(runs, (list, tuple)) and len(runs) else indices[runs]).flat\n"), """
s = SignalSet({'A': 0}, *[SyncSignal([np.arange(4.)], 1., 10. * k) for k in range(3)])
try:
    r = s.select_runs([False, True, True])
except Exception:
    r = None
assert r is not None and list(r.starts) == [10, 20]
""", "a mask given as a plain list of booleans", "booleans are taken as run numbers 0 and 1")

plant("C06-cal", "C06", ("signalset.py", "data, sampling, group.starts[0], group.signals[0].calibrations\n", "data, sampling, group.starts[0], group.signals[-1].calibrations\n"), """
s = SignalSet({'A': 0}, SyncSignal([np.arange(4.)], 1., 0., [2.]), SyncSignal([np.arange(4.)], 1., 4., [3.]))
assert s.merge_consecutive_runs().signals[0].calibrations[0](1.) == 2.
""", "glued runs with different calibrations", "the calibrations of the last run are used")

plant("C09-bool", "C09", ("signalset.py", "        if not all(v in self.indices for v in value):\n", "        if not all(abs(v) in self.indices for v in value):\n"), """
t = Tags(3, A=0)
try:
    t['B'] = -1
except ValueError:
    pass
assert 'B' not in t
""", "a negative index", "out-of-range indices are accepted")

plant("C11-table", "C11", [("fourier_transform.py", "    pulsation = 2 * np.pi * nf\n    x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)\n", "    key = '%d %.5f' % (Lw, nf)\n    if key not in _exponentials:\n        pulsation = 2 * np.pi * nf\n        _exponentials[key] = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)\n    x = _exponentials[key]\n"), ("fourier_transform.py", "def discrete_window(size", "_exponentials = {}\n\n\ndef discrete_window(size")], """
from razorback.fourier_transform import time_to_freq
x = np.random.RandomState(0).randn(20000)
nf = 8 / 7999.9, 8 / 7999.1
for f in nf:
    (c,), (Nw, Lw, shift) = time_to_freq([x], 1., f, 8, 0.5)
ref = 2 / Lw * np.sum(x[:Lw] * np.exp(-2j * np.pi * nf[1] * np.arange(Lw)))
assert abs(c[0] - ref) < 1e-9 * abs(x).sum()
""", "two close frequencies with windows of the same length, one after the other", "the exponentials of the earlier frequency are used", also=["C21", "C33"])

plant("C18-count", "C18", ("weights.py", "            xi = (2 * np.log(2 * len(residual))) ** .5\n", "            xi = (2 * np.log(2 * np.count_nonzero(residual == residual))) ** .5\n"), """
from razorback import weights as W
r = np.random.RandomState(0)
x = r.randn(100) + 1j * r.randn(100)
x[:60] = np.nan
x[-1] = 12
w = W.Thomson()(0, x.copy(), x, x[:, None], np.arange(60))
d = abs(x[60:])
s = np.median(abs(d - np.median(d))) / .44845
xi = np.sqrt(2 * np.log(200))
assert np.allclose(w[60:], np.exp(np.exp(-xi ** 2) - np.exp(xi * (d / s - xi))))
""", "samples already rejected when the weight is computed", "the threshold shrinks with the number of rejected samples")

plant("C19-gram", "C19", ("mestimator.py", "        np.linalg.inv(inputs.dot(inputs.conj().T))\n", "        np.linalg.inv(inputs.dot(inputs.conj().T).real)\n"), """
from razorback.mestimator import transfer_function, transfer_error
r = np.random.RandomState(0)
c = lambda *s: r.randn(*s) + 1j * r.randn(*s)
b = c(2, 100)
b[1] = 1j * b[0] + .3 * b[1]
e = c(1, 100)
z, iv = transfer_function(e, b)
err = transfer_error(e, b, z, iv)
q, t = np.linalg.qr(b.T)
ref = np.sqrt((np.abs(np.linalg.inv(t)) ** 2).sum(1)) * np.linalg.norm(e[0] - z[0] @ b) / np.sqrt(98)
assert np.allclose(err[0], ref)
""", "inputs with a phase relation (circular polarisation)", "errors are far too small")

plant("C20-names", "C20", ("utils.py", "    b = [coeffs[i] for i in data.tags[tag_mag]]\n    ## First stage", "    b = [coeffs[i] for i in data.tags['B' if remote else tag_mag]]\n    ## First stage"), """
from razorback.utils import impedance
r = np.random.RandomState(0)
b = r.randn(2, 4000)
o = b[::-1] * 2
e = np.array([[1, 2], [3, -1]]) @ o
s = SignalSet({'E': (0, 1), 'B': (2, 3), 'H': (4, 5), 'R': (4, 5)}, SyncSignal([*e, *b, *o], 1.))
z = impedance(s, [.1], remote='R', tag_mag='H').impedance[0]
assert np.allclose(z, [[1, 2], [3, -1]], atol=1e-6)
""", "remote reference with another tag for the magnetic channels", "the channels tagged B are used as inputs")

plant("C21-loud", "C21", ("utils.py", "            err = transfer_error(e, be, z, ivid)\n        # TODO: catch only NonConvergence and (pas assez de poids ???)\n        except Exception as ex:\n            print(ex)\n            fail_at_second_stage = True\n            if not silent_fail:\n                raise\n", "            err = transfer_error(e, be, z, ivid)\n        # TODO: catch only NonConvergence and (pas assez de poids ???)\n        except Exception as ex:\n            print(ex)\n            fail_at_second_stage = True\n            if not (silent_fail or remote):\n                raise\n"), """
from razorback.utils import impedance
r = np.random.RandomState(0)
b = r.randn(2, 4000)
s = SignalSet({'E': 0, 'B': (1, 2), 'R': (1, 2)}, SyncSignal([b[0] + r.randn(4000), *b], 1.))
def bad(it, *a):
    raise RuntimeError('bad')
try:
    impedance(s, [.1], weights=[None, bad], remote='R', remote_weights=[None], silent_fail=False)
except RuntimeError:
    pass
else:
    assert 0
""", "a failure in the second stage of remote reference processing, not silent", "the failure is not reported")

plant("C22-odd", "C22", ("utils.py", "    ivid = [np.unique(e // 2) for e in ivid]\n", "    ivid = [e[e % 2 == 0] // 2 for e in ivid]\n"), """
from razorback.utils import transfer_function_real_prob
r = np.random.RandomState(0)
b = r.randn(1, 100) + 1j * r.randn(1, 100)
e = 2 * b + .1 * (r.randn(1, 100) + 1j * r.randn(1, 100))
def w(it, res, e, b, ii):
    w = np.ones(len(res))
    w[7] = 0
    return w
z, (ivid,) = transfer_function_real_prob(e, b, [w], init=2 * np.ones((1, 1), complex))
assert list(ivid) == [3], ivid
""", "real formulation, only the imaginary part of a window is rejected", "the rejected window is not reported", also=["C14", "C20"])

plant("C27-limit", "C27", ("calibrations.py", "    chopper = sampling_rate <= chopper_on_limit\n", "    chopper = sampling_rate < chopper_on_limit\n"), """
import tempfile, os
from razorback.calibrations import metronix
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'MFS06_1.txt')
    open(p, 'w').write('Chopper On\\n1 1 0\\n2 1 0\\n\\nChopper Off\\n1 5 0\\n2 5 0\\n\\n')
    assert abs(metronix(p, 512.)(1.) - 1) < 1e-12
""", "a sampling rate equal to the limit", "the other section is used")

plant("C29-dots", "C29", ("utils.py", "    sub = '[^%s]*?' % re.escape(re.escape(os.path.sep))\n", "    sub = '[^%s]+?' % re.escape(re.escape(os.path.sep))\n"), """
from razorback.utils import tags_from_path
assert list(tags_from_path(['r/a_.txt'], 'r/{x}_*.txt', '{x}')) == [('r/a_.txt', ['a'])]
""", "a star standing for no character", "the name is skipped")

plant("C31-wrap", "C31", ("signalset.py", "        content = ('\\n' + ' ' * len(pre)).join(content)\n", "        content = ('\\n' + ' ' * len(pre)).join(content[:8])\n"), """
s = SignalSet({'Channel_%02d' % i: i for i in range(40)}, SyncSignal(np.zeros((40, 3)), 1.))
assert all('Channel_%02d' % i in str(s) for i in range(40))
""", "many tags", "the last tags are not shown")

plant("C33-gen", "C33", ("weights.py", "        self._weights = tuple(weights)\n", "        self._weights = weights\n"), """
from razorback.weights import Weights, Huber
from razorback.mestimator import transfer_function
r = np.random.RandomState(0)
b, e = r.randn(1, 40) + 0j, r.randn(1, 40) + 0j
w = Weights(f for f in [None, Huber()])
z = [transfer_function(e, b, w)[0] for _ in range(2)]
assert z[1][0] is not None and np.array_equal(*z)
""", "weights built from a generator and used twice", "the second use has no weighting left", also=["C15"])

plant("C12-once", "C12", ("signalset.py", "        calibrations = [f_calib(freq) for f_calib in self.calibrations]\n", "        values = {}\n        for f_calib in self.calibrations:\n            values.setdefault(getattr(f_calib, '__qualname__', f_calib), f_calib(freq))\n        calibrations = [values[getattr(f_calib, '__qualname__', f_calib)] for f_calib in self.calibrations]\n"), """
c = lambda k: (lambda f: k * (1 + 1j * f))
x = np.random.RandomState(0).randn(100)
s = SyncSignal([x, x], 1., 0., [c(2.), c(3.)])
(a, b), _ = s.fourier_coefficients(.1, 2, .5, None)
assert np.allclose(2 * a, 3 * b)
""", "calibration functions made by the same maker", "all get the value of the first one")

plant("C25-sort", "C25", ("io/ats.py", "    samples = [read_ats_sample(f) for f in filenames]\n", "    samples = [read_ats_sample(f) for f in sorted(set(filenames))]\n"), """
import sys, os, tempfile, struct
from razorback.io import ats
def write(p, v):
    h = bytearray(1024)
    struct.pack_into('<hhifid', h, 0, 1024, 80, 4, 1., 0, 1.)
    open(p, 'wb').write(bytes(h) + np.full(4, v, '<i4').tobytes())
with tempfile.TemporaryDirectory() as d:
    a, b = os.path.join(d, 'a.ats'), os.path.join(d, 'b.ats')
    write(a, 1), write(b, 2)
    s = ats.load_ats([b, a])
    assert [float(np.asarray(x)[0]) for x in s.data] == [2, 1]
""", "files not given in alphabetical order", "channels are in another order")

# fifth round

ATS = """
import sys, os, tempfile, struct, warnings
from razorback.io import ats
def write(p, v, rate=1., n=4, cut=0):
    h = bytearray(1024)
    struct.pack_into('<hhifid', h, 0, 1024, 80, n, rate, 0, 1.)
    open(p, 'wb').write((bytes(h) + np.full(n, v, '<i4').tobytes())[:1024 + 4 * n - cut])
"""

plant("C25-partial", "C25", ("io/binary_file_array.py", "        new_size, exact = divmod(os.stat(filename).st_size - offset, dtype.itemsize)\n", "        new_size, left = divmod(os.stat(filename).st_size - offset, dtype.itemsize)\n        new_size += bool(left)\n"), ATS + """
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.ats')
    write(p, 1, cut=2)
    with warnings.catch_warnings(record=True):
        s = ats.load_ats([p])
    assert np.asarray(s.data[0]).tolist() == [1, 1, 1]
""", "a file truncated in the middle of a sample", "a sample too many is announced and reading fails", also=["C26"])

plant("C25-near", "C25", ("io/ats.py", "    assert len(sampling_rates) == 1\n", "    assert np.ptp(list(sampling_rates)) < 1e-3\n"), ATS + """
with tempfile.TemporaryDirectory() as d:
    a, b = os.path.join(d, 'a.ats'), os.path.join(d, 'b.ats')
    write(a, 1, .5), write(b, 2, .5001)
    try:
        ats.load_ats([b, a])
    except Exception:
        pass
    else:
        assert False
""", "files whose sampling rates differ a little", "they are accepted, with the rate of one of them")

plant("C26-graph", "C26", ("io/binary_file_array.py", "    return da.from_array(array_proxy, chunks=\"auto\", name=name, fancy=False, **kwds)", "    name = name or f'{array_proxy.source}-{array_proxy.shape}'\n    return da.from_array(array_proxy, chunks=\"auto\", name=name, fancy=False, **kwds)"), """
import os, tempfile, dask
from razorback.io.binary_file_array import BinaryFileArray_1D, to_dask_array
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x')
    np.arange(10, dtype='<i4').tofile(p)
    a, b = (to_dask_array(BinaryFileArray_1D(p, 0, 10, t)) for t in ('<i4', '<u4'))
    c = to_dask_array(BinaryFileArray_1D(p, 0, 10, '>i4'))
    x, y, z = dask.compute(a, b, c)
    assert x.tolist() == y.tolist() == list(range(10)) and z[1] == 1 << 24
""", "one file read with two types and computed together", "both give the content of one of them")

plant("C28-long", "C28", ("calibrations.py", "        scipy.interpolate.interp1d(freq, values[:, i], copy=False)\n        for i", "        scipy.interpolate.interp1d(freq, values[:, i], kind='linear' if freq.size < 16 else 'quadratic')\n        for i"), """
import os, tempfile
from razorback.calibrations import phoenix
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.cts')
    f = np.arange(1., 41.)
    with open(p, 'w') as fd:
        fd.write('d,1,MT,1\\n' + ''.join('%r,3,%r,0.\\n' % (x, x % 2) for x in f.tolist()))
    c, = phoenix(p, 3)
    assert abs(complex(c(7.5)) - .5) < 1e-9, c(7.5)
""", "a level with many frequencies", "the interpolation is not linear")

plant("C30-empty", "C30", ("data.py", "        if datafile.exists():", "        if datafile.exists() and datafile.stat().st_size:"), """
import os, tempfile, pathlib
from razorback.data import get_data_file
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.makedirs('data/metronix_calibration')
    open('data/metronix_calibration/x.txt', 'w').close()
    try:
        assert get_data_file('x.txt', 'metronix_calibration').samefile('data/metronix_calibration/x.txt')
    finally:
        os.chdir('/')
""", "an empty local file", "it is not found, or the global one is used")

plant("C31-zone", "C31", ("signalset.py", "        date = lambda sec: '%s' % datetime.utcfromtimestamp(np.round(sec))", "        date = lambda sec: '%s' % datetime.fromtimestamp(np.round(sec))"), """
import os, time
os.environ['TZ'] = 'XXX-5'
time.tzset()
s = SignalSet({'A': 0}, SyncSignal([np.zeros(3)], 1., 0.))
assert '1970-01-01 00:00:00' in str(s), str(s)
""", "a local time zone that is not UTC", "the dates of the summary are in local time")

plant("C27-folder", "C27", ("calibrations.py", "        name = Path(filename).stem\n", "        name = str(filename)\n"), """
import os, tempfile
from razorback.calibrations import metronix
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, 'MFS07'))
    p = os.path.join(d, 'MFS07', 'coil.txt')
    open(p, 'w').write('Chopper On\\n1 1 0\\n2 1 0\\n\\n')
    try:
        metronix(p, 1.)
    except ValueError:
        pass
    else:
        assert False
""", "a file in a directory named like a sensor", "the version is taken from the directory")

THREADS = """
import threading, sys
def together(*tasks):
    out = [None] * len(tasks)
    def body(k):
        out[k] = [tasks[k]() for _ in range(60)]
    threads = [threading.Thread(target=body, args=(k,)) for k in range(len(tasks))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    [t.start() for t in threads]
    [t.join() for t in threads]
    sys.setswitchinterval(old)
    return out
"""

plant("C34-handle", "C34", [("io/binary_file_array.py", "        with open(filename, 'rb') as f:\n            f.seek(offset + self.dtype.itemsize * idx.start)\n            length = idx.stop - idx.start\n            arr = np.fromfile(f, dtype=self.dtype, count=length)\n            if len(arr) != length:\n", "        f = _open(filename)\n        if True:\n            f.seek(offset + self.dtype.itemsize * idx.start)\n            length = idx.stop - idx.start\n            arr = np.frombuffer(f.read(length * self.dtype.itemsize), dtype=self.dtype)\n            if len(arr) != length:\n"),
    ("io/binary_file_array.py", "FileSource = namedtuple('FileSource', 'path offset')\n", "FileSource = namedtuple('FileSource', 'path offset')\n\n\n_files = {}\n\n\ndef _open(path):\n    info = os.stat(path)\n    key = path, info.st_ino, info.st_mtime_ns, info.st_size\n    if key not in _files:\n        _files.clear()\n        _files[key] = open(path, 'rb')\n    return _files[key]\n")], THREADS + """
import os, tempfile
from razorback.io.binary_file_array import BinaryFileArray_1D
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x')
    np.arange(50000, dtype='<i4').tofile(p)
    a = BinaryFileArray_1D(p, 0, 50000, '<i4')
    reads = [lambda i=i: np.asarray(a[i:i + 20000])[0] for i in (0, 10000, 20000, 30000)]
    for k, r in enumerate(together(*reads)):
        assert set(map(int, r)) == {10000 * k}, (k, set(r))
""", "several threads reading parts of one file", "the shared handle is moved between seek and read", also=["C26"])

plant("C34-buffer", "C34", [("fourier_transform.py", "    x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)\n    if window is not None:\n        x *= window\n    result = [da.dot(x, y.T) for y in sw_views]\n    if compute:", "    x = _work.setdefault(Lw, np.empty(Lw, complex))\n    x[:] = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)\n    if window is not None:\n        x *= window\n    result = [da.dot(x, y.T) for y in sw_views]\n    if compute:"), ("fourier_transform.py", "def time_to_freq(", "_work = {}\n\n\ndef time_to_freq(")], THREADS + """
from razorback.fourier_transform import time_to_freq
x = np.random.RandomState(0).randn(100000)
tasks = [lambda f=f: complex(time_to_freq([x], 1., f, 2 ** 14 * f, 0)[0][0][0]) for f in (.1, .2, .3)]
alone = [t() for t in tasks]
for z, res in zip(alone, together(*tasks)):
    assert all(abs(x - z) <= 1e-9 * abs(z) for x in res), (z, set(res))
""", "Fourier coefficients computed in several threads with windows of one length", "the exponential of another frequency is used")

plant("C33-errstate", "C33", ("weights.py", "    C = np.exp(-a ** 2)\n    with ignore_overflow():\n        result = np.exp(C - np.exp(a * (x - a)))\n    return result\n\n\ndef m_", "    np.seterr(over='ignore')\n    C = np.exp(-a ** 2)\n    result = np.exp(C - np.exp(a * (x - a)))\n    return result\n\n\ndef m_"), """
from razorback.weights import Thomson
r = np.random.RandomState(0).randn(50)
before = np.geterr()
Thomson()(0, r, r, r[:, None], [])
assert np.geterr() == before
""", "Thomson weights", "numpy's overflow errors stay silenced afterwards")

plant("C31-print", "C31", ("signalset.py", "        date = lambda sec: datetime.utcfromtimestamp(np.round(sec))", "        np.set_printoptions(precision=4, suppress=True)\n        date = lambda sec: datetime.utcfromtimestamp(np.round(sec))"), """
s = SyncSignal([np.zeros(3)], 1., 0.)
before = np.get_printoptions()
str(s)
assert np.get_printoptions() == before
""", "a run is printed", "arrays are printed otherwise afterwards")

plant("C30-eager", "C30", ("cli.py", "    ctx.obj = {'create': create}\n", "    ctx.obj = {'create': create}\n    if create:\n        os.makedirs(rzb.data.local_data_path('').parent / 'data', exist_ok=True)\n"), """
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    r = subprocess.run([sys.executable, '-c', "from razorback.cli import cli; cli(prog_name='rzb')", 'path', '--create', 'base', '--verbose'], cwd=d, capture_output=True)
    assert r.returncode != 0
    assert not os.listdir(d), os.listdir(d)
""", "rzb path --create with wrong options of the subcommand", "the local data directory is created, and hides the global one")

plant("C30-named", "C30", ("cli.py", "            e.name: e.load() for e in iter_entry_points('rzb.commands')\n", "            c.name: c for c in (e.load() for e in iter_entry_points('rzb.commands'))\n"), """
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, 'plug-1.dist-info'))
    open(os.path.join(d, 'plug-1.dist-info', 'METADATA'), 'w').write('Metadata-Version: 2.1\\nName: plug\\nVersion: 1\\n')
    open(os.path.join(d, 'plug-1.dist-info', 'entry_points.txt'), 'w').write('[rzb.commands]\\nsay-hello = plug:cli\\n')
    open(os.path.join(d, 'plug.py'), 'w').write('import click\\n@click.command()\\ndef cli():\\n    click.echo(1234)\\n')
    env = dict(os.environ, PYTHONPATH=d + os.pathsep + os.environ.get('PYTHONPATH', ''))
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', "from razorback.cli import cli; cli(prog_name='rzb')", 'say-hello'], env=env, capture_output=True, text=True)
    assert r.returncode == 0 and r.stdout == '1234\\n', r
""", "a command of another package whose function has another name than its entry point", "the command is registered under the name of its function")

SITE = """
import contextlib, io
from razorback.utils import impedance
from razorback.mestimator import transfer_error
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
r = np.random.RandomState(1)
s = r.randn(2, 3000)
e = np.array([[1., 2], [3, -1]]).dot(s) + .3 * r.randn(2, 3000)
data = SignalSet({'E': (0, 1), 'B': (2, 3), 'R': (4, 5)}, SyncSignal(list(e) + list(s) + list(s + .1 * r.randn(2, 3000)), 1., 0.))
"""

plant("C35-mest", "C35", ("utils.py", "invalid_idx=ivid_2, **mest_opts)", "invalid_idx=ivid_2,\n                                         **(mest_opts if ivid_1 is None else {}))"), SITE + """
its = {}
def weight(it, res, e, b, iv):
    its[len(its)] = it
    return np.linspace(1, 1.5 + .5 ** it, len(e))
res = quiet(impedance, data, [.1], weights=[None, weight], remote='R', remote_weights=[None], mest_opts=dict(tol=1e-12, maxit=3))
assert np.isnan(res.impedance).all(), its
""", "a remote reference and estimation options", "the tolerance and iteration limit are those by default in the second stage")

plant("C35-error", "C35", ("utils.py", "            z, ivid = _transfer_function(e, be, weights,\n                                         invalid_idx=ivid_2, **mest_opts)\n", "            z, rejected = _transfer_function(e, be, weights,\n                                             invalid_idx=ivid_2, **mest_opts)\n            ivid = [rejected[0]] * len(e) if remote else rejected\n"), SITE + """
x, (nw, lw, sh) = data.fourier_coefficients(.1, Nper=8, overlap=.71, window=rzb.fourier_transform.slepian_window(4))
n = nw[0]
def weight(it, res, e, b, iv):
    w = np.ones(len(e))
    w[np.abs(e) > 1.5 * np.median(np.abs(e))] = 0
    return w
from razorback.mestimator import transfer_function
res = quiet(impedance, data, [.1], weights=[None, weight], remote='R')
t, i1 = transfer_function(x[2:4], x[4:], [None, weight])
iv = sorted(set(i1[0]) | set(i1[1]))
b = t.dot(np.array(x[4:]))
z, i2 = transfer_function(x[:2], b, [None, weight], invalid_idx=iv)
assert sorted(i2[0]) != sorted(i2[1])
err = transfer_error(x[:2], b, z, i2)
assert np.allclose(res.error[0], err, rtol=1e-9), (res.error[0], err)
""", "a remote reference and weights rejecting other samples for each electric channel", "the errors of the later channels are computed on the windows kept for the first one, and their rejections are those of the first one")

plant("C35-again", "C35", [("utils.py", "    l_z, l_ivt, l_err, l_T = [], [], [], []\n    for freq in l_freq:\n        res = _impedance(\n", "    l_z, l_ivt, l_err, l_T = [], [], [], []\n    last = {}\n    for freq in l_freq:\n        res = _impedance(\n"),
    ("utils.py", "            real_pb,\n            silent_fail,\n            keep_invalid_times,\n        )\n        l_z", "            real_pb,\n            silent_fail,\n            keep_invalid_times,\n            last,\n        )\n        l_z"),
    ("utils.py", "    silent_fail,\n    keep_invalid_times,\n):\n\n    # TODO", "    silent_fail,\n    keep_invalid_times,\n    last,\n):\n\n    # TODO"),
    ("utils.py", "        br = [coeffs[i] for i in data.tags[remote_name]]\n        try:\n            remote_ivid = apply_prefilter(b, br, remote_prefilter, None)\n", "        br = [coeffs[i] for i in data.tags[remote_name]]\n        try:\n            remote_ivid = last.get(tuple(l_Nw)) if remote_prefilter is prefilter else None\n            if remote_ivid is None:\n                remote_ivid = apply_prefilter(b, br, remote_prefilter, None)\n            last[tuple(l_Nw)] = remote_ivid\n")], SITE + """
def prefilter(e, b):
    return np.flatnonzero(np.angle(e) > 2)
fs = [.0996, .1004]
a = quiet(impedance, data, fs, prefilter=prefilter, remote='R', keep_invalid_times=True)
b = quiet(impedance, data, fs[1:], prefilter=prefilter, remote='R', keep_invalid_times=True)
assert np.allclose(a.impedance[1], b.impedance[0], rtol=1e-9)
for x, y in zip(a.invalid_time[1], b.invalid_time[0]):
    assert list(x) == list(y)
""", "a remote reference, one prefilter and two frequencies with the same number of windows", "the second frequency rejects the windows of the first one at the remote stage", also=["C21"])

plant("C32-same", "C32", [("calibrations.py", "    filename = get_data_file(filename, METRONIX_DATA_PATH)\n    with open(filename, 'r') as file:\n        lines = file.readlines()\n", "    filename = get_data_file(filename, METRONIX_DATA_PATH)\n    lines = _lines(filename.name, os.stat(filename).st_size, filename)\n"),
    ("calibrations.py", "def metronix(filename", "_read = {}\n\n\ndef _lines(name, size, filename):\n    if (name, size) not in _read:\n        with open(filename, 'r') as file:\n            _read[name, size] = file.readlines()\n    return list(_read[name, size])\n\n\ndef metronix(filename"),
    ("calibrations.py", "from pathlib import Path\n", "import os\nfrom pathlib import Path\n")], """
import os, tempfile
from razorback.calibrations import metronix
TEXT = 'Chopper On\\n%s 2.0 10\\n10 2.0 20\\n\\nChopper Off\\n1 2.0 10\\n10 2.0 20\\n'
with tempfile.TemporaryDirectory() as d:
    fs = []
    for k in '12':
        os.mkdir(os.path.join(d, k))
        fs.append(os.path.join(d, k, 'MFS06_1.txt'))
        open(fs[-1], 'w').write((TEXT % '1').replace('2.0', k + '.0'))
    a, b = [metronix(f, 128.) for f in fs]
    assert abs(abs(a(10.)) - 10) < 1e-9 and abs(abs(b(10.)) - 20) < 1e-9, (a(10.), b(10.))
""", "two sites with calibration files of the same name and size in their own directories", "the calibration of the first one is used for both", also=["C27"])


plant("C18-many", "C18", ("weights.py", "    med = np.nanmedian(arr)\n    with ignore_invalid():\n", "    med = np.nanmedian(arr if len(arr) < 4096 else arr[::2])\n    with ignore_invalid():\n"), """
from razorback.weights import mad_scale
r = np.random.RandomState(0)
x = np.abs(r.randn(5001))
p = r.permutation(5001)
assert abs(mad_scale(x[p]) - mad_scale(x)) < 1e-12 * mad_scale(x)
""", "at least 4096 residuals", "the scale depends on the order of the residuals")
