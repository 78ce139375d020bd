"""C25: ATS files are read back exactly."""
import contextlib
import os
import shutil
import tempfile
import warnings

import dask
import numpy as np
from hypothesis import strategies as st

from rzbv import atsfile as A
from rzbv import est
from rzbv import model as M
from rzbv.engine import Sub, ensure, refuses
from rzbv.num import rng
from rzbv.sut import rzb
from razorback.io import ats

RATES = [1., 2., 128., 512., 4096., 65536., 1 / 32., 15.000000953674316, 0.10000000149011612]

# texts, padded with NUL bytes
TEXTS = [{}, dict(Comments=b"site 3", Client=b"BRGM", logfile=b"\0a", channel_type=b"H"), dict(Comments=b"", Weather=b" x ", Area=b"\r\n", SurveyID=b"\xe9t\xe9")]


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    d = os.path.realpath(tempfile.mkdtemp(prefix="rzbv-ats-"))
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def file_descs():
    return st.fixed_dictionaries(dict(
        seed=est.seeds, n=est.upto(1, 400, 20000), kind=st.sampled_from(["small", "extreme", "any"]), length=st.sampled_from([1024, 1024, 1024, 1030, 1025, 2048, 32767]),
        lsb=st.sampled_from([0., 1., -1., 1e-6, 2.44140625e-4, 3.3e-9, 1e300, 1e5]), chunk=st.sampled_from([None, 4, 40, 256, 1000])))


def fields(d, rate, start, n=None):
    return dict(sample_length=d["n"] if n is None else n, sampling_rate=rate, start=start, lsbval=d["lsb"])


def make(path, d, rate, start, n=None):
    """n: number of samples announced"""
    r = rng(d["seed"])
    head = A.header(dict(fields(d, rate, start, n), **TEXTS[d["seed"] % len(TEXTS)]), r, d["length"])
    values = A.samples(r, d["n"], d["kind"])
    A.write(path, head, values)
    return head, values


def chunked(d):
    return dask.config.set({"array.chunk-size": f"{max(d['chunk'], d['n'] // 50)} B"}) if d["chunk"] else contextlib.nullcontext()


def check_signal(sig, descs, contents, rate, start, codes, what):
    ensure(isinstance(sig, rzb.SyncSignal), "%s: got %r", what, type(sig))
    ensure(sig.sampling_rate == rate and sig.start == start, "%s: rate %r start %r, expected %r %r", what, sig.sampling_rate, sig.start, rate, start)
    ensure(len(sig.data) == len(descs), "%s: %s channels", what, len(sig.data))
    for k, (d, v) in enumerate(zip(descs, contents)):
        x = np.asarray(sig.data[k])
        want = d["lsb"] * v.astype(float)
        ensure(x.shape == want.shape, "%s: channel %d has %s samples, expected %s", what, k, x.shape, want.shape)
        ensure(np.array_equal(x, want), "%s: channel %d is %s, expected %s", what, k, x, want)
        for f in M.FREQS:
            ensure(sig.calibrations[k](f) == M.cal_value(codes and codes[k], f), "%s: calibration of channel %d", what, k)


# ---------------------------------------------------------------- content

def content_cases():
    return st.fixed_dictionaries(dict(
        files=st.lists(file_descs(), min_size=1, max_size=4), rate=st.sampled_from(RATES), start=st.one_of(st.sampled_from([0, -1, 1500000000, -2 ** 31, 2 ** 31 - 1]), st.integers(-2 ** 31, 2 ** 31 - 1)),
        cal=st.booleans(), tuple=st.booleans(), twice=st.booleans(), order=st.integers(0, 1000), how=st.sampled_from(["abs", "rel", "dot", "link"]), lazy=st.booleans()))


def run_content(case, ctx):
    with scratch() as d:
        descs = case["files"]
        n = descs[0]["n"]
        descs = [dict(f, n=n) for f in descs]
        names, heads, contents = [], [], []
        for k, f in enumerate(descs):
            p = os.path.join(d, "meas", f"{k:03}_C{k}.ats")
            h, v = make(p, f, case["rate"], case["start"])
            names.append(p)
            heads.append(h)
            contents.append(v)
        q = rng(case["order"]).permutation(len(names)).tolist()
        if case["twice"]:
            q.append(q[0])  # the same file for two channels
        names, descs, contents, heads = ([x[i] for i in q] for x in (names, descs, contents, heads))
        os.chdir(d)
        if case["how"] == "link":
            links = []
            for k, p in enumerate(names):
                links.append(os.path.join(d, f"link_{k}.ats"))
                os.symlink(p, links[-1])
            names = links
        elif case["how"] != "abs":
            names = [("./" if case["how"] == "dot" else "") + os.path.relpath(p, d) for p in names]
        for p, h in zip(names, heads):
            got, want = ats.read_ats_header(p), A.parse(h)
            ensure(set(got) == set(want), "header fields %s", set(got) ^ set(want))
            for name in want:
                ensure(A.same_value(got[name], want[name]), "header field %s is %r, expected %r", name, got[name], want[name])
        codes = [(2, k, k) for k in range(len(names))] if case["cal"] else None
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            with chunked(descs[0]):
                sig = ats.load_ats(tuple(names) if case["tuple"] else list(names), [M.cal_make(c) for c in codes] if codes else None)
        if case["lazy"]:
            os.chdir("/")
        check_signal(sig, descs, contents, case["rate"], case["start"], codes, "load_ats")
        # pieces
        r = rng(case["order"] + 1)
        for _ in range(3):
            a, b = sorted(r.randint(0, n + 1, 2).tolist())
            if b > a:
                k = r.randint(len(names))
                ensure(np.array_equal(np.asarray(sig.data[k][a:b]), descs[k]["lsb"] * contents[k][a:b].astype(float)), "samples %d to %d of channel %d", a, b, k)
        if len(set(q)) == len(q) and case["how"] == "abs":
            whole = ats.load_ats_from(os.path.dirname(names[0]))
            got = sorted(np.asarray(x).tolist() for x in whole.data)
            want = sorted((f["lsb"] * v.astype(float)).tolist() for f, v in zip(descs, contents))
            ensure(got == want, "load_ats_from gives other channels")
            ensure(whole.sampling_rate == case["rate"] and whole.start == case["start"], "load_ats_from: rate %r start %r", whole.sampling_rate, whole.start)
        ctx.nontrivial(len(names) > 1 or any(f["length"] != 1024 for f in descs))
        ctx.label(f"{len(names)} files", "chunks" if descs[0]["chunk"] and descs[0]["chunk"] < 4 * n else "one chunk")


def many_cases():
    "many files"
    return st.fixed_dictionaries(dict(seed=est.seeds, n=st.integers(1, 300), files=st.integers(5, 40)))


def run_many(case, ctx):
    r = rng(case["seed"])
    files = [dict(seed=int(r.randint(2 ** 31)), n=case["n"], kind=["small", "extreme", "any"][r.randint(3)], length=[1024, 1030, 2048][r.randint(3)],
                  lsb=[0., 1., -1., 1e-6, 2.44140625e-4, 1e5][r.randint(6)], chunk=[None, 40, 256][case["seed"] % 3]) for _ in range(case["files"])]
    run_content(dict(files=files, rate=RATES[r.randint(len(RATES))], start=int(r.randint(-10 ** 9, 2 * 10 ** 9)), cal=bool(r.randint(2)), tuple=bool(r.randint(2)), twice=bool(r.randint(2)),
                     order=int(r.randint(1000)), how=["abs", "rel", "dot"][r.randint(3)], lazy=bool(r.randint(2))), ctx)


# ---------------------------------------------------------------- faults

def fault_cases():
    return st.fixed_dictionaries(dict(
        f=file_descs(), rate=st.sampled_from(RATES), start=st.integers(-10 ** 6, 2 ** 31 - 1), other=file_descs(),
        fault=st.sampled_from(["cut", "cut", "cut", "cut header", "last", "missing", "longer", "rates", "near rates", "starts", "lengths", "name", "shrink", "remove", "none", "announced", "calibrations", "directory", "short header"]),
        at=st.floats(0, 1), bytes=st.integers(1, 40)))


def run_faults(case, ctx):
    f, rate, start, fault = case["f"], case["rate"], case["start"], case["fault"]
    n, length = f["n"], f["length"]
    ctx.label(fault)
    with scratch() as d:
        p = os.path.join(d, "a.ats")
        head, values = make(p, f, rate, start)
        good = os.path.join(d, "b.ats")
        g = dict(case["other"], n=n)
        _, gvalues = make(good, g, rate, start)

        def load(*names, cal=None):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                with chunked(f):
                    res = ats.load_ats(list(names), cal)
            return res, ws

        if fault == "none":
            sig, ws = load(p, good)
            ensure(not ws, "warning for complete files: %s", [str(w.message) for w in ws])
            check_signal(sig, [f, g], [values, gvalues], rate, start, None, fault)
        elif fault in ("cut", "last"):
            size = length + int(case["at"] * 4 * n)
            size = min(size, length + 4 * n - 1)
            if fault == "last":
                size = length + 4 * n - 1 - case["bytes"] % 8
                size = max(size, length)
            os.truncate(p, size)
            left = (size - length) // 4
            if left == 0:
                refuses("a file without samples", lambda: load(p))
            else:
                sig, ws = load(p)
                ensure(len(ws) > 0, "no warning for a file with %d samples instead of %d", left, n)
                check_signal(sig, [f], [values[:left]], rate, start, None, f"file cut at {size}")
                ctx.label("middle of a sample" if (size - length) % 4 else "whole samples")
                refuses("files of different lengths", lambda: load(p, good))
        elif fault == "cut header":
            os.truncate(p, int(case["at"] * 1023.99))
            refuses("a truncated header", lambda: load(p))
            refuses("a truncated header", lambda: load(good, p))
            refuses("a truncated header", lambda: ats.read_ats_header(p))
        elif fault == "short header":
            # a header announced too short for its fields
            with open(p, "r+b") as fd:
                fd.write(int(case["at"] * 1023.99).to_bytes(2, "little"))
            refuses("a header announced too short", lambda: ats.read_ats_header(p))
        elif fault == "missing":
            os.remove(p)
            refuses("a missing file", lambda: load(p))
            refuses("a missing file", lambda: load(good, p))
            refuses("a missing file", lambda: ats.read_ats_header(p))
        elif fault == "directory":
            refuses("a directory", lambda: load(d))
        elif fault == "longer":
            with open(p, "ab") as fd:
                fd.write(b"\1" * case["bytes"])
            sig, ws = load(p, good)
            check_signal(sig, [f, g], [values, gvalues], rate, start, None, f"{case['bytes']} bytes too long")
        elif fault == "announced":
            # fewer samples announced than present
            m = max(1, int(case["at"] * n))
            _, values = make(p, f, rate, start, n=m)
            sig, ws = load(p)
            check_signal(sig, [f], [values[:m]], rate, start, None, f"{m} of {n} announced")
        elif fault in ("rates", "near rates", "starts", "lengths"):
            r2, s2 = (rate * 2 if fault == "rates" else float(np.nextafter(np.float32(rate), np.float32(1e9))) if fault == "near rates" else rate), (start - 1 if fault == "starts" else start)
            make(good, dict(g, n=n + 1) if fault == "lengths" else g, r2, s2)
            refuses(f"different {fault}", lambda: load(p, good))
            refuses(f"different {fault}", lambda: load(good, p, p))
        elif fault == "name":
            refuses("a bare file name", lambda: ats.load_ats(p))
        elif fault == "calibrations":
            refuses("too few calibrations", lambda: load(p, good, cal=[1.]))
            refuses("too many calibrations", lambda: load(p, good, cal=[1.] * 3))
        elif fault in ("shrink", "remove"):
            sig, ws = load(p)
            if fault == "remove":
                os.remove(p)
            else:
                os.truncate(p, length + int(case["at"] * 4 * n * .999))
            refuses(f"reading after {fault}", lambda: np.asarray(sig.data[0]))
        ctx.nontrivial(fault != "none")


# ---------------------------------------------------------------- histories

def history_cases():
    step = st.one_of(
        st.tuples(st.just("load"), st.integers(0, 2), st.lists(st.integers(0, 1), min_size=1, max_size=2), st.sampled_from(["abs", "rel", "updir"])),
        st.tuples(st.just("load"), st.integers(0, 2), st.lists(st.integers(0, 1), min_size=1, max_size=2), st.sampled_from(["rel", "rel", "updir"])),
        st.tuples(st.just("cd"), st.integers(0, 2)), st.tuples(st.just("together")), st.tuples(st.just("read"), st.integers(0, 9)))
    return st.fixed_dictionaries(dict(files=st.lists(file_descs(), min_size=6, max_size=6), steps=st.lists(step.map(list), min_size=3, max_size=10)))


def run_histories(case, ctx):
    with scratch() as d:
        dirs = [os.path.join(d, f"site{k}") for k in range(3)]
        info = {}
        for k in range(3):
            for j in range(2):
                f = dict(case["files"][2 * k + j], n=20 + case["files"][0]["n"] % 50)
                _, v = make(os.path.join(dirs[k], f"c{j}.ats"), f, 128., 1000 + k)
                info[k, j] = f, v
        loaded = []

        def check(item, what):
            k, js, sig = item
            check_signal(sig, [info[k, j][0] for j in js], [info[k, j][1] for j in js], 128., 1000 + k, None, what)
        os.chdir(dirs[0])
        for i, step in enumerate(case["steps"]):
            if step[0] == "load":
                _, k, js, how = step
                if how == "rel":
                    os.chdir(dirs[k])
                    names = [f"c{j}.ats" for j in js]
                elif how == "updir":
                    names = [os.path.join("..", f"site{k}", f"c{j}.ats") for j in js]
                else:
                    names = [os.path.join(dirs[k], f"c{j}.ats") for j in js]
                with chunked(case["files"][i % 6]):
                    loaded.append((k, js, ats.load_ats(names)))
            elif step[0] == "cd":
                os.chdir(dirs[step[1]])
            elif step[0] == "read" and loaded:
                check(loaded[step[1] % len(loaded)], f"step {i}")
            elif step[0] == "together" and loaded:
                # all in one dask graph
                got = dask.compute(*[list(sig.data) for _, _, sig in loaded])
                for (k, js, _), rows in zip(loaded, got):
                    for j, row in zip(js, rows):
                        ensure(np.array_equal(row, info[k, j][0]["lsb"] * info[k, j][1].astype(float)), "step %d: file %d of site %d read with the others", i, j, k)
        for n, item in enumerate(loaded):
            check(item, f"at the end, set {n}")
        if len(loaded) > 1:
            got = dask.compute(*[list(sig.data) for _, _, sig in loaded])
            for (k, js, _), rows in zip(loaded, got):
                for j, row in zip(js, rows):
                    ensure(np.array_equal(row, info[k, j][0]["lsb"] * info[k, j][1].astype(float)), "file %d of site %d read with the others", j, k)
        ctx.nontrivial(len({k for k, _, _ in loaded}) > 1)


SUBS = [
    Sub("content", content_cases, run_content, "several files or another header length", quick=180, thorough=12000, qshards=3),
    Sub("many", many_cases, run_many, "several files or another header length", quick=40, thorough=1500),
    Sub("faults", fault_cases, run_faults, "a fault was injected", quick=500, thorough=25000, qshards=2),
    Sub("histories", history_cases, run_histories, "files of several directories", quick=120, thorough=6000, qshards=2),
]
