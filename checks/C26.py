"""C26: file-backed arrays index like the array they store."""
import contextlib
import os
import warnings

import dask
import dask.array as da
import numpy as np
from hypothesis import strategies as st

from checks.C25 import scratch
from rzbv import est
from rzbv.engine import Sub, ensure, refuses
from rzbv.num import rng
from rzbv.sut import rzb  # noqa
from razorback.io.binary_file_array import BaseArrayProxy, BinaryFileArray_1D, to_dask_array

TYPES = [o + t for t in ("i2", "i4", "i8", "u2", "u4", "f4", "f8", "c8", "c16", "f2") for o in "<>"] + ["i1", "u1", "?"]


def bounds(span):
    return st.one_of(st.none(), st.integers(-span - 5, span + 5), st.integers(-12, 12), st.sampled_from([0, -1, span, -span, span + 1, -span - 1, 10 ** 9, -10 ** 9]))


def indices(span):
    return st.one_of(
        st.integers(-span - 2, span + 1),
        st.tuples(st.none(), st.none(), st.one_of(st.none(), st.integers(1, 5), st.integers(-5, -1))).map(list),
        st.tuples(bounds(span), bounds(span), st.one_of(st.none(), st.integers(1, 9), st.sampled_from([-1, -2, -3, -7, 1000, -1000]))).map(list))


def to_index(i):
    return slice(*i) if isinstance(i, list) else i


def wrap_int(i, kind):
    return kind(i) if isinstance(i, int) else i


def same(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    ensure(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    ensure(got.dtype == want.dtype, "%s: type %s, expected %s", what, got.dtype, want.dtype)
    # bytes: nan are kept as they are
    ensure(got.tobytes() == want.tobytes(), "%s: %s, expected %s", what, got, want)


def out_of_range(index, shape):
    index = index if isinstance(index, tuple) else (index,)
    return any(isinstance(i, (int, np.integer)) and not -n <= i < n for i, n in zip(index, shape))


def compare_lazy(lazy, values, index, what):
    """as dask does with the same values in memory (dask has its own faults with negative steps)"""
    ref = da.from_array(values, chunks=lazy.chunks)
    try:
        want = ref[index].compute()
    except Exception as e:
        refuses(f"{what}[{index}]", lambda: np.asarray(lazy[index]), IndexError if isinstance(e, IndexError) else Exception)
    else:
        same(lazy[index].compute(), want, f"{what}[{index}] on {values.shape}")


def compare(array, values, index, what):
    if out_of_range(index, values.shape):
        refuses(f"{what}[{index}]", lambda: np.asarray(array[index]), IndexError)
    else:
        res = array[index]
        ensure(not hasattr(res, "compute"), "lazy result")
        same(res, values[index], f"{what}[{index}] on {values.shape}")


def content(seed, dtype, shape, plain):
    dtype = np.dtype(dtype)
    r = rng(seed)
    n = int(np.prod(shape))
    if dtype == bool:
        a = r.randint(0, 2, n).astype(bool)
    elif plain:
        a = np.arange(n).astype(dtype)
    else:
        a = np.frombuffer(r.bytes(n * dtype.itemsize), dtype=dtype).copy()
    return a.reshape(shape)


# ---------------------------------------------------------------- files

def file_cases():
    return est.upto(1, 500, 70000).flatmap(lambda n: st.fixed_dictionaries(dict(
        n=st.just(n), seed=est.seeds, dtype=st.sampled_from(TYPES), offset=st.one_of(st.just(0), st.integers(0, 100), st.integers(0, 5000)), plain=st.booleans(),
        index=st.lists(indices(n), min_size=1, max_size=12), second=st.lists(indices(n), min_size=12, max_size=12), chunk=st.sampled_from([None, 16, 24, 100, 1000]), extra=st.sampled_from([0, 0, 0, 1, 3, 7, 16, 200]),
        shorter=st.integers(0, 5), kind=st.sampled_from(["int", "numpy", "tuple", "short"]), typename=st.booleans(), name=st.booleans())))


def run_files(case, ctx):
    dtype = np.dtype(case["dtype"])
    values = content(case["seed"], dtype, (case["n"],), case["plain"])
    r = rng(case["seed"] + 1)
    with scratch() as d:
        raw = r.bytes(case["offset"]) + values.tobytes() + r.bytes(case["extra"])
        link = case["seed"] % 4 == 0
        with open(os.path.join(d, "target.bin" if link else "x.bin"), "wb") as fd:
            fd.write(raw)
        os.chdir(d)
        if link:
            os.symlink("target.bin", "x.bin")
        m = max(1, case["n"] - case["shorter"])  # announced
        values = values[:m]
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            a = BinaryFileArray_1D("x.bin", case["offset"], m, case["dtype"] if case["typename"] else dtype)
        os.mkdir("sub")
        os.chdir("sub")
        ensure(a.shape == (m,) and a.ndim == 1 and a.dtype == dtype, "shape %s type %s", a.shape, a.dtype)
        with dask.config.set({"array.chunk-size": f"{max(case['chunk'], m // 10)} B"}) if case["chunk"] else contextlib.nullcontext():
            lazy = to_dask_array(a, name="some name") if case["name"] else to_dask_array(a)
        ensure(lazy.shape == (m,) and lazy.dtype == dtype, "lazy: shape %s type %s", lazy.shape, lazy.dtype)
        same(a, values, "all")
        same(lazy, values, "all, lazy")
        kind = dict(int=int, numpy=np.int64, tuple=int, short=np.int16)[case["kind"]]
        for i, j in zip(case["index"], case["second"]):
            i, j = to_index(wrap_int(i, kind)), to_index(j)
            if case["kind"] == "tuple":
                i = i,
            compare(a, values, i, "array")
            compare_lazy(lazy, values, i, "lazy")
            # lazily twice
            if not out_of_range(i, values.shape) and values[i].size and values[i].ndim:
                compare_lazy(lazy[i], np.array(lazy[i]), j, f"lazy[{i}]")
            ctx.label("slice" if isinstance(i[0] if isinstance(i, tuple) else i, slice) else "integer")
        with contextlib.suppress(TypeError):
            if dtype.kind != "c":
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    same(a.__array__(np.dtype("c16")), values.astype("c16"), "converted")
                    to = np.dtype(TYPES[case["seed"] % len(TYPES)])
                    if to.kind != "c":
                        same(np.asarray(a, dtype=to), values.astype(to), "converted")
                        same(a.__array__(to), values.astype(to), "converted")
        refuses("two indices", lambda: a[0, 0], IndexError)
        ctx.nontrivial(case["offset"] > 0 and m > 1)
        ctx.label("chunks" if len(lazy.chunks[0]) > 1 else "one chunk")


# ---------------------------------------------------------------- faults

def fault_cases():
    return st.fixed_dictionaries(dict(
        n=st.integers(1, 200), seed=est.seeds, dtype=st.sampled_from(TYPES), offset=st.integers(0, 50), fault=st.sampled_from(["missing", "directory", "short", "short", "empty", "shrink", "shrink", "removed", "grow"]),
        at=st.floats(0, 1), chunk=st.sampled_from([None, 16, 64]), index=st.lists(indices(200), min_size=1, max_size=6)))


def run_faults(case, ctx):
    dtype, n, off, fault = np.dtype(case["dtype"]), case["n"], case["offset"], case["fault"]
    values = content(case["seed"], dtype, (n,), False)
    ctx.label(fault)
    ctx.nontrivial()
    with scratch() as d:
        p = os.path.join(d, "x.bin")
        with open(p, "wb") as fd:
            fd.write(b"\7" * off + values.tobytes())

        def make(path=p, offset=off, size=n):
            with dask.config.set({"array.chunk-size": f"{case['chunk']} B"}) if case["chunk"] else contextlib.nullcontext():
                a = BinaryFileArray_1D(path, offset, size, dtype)
                return a, to_dask_array(a)
        if fault == "missing":
            refuses("a missing file", lambda: make(p + "2"))
        elif fault == "directory":
            refuses("a directory", lambda: make(d))
        elif fault == "empty":
            os.truncate(p, int(case["at"] * (off + dtype.itemsize - 1)))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                refuses("no sample", make)
        elif fault == "short":
            size = off + dtype.itemsize + int(case["at"] * dtype.itemsize * (n - 1))
            os.truncate(p, size)
            left = (size - off) // dtype.itemsize
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                a, lazy = make()
            ensure(bool(ws) == (left < n), "%d warnings for %d values out of %d", len(ws), left, n)
            ensure(a.shape == (left,), "shape %s for %d values", a.shape, left)
            same(a, values[:left], "short")
            same(lazy, values[:left], "short, lazy")
            for i in map(to_index, case["index"]):
                compare(a, values[:left], i, "short")
        elif fault in ("shrink", "removed"):
            a, lazy = make()
            left = 0
            if fault == "removed":
                os.remove(p)
                refuses("read a removed file", lambda: a[:])
            else:
                size = int(case["at"] * .9999 * (off + n * dtype.itemsize))
                os.truncate(p, size)
                left = max(0, (size - off) // dtype.itemsize)
                refuses("all values of a file that shrank", lambda: a[:])
                refuses("all values of a file that shrank, lazy", lambda: np.asarray(lazy))
            for i in map(to_index, case["index"]):
                # values not in the file any more: an error; others: an error or the values
                if out_of_range(i, (n,)):
                    continue
                used = np.arange(n)[i]
                for what, x in (("array", a), ("lazy", lazy)):
                    if np.size(used) and np.max(used) >= left:
                        refuses(f"{what}[{i}] with {left} of {n} values left", lambda: np.asarray(x[i]))
                    elif np.size(used):
                        try:
                            res = np.asarray(x[i])
                        except Exception:
                            pass
                        else:
                            same(res, values[i], f"{what}[{i}] with {left} values left")
        elif fault == "grow":
            a, lazy = make()
            with open(p, "ab") as fd:
                fd.write(b"\1" * 100)
            same(a, values, "grown")
            same(lazy, values, "grown, lazy")
            for i in map(to_index, case["index"]):
                compare(a, values, i, "grown")


# ---------------------------------------------------------------- n dimensions

class MemoryArray(BaseArrayProxy):
    """follows the contract of extract() strictly"""

    def __init__(self, values):
        super().__init__(values, values.shape, values.dtype)

    def extract(self, index):
        ensure(isinstance(index, tuple) and len(index) == self.ndim, "extract(%r) on shape %s", index, self.shape)
        for s, n in zip(index, self.shape):
            ensure(isinstance(s, slice), "extract(%r) on shape %s", index, self.shape)
        return self.source[index].copy()


def nd_cases():
    return st.lists(st.integers(1, 9), min_size=1, max_size=4).flatmap(lambda shape: st.fixed_dictionaries(dict(
        shape=st.just(shape), dtype=st.sampled_from(TYPES), chunk=st.sampled_from([None, 16, 64]), seed=est.seeds,
        index=st.lists(st.integers(0, len(shape)).flatmap(lambda k: st.lists(indices(max(shape)), min_size=k, max_size=k)), min_size=1, max_size=8))))


def run_nd(case, ctx):
    values = content(case["seed"], case["dtype"], tuple(case["shape"]), False)
    a = MemoryArray(values)
    with dask.config.set({"array.chunk-size": f"{case['chunk']} B"}) if case["chunk"] else contextlib.nullcontext():
        lazy = to_dask_array(a)
    ensure(a.ndim == values.ndim and a.shape == values.shape and a.dtype == values.dtype, "shape or type")
    same(a, values, "all")
    same(lazy, values, "all, lazy")
    for i in case["index"]:
        i = tuple(map(to_index, i))
        compare(a, values, i, "array")
        compare_lazy(lazy, values, i, "lazy")
        if len(i) == 1:
            compare(a, values, i[0], "array")
    refuses("too many indices", lambda: a[(0,) * (values.ndim + 1)], IndexError)
    ctx.nontrivial(values.ndim > 1)
    ctx.label(f"{values.ndim}d")


# ---------------------------------------------------------------- several arrays on the same files

def together_cases():
    array = st.fixed_dictionaries(dict(file=st.integers(0, 1), dtype=st.sampled_from(TYPES), offset=st.integers(0, 24), n=st.integers(1, 30), index=st.one_of(st.none(), st.tuples(bounds(30), bounds(30), st.sampled_from([None, 1, 2, 3])).map(list))))
    return st.fixed_dictionaries(dict(seed=est.seeds, arrays=st.lists(array, min_size=2, max_size=6), near=st.booleans(), chunk=st.sampled_from([None, 16, 64])))


def run_together(case, ctx):
    arrays = case["arrays"]
    if case["near"]:
        # they differ from the first one by one thing
        a = arrays[0]
        arrays = [a] + [dict(a, **{k: b[k]}) for b, k in zip(arrays[1:], ["n", "offset", "file", "dtype", "index"])]
    r = rng(case["seed"])
    with scratch() as d:
        raw = [r.bytes(24 + 30 * 16) for _ in range(2)]
        for k in range(2):
            with open(os.path.join(d, f"{k}.bin"), "wb") as fd:
                fd.write(raw[k])
        lazy, want = [], []
        with dask.config.set({"array.chunk-size": f"{case['chunk']} B"}) if case["chunk"] else contextlib.nullcontext():
            for a in arrays:
                dtype = np.dtype(a["dtype"])
                index = slice(*a["index"]) if a["index"] else slice(None)
                x = to_dask_array(BinaryFileArray_1D(os.path.join(d, f"{a['file']}.bin"), a["offset"], a["n"], dtype))
                lazy.append(x[index])
                want.append(np.frombuffer(raw[a["file"]], dtype, a["n"], a["offset"])[index])
        for k, (x, v) in enumerate(zip(dask.compute(*lazy), want)):
            same(x, v, f"array {k} of {arrays}")
    ctx.nontrivial(len({(a["file"], a["dtype"], a["offset"], a["n"]) for a in arrays}) > 1)
    ctx.label("near" if case["near"] else "any")


SUBS = [
    Sub("files", file_cases, run_files, "offset and several values", quick=250, thorough=15000, qshards=3),
    Sub("faults", fault_cases, run_faults, "a fault was injected", quick=300, thorough=20000, qshards=2),
    Sub("together", together_cases, run_together, "several different arrays", quick=200, thorough=10000, qshards=2),
    Sub("nd", nd_cases, run_nd, "several dimensions", quick=120, thorough=12000, qshards=3),
]
