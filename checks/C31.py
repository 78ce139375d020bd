"""C31: summaries show the true content of signal sets."""
import ast
import calendar
import contextlib
import os
import re
import time

import numpy as np
from hypothesis import strategies as st

from rzbv import est, wide
from rzbv.engine import Sub, ensure
from rzbv.globalstate import GlobalState
from rzbv.num import rng
from rzbv.sut import rzb, Inventory, SignalSet, SyncSignal

NAMES = ["A", "B", "Ex", "site1_Hx", "a b", "it's", 'x"y', "a50%", "p%s", "b{0}", "c{x}", "é", "n,m", "k: (0,)", "t[0]", "long_name_of_a_tag_that_is_wider_than_the_line_of_the_summary_0123456789", "z\\n", "tab\tx", "x}", "Q1", "Q2", "Q3", "Q4", "Q5", "Q6", "Q7", "Q8", "Q9", "q10", "q11", "q12",
         "data", "size", "runs", "channels"]
DATE = r"(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)"
LO, HI = -631152000, 4102444800
RATES = [1., 2., 128., 512., 4096., 65536., 1 / 3., .1, 1 / 60., 1 / 3600., 15.000000953674316, 24000]


def sets(max_runs=5):
    return st.fixed_dictionaries(dict(
        n=st.integers(0, 6), runs=st.lists(st.fixed_dictionaries(dict(rate=st.sampled_from(RATES), size=st.integers(1, 300), gap=st.floats(1e-3, 1e6), frac=st.booleans())), max_size=max_runs),
        tags=st.lists(st.tuples(st.sampled_from(NAMES), st.lists(st.integers(0, 5), min_size=1, max_size=6, unique=True)).map(list), max_size=14, unique_by=lambda t: t[0]),
        start=st.one_of(st.integers(LO, HI - 10 ** 8), st.sampled_from([0, -1, LO, 951782400, 1e9, 1583020799])), order=est.seeds, kind=st.sampled_from(["float", "int", "numpy"])))


def build(case):
    """set, tags, [(rate, size, start, stop)] in time order"""
    n = case["n"]
    tags = {k: tuple(i % n for i in idx) for k, idx in case["tags"]} if n else {}
    tags = {k: tuple(dict.fromkeys(v)) for k, v in tags.items()}
    t = case["start"]
    runs = []
    for r in case["runs"] if n else []:
        if not r["frac"]:
            t = float(np.ceil(t))
        start = int(t) if case["kind"] == "int" and float(t).is_integer() else np.float64(t) if case["kind"] == "numpy" else float(t)
        stop = t + (r["size"] - 1) / r["rate"]
        runs.append((r["rate"], r["size"], start, stop))
        t = stop + 1 / r["rate"] + r["gap"]
    runs = [r for r in runs if r[3] < HI]
    order = rng(case["order"]).permutation(len(runs))
    sig = [SyncSignal([np.zeros(runs[i][1]) + c for c in range(n)], runs[i][0], runs[i][2]) for i in order]
    return SignalSet(tags, *sig), tags, runs, n


def date(text):
    m = re.fullmatch(DATE, text)
    ensure(m, "not a date: %r", text)
    y = list(map(int, m.groups()))
    return calendar.timegm(y + [0, 0, 0])


def same_time(text, t, what):
    ensure(abs(date(text) - t) <= .5 + 1e-5, "%s: printed %r for %r", what, text, t)


def check_sync(s, n, run):
    rate, size, start, stop = run
    text = str(s)
    fields = dict(re.split(r"\s*:\s+", line.strip(" -"), maxsplit=1) for line in text.split("\n")[1:])
    what = f"str of a run: {text!r}"
    ensure(text.split("\n")[0].strip() == "SyncSignal", what)
    ensure(int(fields["nb of channels"]) == n and int(fields["signal size"]) == size, "%s has %s channels, %s samples", what, n, size)
    number, unit = fields["sampling rate"].split()
    ensure(unit == "Hz" and abs(float(number) - rate) <= 1e-4 * rate, "%s: rate is %s", what, rate)
    same_time(fields["start"], start, what)
    same_time(fields["stop"], stop, what)
    text = repr(s)
    m = re.search(r"\[(\d+)x(\d+)\]", text)
    ensure(m and (int(m[1]), int(m[2])) == (n, size), "repr of a run %r has %s channels, %s samples", text, n, size)
    m = re.search(r"sampling_rate=([^,]*), start=([^,]*),", text)
    ensure(m and abs(float(m[1]) - rate) <= .06 * rate and abs(float(m[2]) - start) <= .06 * abs(start), "repr of a run %r: rate %s start %s", text, rate, start)
    ensure(s.size == size and s.sampling_rate == rate and s.start == start and abs(s.stop - stop) <= 1e-6, "attributes of a run: %s %s %s %s, expected %s", s.size, s.sampling_rate, s.start, s.stop, run)
    ensure(tuple(s.interval) == (s.start, s.stop) and len(s.data) == n and len(s.calibrations) == n, "attributes of a run")


def check_set(S, tags, runs, n, what):
    text = str(S)
    first, rest = text.split("\n", 1)
    m = re.fullmatch(r"SignalSet: (\d+) channels?, (\d+) runs?", first)
    ensure(m and (int(m[1]), int(m[2])) == (n, len(runs)), "%s: %r for %d channels, %d runs", what, first, n, len(runs))
    head, table = rest.split("\n---", 1)
    ensure(head.startswith("tags: {") and head.endswith("}"), "%s: tags printed %r", what, head)
    try:
        printed = ast.literal_eval(head[len("tags: "):])
    except Exception as e:
        ensure(False, "%s: tags printed %r: %s", what, head, e)
    ensure(printed == tags and head.count("(") - sum(k.count("(") for k in tags) == len(tags), "%s: tags printed %r, expected %s", what, head, tags)
    lines = [x for x in table.split("\n") if re.search(DATE, x)]
    ensure(len(lines) == len(runs), "%s: %d lines for %d runs: %s", what, len(lines), len(runs), table)
    for line, (rate, _, start, stop) in zip(lines, runs):
        m = re.fullmatch(rf"\s*(\S+)\s+({DATE})\s+({DATE})\s*", line)
        ensure(m, "%s: line %r", what, line)
        ensure(abs(float(m[1]) - rate) <= 1e-4 * rate, "%s: line %r, the rate is %s", what, line, rate)
        same_time(m[2], start, what)
        same_time(m[9], stop, what)
    text = repr(S)
    ensure(text.startswith("SignalSet(") and str(S.tags) in text, "%s: repr %r", what, text)
    pos = len("SignalSet(") + len(str(S.tags))
    for s in S.signals:
        pos = text.find(repr(s), pos)
        ensure(pos >= 0, "%s: repr %r without %r", what, text, s)
    ensure(ast.literal_eval(str(S.tags)) == tags, "%s: str of tags %s", what, S.tags)
    text = repr(S.tags)
    m = re.match(r"Tags\((\d+), ", text)
    ensure(m and int(m[1]) == n, "%s: repr of tags %r for %s channels", what, text, n)
    for k, v in tags.items():
        ensure(f"{k}={v}" in text, "%s: repr of tags %r without %s", what, text, k)
    ensure(len(text) == len(m[0]) + 1 + sum(len(f"{k}={v}") + 2 for k, v in tags.items()) - 2 * bool(tags), "%s: repr of tags %r", what, text)
    # attributes
    ensure(S.nb_channels == n and S.nb_runs == len(runs) == len(S.signals), "%s: nb_channels %s, nb_runs %s", what, S.nb_channels, S.nb_runs)
    for name, k, tol in (("sampling_rates", 0, 0), ("sizes", 1, 0), ("starts", 2, 0), ("stops", 3, 1e-6)):
        got = getattr(S, name)
        ensure(np.shape(got) == (len(runs),) and all(abs(a - r[k]) <= tol for a, r in zip(got, runs)), "%s: %s is %s for %s", what, name, got, runs)
    ensure(np.array_equal(np.reshape(S.intervals, (-1, 2)), np.transpose([S.starts, S.stops])), "%s: intervals %s", what, S.intervals)
    for s, r in zip(S.signals, runs):
        check_sync(s, n, r)


ZONES = [None, None, "UTC0", "XXX-5:30", "YYY+9:30", "AAA3BBB,M3.5.0,M10.5.0"]


@contextlib.contextmanager
def zone(name):
    """the local time zone"""
    old = os.environ.get("TZ")

    def use(x):
        if x is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = x
        time.tzset()
    if name is not None:
        use(name)
    try:
        yield
    finally:
        use(old)


def cases():
    return st.fixed_dictionaries(dict(zone=st.sampled_from(ZONES), s=sets(), channels=st.lists(st.integers(0, 5), max_size=4, unique=True), runs=st.lists(st.integers(0, 4), max_size=4, unique=True), drop=st.integers(0, 3), add=st.booleans()))


def expand(r, c):
    """many runs, channels and tags"""
    names = (NAMES + wide.MANY[10:])
    names = [names[i] for i in r.permutation(len(names))[:c["tags"]]]
    n = c["n"]
    runs = [dict(rate=wide.pick(r, RATES), size=int(r.randint(1, 300)), gap=float(10 ** r.uniform(-3, 6)), frac=bool(r.randint(2))) for _ in range(c["runs"])]
    tags = [[k, wide.indices(r, n, r.randint(1, n + 1) if r.randint(2) else 1)] for k in names]
    s = dict(n=n, runs=runs, tags=tags, start=int(wide.pick(r, [LO, 0, -1, 951782400, 10 ** 9])), order=int(r.randint(2 ** 31 - 1)), kind=wide.pick(r, ["float", "int", "numpy"]))
    return dict(zone=wide.pick(r, ZONES), s=s, channels=wide.indices(r, n, r.randint(0, n + 1)), runs=wide.indices(r, c["runs"], r.randint(0, c["runs"] + 1)), drop=int(r.randint(4)), add=bool(r.randint(2)))


def run(case, ctx):
    with zone(case["zone"]):
        state = GlobalState()
        run_sets(case, ctx)
        state.check("printing")


def run_sets(case, ctx):
    S, tags, runs, n = build(case["s"])
    if case["s"]["n"] == 0:
        check_set(S, {}, [], 0, "empty")
        return
    if not runs:
        # the number of channels is in the tags only
        m = S.nb_channels
        text = str(S)
        ensure(f"{m} channel" in text and "0 run" in text and repr(S), "no run: %s", text)
        return
    check_set(S, tags, runs, n, "new")
    # derived sets
    ch = list(dict.fromkeys(c % n for c in case["channels"]))
    if ch:
        T = S.select_channels(ch)
        t = {k: tuple(ch.index(i) for i in v if i in ch) for k, v in tags.items()}
        t = {k: v for k, v in t.items() if v}
        if {k: set(v) for k, v in t.items()} == {k: set(v) for k, v in T.tags.items()}:
            check_set(T, dict(T.tags), runs, len(ch), "selected channels")
    keep = sorted({k % len(runs) for k in case["runs"]})
    if keep:
        check_set(S.select_runs(keep), tags, [runs[k] for k in keep], n, "selected runs")
    names = sorted(tags)
    for k in names[:case["drop"]]:
        del S.tags[k]
        tags.pop(k)
    if case["add"]:
        S.tags["Added"] = 0
        tags["Added"] = (0,)
    check_set(S, tags, runs, n, "tags edited")
    ctx.nontrivial(len(runs) > 1 and len(tags) > 1)
    ctx.label(f"{len(runs)} runs", "many tags" if len(tags) > 6 else "few tags", "before 1970" if runs[0][2] < 0 else "after 1970")


# ---------------------------------------------------------------- inventories

def inventory_cases():
    return st.fixed_dictionaries(dict(sets=st.lists(sets(3), max_size=5)))


def run_inventory(case, ctx):
    built = [build(s) for s in case["sets"]]
    built = [b for b in built if b[2]]
    inv = Inventory([b[0] for b in built])
    text = repr(inv)
    ensure(text.startswith("Inventory(") and str(inv) == text, "repr %r", text)
    pos = 0
    for S, _, _, _ in built:
        pos = text.find(repr(S), pos)
        ensure(pos >= 0, "repr %r without %r", text, S)
    for name, k in (("sampling_rates", 0), ("starts", 2), ("stops", 3)):
        got = list(getattr(inv, name))
        ensure(len(got) == len(built), "%s: %d for %d elements", name, len(got), len(built))
        for g, (_, _, runs, _) in zip(got, built):
            ensure(np.shape(g) == (len(runs),) and all(abs(a - r[k]) <= 1e-6 for a, r in zip(g, runs)), "%s: %s for %s", name, g, runs)
    for g, (_, _, runs, _) in zip(list(inv.intervals), built):
        ensure(np.shape(g) == (len(runs), 2) and all(abs(a[0] - r[2]) <= 1e-6 and abs(a[1] - r[3]) <= 1e-6 for a, r in zip(g, runs)), "intervals: %s for %s", g, runs)
    ensure(inv.tags == set().union(*[b[1] for b in built]), "tags %s", inv.tags)
    ensure(len(inv) == len(built) and bool(inv) == bool(built), "length %s", len(inv))
    ctx.nontrivial(len(built) > 1)


SUBS = [
    Sub("sets", cases, run, "several runs and tags", quick=1200, thorough=60000, qshards=4),
    Sub("wide", lambda: wide.sizes(n=(1, 60), runs=(1, 120), tags=(0, 90)), wide.wide(expand, run), "several runs and tags", quick=60, thorough=3000),
    Sub("inventories", inventory_cases, run_inventory, "several elements", quick=200, thorough=10000, qshards=2),
]
