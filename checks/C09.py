"""C09: tags always map legal names to in-range index tuples."""
import numpy as np
from hypothesis import strategies as st

from rzbv import wide
from rzbv.engine import Sub, ensure, refuses
from rzbv.model import SignalSet, SyncSignal, Tags
from checks.C08 import glob

GOOD = ["a", "Ex", "E", "Hx_1", "s::E", "élan", "b 2", "x-y", "Zz", "E2"]
IDENT = ["a", "Ex", "E", "Hx_1", "Zz", "E2"]
BAD = ["", "1a", "_x", " a", "-", "2", None, 3, ["a"], "$x", "::", "\u2167", "\u00b2a", "\u0301e"]
FORMS = ["item", "attr", "update", "update_kw", "setdefault"]

n_strat = st.integers(1, 6)


def good_value(n):
    one = st.integers(0, n - 1)
    many = st.lists(one, min_size=1, max_size=4)
    return st.one_of(one.map(lambda i: ["scalar", i]), one.map(lambda i: ["npscalar", i]),
                     many.map(lambda v: ["list", v]), many.map(lambda v: ["tuple", v]),
                     many.map(lambda v: ["array", v]), many.map(lambda v: ["iter", v]),
                     st.tuples(one, st.integers(1, 4)).map(lambda v: ["range", [v[0], min(n, v[0] + v[1])]]))


def bad_value(n):
    out = st.one_of(st.integers(n, n + 3), st.integers(-4, -1))
    mixed = st.tuples(st.lists(st.integers(0, n - 1), max_size=3), out, st.integers(0, 3)).map(
        lambda t: ["list", t[0][:t[2]] + [t[1]] + t[0][t[2]:]])
    return st.one_of(out.map(lambda i: ["scalar", i]), out.map(lambda i: ["npscalar", i]), mixed, mixed,
                     st.just(["list", []]), st.just(["array", []]), st.just(["iter", []]), st.just(["raw", ""]),
                     st.sampled_from(["ab", None, 1.5, [None], ["a"], [[0]]]).map(lambda v: ["raw", v]))


def decode(v):
    kind, x = v
    if kind == "npscalar":
        return np.int64(x)
    if kind == "tuple":
        return tuple(x)
    if kind == "array":
        return np.array(x, dtype=int)
    if kind == "iter":
        return iter(x)
    if kind == "range":
        return range(*x)
    return x


def expected(v):
    kind, x = v
    if kind in ("scalar", "npscalar"):
        return (x,)
    if kind == "range":
        return tuple(range(*x))
    return tuple(x)


@st.composite
def histories(draw):
    n = draw(n_strat)
    good, bad = good_value(n), bad_value(n)
    name, ident = st.sampled_from(GOOD), st.sampled_from(IDENT)
    step = st.one_of(
        st.tuples(st.just("set"), st.sampled_from(FORMS), ident, good),
        st.tuples(st.just("set"), st.sampled_from(["item", "update", "setdefault"]), name, good),
        st.tuples(st.just("bad_value"), st.sampled_from(FORMS[:4]), ident, bad),
        st.tuples(st.just("bad_name"), st.sampled_from(["item", "update"]), st.sampled_from(BAD), good),
        st.tuples(st.just("del"), st.sampled_from(["item", "attr", "pop"]), ident),
        st.tuples(st.just("popdef"), ident),
        st.tuples(st.just("clear")),
        st.tuples(st.just("popitem")),
        st.tuples(st.just("bigger"), st.lists(st.tuples(ident, good).map(list), max_size=4)),
    ).map(list)
    return dict(n=n, init=[[k, v] for k, v in draw(st.dictionaries(ident, good, max_size=3)).items()],
                steps=draw(st.lists(step, min_size=1, max_size=12)))


def check(t, m, n, what):
    ensure(dict(t) == m and dict(t.items()) == m, "%s: %s, expected %s", what, dict(t), m)
    ensure(len(t) == len(m) and list(t) == list(t.keys()) and set(t) == set(m), "%s: iteration", what)
    ensure(set(t.indices) == set(range(n)), "%s: range %s, expected %s indices", what, t.indices, n)
    for k, v in m.items():
        ensure(type(t[k]) is tuple and t[k] == v, "%s: item %s is %r, expected %r", what, k, t[k], v)
        ensure(getattr(t, k) == v, "%s: attribute %s is %r", what, k, getattr(t, k))
        ensure(k in t and t.get(k) == v, "%s: %s is missing", what, k)
    for k in GOOD:
        if k not in m:
            ensure(k not in t and t.get(k) is None, "%s: unexpected %s", what, k)
            refuses("item access to a missing name", lambda: t[k], KeyError)
            refuses("attribute access to a missing name", lambda: getattr(t, k), AttributeError)
    ensure(t == Tags(n, **m) and not t != Tags(n, **m), "%s: equality", what)
    if m:
        ensure(t != Tags(n + 1, **m), "%s: equal although the range is different", what)
        k = sorted(m)[0]
        ensure(t != Tags(n, **{q: v for q, v in m.items() if q != k}), "%s: equal to other tags", what)


def do_set(t, form, k, v):
    if form == "item":
        t[k] = v
    elif form == "attr":
        setattr(t, k, v)
    elif form == "update":
        t.update({k: v} if not isinstance(k, list) else [(k, v)])
    elif form == "update_kw":
        t.update(**{k: v})
    else:
        t.setdefault(k, v)


def run_history(case, ctx):
    n = case["n"]
    m = {k: expected(v) for k, v in case["init"]}
    t = Tags(n, **{k: decode(v) for k, v in case["init"]})
    check(t, m, n, "initial")
    refused = 0
    other = Tags(n, **m)
    om = dict(m)
    for s in case["steps"]:
        if s[0] == "set":
            do_set(t, s[1], s[2], decode(s[3]))
            if not (s[1] == "setdefault" and s[2] in m):
                m[s[2]] = expected(s[3])
        elif s[0] in ("bad_value", "bad_name"):
            refuses(f"{s}", lambda: do_set(t, s[1], s[2], decode(s[3])))
            refused += 1
        elif s[0] == "del":
            exc = {"item": KeyError, "attr": AttributeError, "pop": KeyError}[s[1]]
            func = {"item": lambda: t.__delitem__(s[2]), "attr": lambda: delattr(t, s[2]), "pop": lambda: t.pop(s[2])}[s[1]]
            if s[2] in m:
                v = func()
                if s[1] == "pop":
                    ensure(v == m[s[2]], "pop gave %r", v)
                del m[s[2]]
            else:
                refuses(f"{s}", func, exc)
                refused += 1
        elif s[0] == "popdef":
            ensure(t.pop(s[1], "default") == m.pop(s[1], "default"), "pop with default")
        elif s[0] == "clear":
            t.clear()
            m.clear()
        elif s[0] == "popitem":
            if m:
                k, v = t.popitem()
                ensure(k in m and m.pop(k) == v, "popitem gave %r, %r", k, v)
        elif s[0] == "bigger":
            t.update({k: decode(v) for k, v in s[1]})
            m.update({k: expected(v) for k, v in s[1]})
        check(t, m, n, f"after {s}")
        check(other, om, n, "another object")
    ctx.nontrivial(refused and len(case["steps"]) > 2)
    if refused:
        ctx.label("with refusals")


def expand(r, c):
    """a long history of tags of many channels"""
    n = c["n"]
    names = [wide.MANY[i] for i in r.permutation(len(wide.MANY))[:c["names"]]]
    ident = ["E"] + [k for k in names if k.isidentifier() and k != "E"]

    def good():
        kind = wide.pick(r, ["scalar", "npscalar", "list", "tuple", "array", "iter", "range"])
        if kind in ("scalar", "npscalar"):
            return [kind, int(r.randint(n))]
        if kind == "range":
            a = int(r.randint(n))
            return [kind, [a, int(r.randint(a, n)) + 1]]
        return [kind, [int(i) for i in r.randint(0, n, r.randint(1, 13))]]

    def bad():
        x = int(wide.pick(r, [n, n + 1, -1, -n, -n - 1, 1000]))
        v = [int(i) for i in r.randint(0, n, r.randint(0, 13))]
        v.insert(r.randint(len(v) + 1), x)
        return wide.pick(r, [["scalar", x], ["npscalar", x], ["list", v], ["tuple", v], ["array", v], ["iter", v], ["list", []]])
    steps = []
    for _ in range(c["steps"]):
        kind = wide.pick(r, ["set", "set", "set", "set", "ident", "bad", "bad", "name", "del", "popdef", "popitem", "bigger"])
        if kind == "set":
            steps.append(["set", wide.pick(r, ["item", "update", "setdefault"]), wide.pick(r, names), good()])
        elif kind == "ident":
            steps.append(["set", wide.pick(r, FORMS), wide.pick(r, ident), good()])
        elif kind == "bad":
            steps.append(["bad_value", wide.pick(r, FORMS[:4]), wide.pick(r, ident), bad()])
        elif kind == "name":
            steps.append(["bad_name", wide.pick(r, ["item", "update"]), wide.pick(r, BAD[:7]), good()])
        elif kind == "del":
            steps.append(["del", wide.pick(r, ["item", "attr", "pop"]), wide.pick(r, ident)])
        elif kind == "popdef":
            steps.append(["popdef", wide.pick(r, ident)])
        elif kind == "popitem":
            steps.append(["popitem"])
        else:
            steps.append(["bigger", [[wide.pick(r, ident), good()] for _ in range(r.randint(0, 20))]])
    return dict(n=n, init=[[k, good()] for k in ident if r.randint(2)], steps=steps)


# ---------------------------------------------------------------- construction

@st.composite
def constructions(draw):
    ident = st.sampled_from(IDENT)
    good = draw(st.dictionaries(ident, good_value(draw(n_strat)), max_size=4))
    n = draw(st.integers(1, 6))
    return dict(good=[[k, v] for k, v in good.items()], n=n, bad=draw(bad_value(n)), name=draw(ident), extra=draw(st.integers(0, 3)))


def run_construct(case, ctx):
    good = [(k, v) for k, v in case["good"] if v[0] != "iter"]
    m = {k: expected(v) for k, v in good}
    need = max((i for v in m.values() for i in v), default=-1) + 1
    check(Tags(**{k: decode(v) for k, v in good}), m, need, "inferred range")
    n = need + case["extra"]
    check(Tags(n, **{k: decode(v) for k, v in good}), m, n, "given range")
    refuses("range too small", lambda: Tags(need - 1, **m)) if need else None
    refuses("bad value", lambda: Tags(case["n"], **{case["name"]: decode(case["bad"])}))
    # attaching tags to a signal set
    nch = case["n"]
    sig = SyncSignal([np.arange(3.) + c for c in range(nch)], 1)
    if need <= nch:
        s = SignalSet(m, sig)
        check(s.tags, m, nch, "tags of a signal set given as dict")
        t = Tags(nch, **m)
        s = t | sig
        check(s.tags, m, nch, "tags of a signal set")
        t["Zz"] = 0
        s2 = SignalSet(t, sig)
        s2.tags["new"] = nch - 1
        check(s.tags, m, nch, "tags of the first signal set")
        check(t, dict(m, Zz=(0,)), nch, "tags given to a signal set")
        for bad in (Tags(nch + 1, out=nch), dict(out=nch), Tags(nch + 2, **m), dict(out=[0, nch + 1]), dict(out=-1)):
            refuses(f"tags {bad} for {nch} channels", lambda: setattr(s, "tags", bad))
            check(s.tags, m, nch, "after refused tags")
        s.tags = dict(only=nch - 1)
        check(s.tags, dict(only=(nch - 1,)), nch, "replaced tags")
    else:
        refuses("dict that does not fit", lambda: SignalSet(m, sig))
        refuses("tags that do not fit", lambda: SignalSet(Tags(**m), sig))
    ctx.nontrivial(len(m) > 0)
    ctx.label("fits" if need <= nch else "does not fit")


# ---------------------------------------------------------------- names of methods

METHODS = ["items", "keys", "values", "get", "update", "pop", "popitem", "clear", "setdefault", "filter", "filter_get", "copy", "sort"]


@st.composite
def method_cases(draw):
    n = draw(n_strat)
    name = st.sampled_from(METHODS)
    step = st.one_of(st.tuples(st.just("set"), st.sampled_from(["item", "attr"]), name, good_value(n)),
                     st.tuples(st.just("bad"), st.sampled_from(["item", "attr"]), name, bad_value(n)),
                     st.tuples(st.just("del"), st.sampled_from(["item", "attr"]), name)).map(list)
    return dict(n=n, a=draw(st.booleans()), steps=draw(st.lists(step, min_size=1, max_size=8)))


def run_methods(case, ctx):
    "names that are also methods of the mapping: item access and attribute access designate the same entries"
    n = case["n"]
    t, m = Tags(n), {}
    if case["a"]:
        t["a"] = n - 1
        m["a"] = (n - 1,)
    for s in case["steps"]:
        k = s[2]
        if s[0] == "set":
            do_set(t, s[1], k, decode(s[3]))
            m[k] = expected(s[3])
        elif s[0] == "bad":
            refuses(f"{s}", lambda: do_set(t, s[1], k, decode(s[3])))
        elif k in m:
            t.__delitem__(k) if s[1] == "item" else delattr(t, k)
            del m[k]
        else:
            refuses(f"{s}", lambda: t.__delitem__(k), KeyError)
        ensure(sorted(t) == sorted(m) and len(t) == len(m), "after %s: names %s, expected %s", s, sorted(t), sorted(m))
        for q, v in m.items():
            ensure(q in t and t[q] == v and type(t[q]) is tuple, "after %s: item %s is %r, expected %r", s, q, t[q], v)
            ensure(getattr(t, q) == v, "after %s: attribute %s is %r, expected %r", s, q, getattr(t, q), v)
        for q in METHODS:
            ensure((q in m) == (q in list(t)), "after %s: name %s", s, q)
    ctx.nontrivial(len(m) > case["a"])


# ---------------------------------------------------------------- filters

PATS = ["*", "E*", "?", "E?", "[aE]*", "[!E]*", "*_1", "Ex", "e*", "", "s::*", "*x*", "[A-Z]*", "??", "nothing", "* *"]


@st.composite
def filter_cases(draw):
    return dict(tags=[[k, v] for k, v in draw(st.dictionaries(st.sampled_from(GOOD), st.lists(st.integers(0, 5), min_size=1, max_size=3), max_size=7)).items()],
                pats=draw(st.lists(st.sampled_from(PATS), max_size=3)))


def run_filter(case, ctx):
    m = {k: tuple(v) for k, v in case["tags"]}
    t = Tags(6, **m)
    exp = [k for k in m if any(glob(k, p) for p in case["pats"])]
    res = t.filter(*case["pats"])
    ensure(sorted(res) == sorted(exp), "filter%s: %s, expected %s", case["pats"], res, exp)
    vals = tuple(sorted({i for k in exp for i in m[k]}))
    ensure(tuple(t.filter_get(*case["pats"])) == vals, "filter_get%s: %s, expected %s", case["pats"], t.filter_get(*case["pats"]), vals)
    check(t, m, 6, "after filter")
    ctx.nontrivial(0 < len(exp) < len(m))


SUBS = [
    Sub("history", histories, run_history, "three steps or more with a refusal", quick=500, thorough=20000),
    Sub("wide", lambda: wide.sizes(n=(1, 120), names=(8, 80), steps=(1, 60)), wide.wide(expand, run_history), "three steps or more with a refusal", quick=60, thorough=2000),
    Sub("construct", constructions, run_construct, "at least one tag", quick=300, thorough=10000),
    Sub("methods", method_cases, run_methods, "at least one name of method at the end", quick=200, thorough=6000),
    Sub("filter", filter_cases, run_filter, "some names match, some do not", quick=200, thorough=6000),
]
