"""C29: tags are extracted from paths exactly as the pattern says."""
import os
import string

from hypothesis import strategies as st

from rzbv import est
from rzbv.engine import Sub, ensure, refuses
from rzbv.num import rng
from rzbv.sut import rzb  # noqa
from razorback.utils import tags_from_path

WORD = set(string.ascii_letters + string.digits + "_")
FIELDS = ["a", "b", "site", "channel", "x1", "_y", "Type", "A_b2"]
LITERAL = ["a", "b", "c", "A", "1", "_", ".", "-", " ", "+", "(", ")", "^", "$", "|", "\\", "site", "meas", "_T", ".ats", "Set", "é", "#", "\n", "&", "~", ",", "=", "x.y", "(?:a)", "a+", "\\d", "\\Z"]
SETS = ["[abc]", "[a-c]", "[!abc]", "[!a-c]", "[]]", "[!]]", "[]a]", "[^a]", "[*]", "[!*]", "[a*?]", "[?]", "[.]", "[!.]", "[0-9]", "[!0-9]", "[a-]", "[-a]", "[b-a]", "[!b-a]", "[\\]", "[a/b]", "[!/]", "[[]", "[![]", "[!!]", "[&&]", "[a||b]", "[~~]", "[--a]", "[!-]", "[xX_.]"]


# ---------------------------------------------------------------- model

def parse(pat):
    """normalised pattern -> tokens (kind, arg)"""
    out, i = [], 0
    while i < len(pat):
        c = pat[i]
        if c == "{":
            j = pat.index("}", i)
            out.append(("field", pat[i + 1:j]))
            i = j + 1
        elif pat.startswith("**", i):
            out.append(("any", None))
            i += 2
        elif c == "*":
            out.append(("level", None))
            i += 1
        elif c == "?":
            out.append(("one", None))
            i += 1
        else:
            if c == "[":
                j = i + 1
                if pat[j:j + 1] == "!":
                    j += 1
                j = pat.find("]", j + 1)
                if j >= 0:
                    seq = pat[i + 1:j]
                    out.append(("set", seq))
                    i = j + 1
                    continue
            out.append(("char", c))
            i += 1
    return out


def in_set(c, seq):
    neg = seq.startswith("!")
    seq = seq[neg:]
    res, i = False, 0
    while i < len(seq):
        if i + 2 < len(seq) and seq[i + 1] == "-":
            res |= seq[i] <= c <= seq[i + 2]
            i += 3
        else:
            res |= seq[i] == c
            i += 1
    return res != neg


def captures(tokens, name):
    """all the possible texts of the fields: set of tuples"""
    memo = {}

    def rec(k, i):
        if (k, i) in memo:
            return memo[k, i]
        if k == len(tokens):
            res = {()} if i == len(name) else set()
        else:
            kind, arg = tokens[k]
            res = set()
            if kind in ("any", "level", "field"):
                j = i
                while True:
                    if j > i or kind != "field":
                        rest = rec(k + 1, j)
                        res |= {(name[i:j],) + r for r in rest} if kind == "field" else rest
                    if j == len(name) or kind == "level" and name[j] == "/" or kind == "field" and name[j] not in WORD:
                        break
                    j += 1
            elif i < len(name):
                c = name[i]
                if kind == "one" or kind == "char" and c == arg or kind == "set" and in_set(c, arg):
                    res = rec(k + 1, i + 1)
        memo[k, i] = res
        return res
    return rec(0, 0)


def fill(parts, fields, values):
    return "".join((values[x % len(fields)] if fields else "") if isinstance(x, int) else x.replace("{{", "{").replace("}}", "}") for x in parts)


# ---------------------------------------------------------------- patterns

def parts():
    return st.one_of(
        st.sampled_from(LITERAL).map(lambda s: ["char", s]), st.sampled_from(LITERAL).map(lambda s: ["char", s]), st.just(["char", "/"]), st.just(["char", "/"]),
        st.just(["field", ""]), st.just(["field", ""]), st.just(["char", "*"]), st.just(["char", "**"]), st.just(["char", "?"]), st.sampled_from(SETS).map(lambda s: ["set", s]))


def cases():
    return st.fixed_dictionaries(dict(
        parts=st.lists(parts(), min_size=1, max_size=9), prefix=st.sampled_from(["", "", "", "./", "/", "a/../", "../", "c//", "/./", "//"]), suffix=st.sampled_from(["", "", "", "/", "/."]), open=st.sampled_from([0, 0, 0, 1]),
        seed=est.seeds, n=est.upto(1, 12, 200), tpls=st.lists(st.lists(st.one_of(st.sampled_from(["_", "-", "site", "", "{{", "}}"]), st.integers(0, 9)), min_size=1, max_size=4), max_size=3), how=st.sampled_from(["list", "iter", "tuple"]), dup=st.booleans()))


def build(case):
    names = rng(case["seed"]).permutation(len(FIELDS)).tolist()
    text, k = case["prefix"], 0
    for kind, arg in case["parts"]:
        if kind == "field":
            if k < 4:
                text += "{%s}" % FIELDS[names[k]]
                k += 1
        else:
            text += arg
    if case["open"] and "]" not in text:
        # a bracket that is never closed is itself
        text = text.replace("/", "/[", 1) if "/" in text else "[" + text
    return text + case["suffix"]


def make_name(tokens, r):
    """a name that matches, most of the time"""
    out = ""
    for kind, arg in tokens:
        if kind == "char":
            out += arg
        elif kind == "field":
            out += "".join(r.choice(list("abcAB019_")) for _ in range(r.randint(1, 4)))
        elif kind == "one":
            out += r.choice(list("abc.+[/-é "))
        elif kind == "set":
            ok = [c for c in "abcdx019.*?!-^[]/\\&|~_A" if in_set(c, arg)]
            out += r.choice(ok) if ok else "z"
        elif kind == "level":
            out += "".join(r.choice(list("ab1_.-\\")) for _ in range(r.randint(0, 4)))
        else:
            out += "".join(r.choice(list("ab1_/.\\")) for _ in range(r.randint(0, 5)))
    return out


def mutate(name, r):
    k = r.randint(0, 7)
    i = r.randint(0, len(name) + 1)
    c = r.choice(list("abAB1_./-*?[]{}é\n\\ "))
    if k == 0:
        return name[:i] + c + name[i:]
    if k == 1:
        return name[:i] + name[i + 1:]
    if k == 2:
        return name[:i] + c + name[i + 1:]
    if k == 3:
        return name + c
    if k == 4:
        return name.swapcase()
    if k == 5:
        return name.replace("/", "//", 1) if "/" in name else "./" + name
    return c + name


def run(case, ctx):
    pattern = build(case)
    norm = os.path.normpath(pattern)
    fields = [p.split("}")[0] for p in pattern.split("{")[1:]]
    tokens = parse(norm)
    if [a for k, a in tokens if k == "field"] != fields:
        ctx.label("field removed by ..")
        return
    r = rng(case["seed"] + 1)
    names = []
    for _ in range(case["n"]):
        name = make_name(tokens, r)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            name = mutate(name, r)
        names.append(name or "a")
    if case["dup"]:
        names += names[:2]
    tpls = []
    for t in case["tpls"]:
        tpls.append("".join("{%s}" % fields[x % len(fields)] if isinstance(x, int) and fields else "" if isinstance(x, int) else x for x in t))
    arg = dict(list=list, iter=iter, tuple=tuple)[case["how"]](names)
    got = list(tags_from_path(arg, pattern, *tpls))
    i = 0
    for name in names:
        found = captures(tokens, os.path.normpath(name))
        what = f"pattern {pattern!r}, name {name!r}"
        if not found:
            ctx.label("no match")
            continue
        ensure(i < len(got) and got[i][0] == name, "%s: missing, got %s for %s", what, got, names)
        labels = [[fill(t, fields, f) for t in case["tpls"]] for f in found]
        ensure(list(got[i][1]) in labels, "%s, templates %s: got %s, expected %s", what, tpls, got[i][1], labels[:5])
        ctx.label("match", "ambiguous" if len(found) > 1 else "unambiguous")
        if fields:
            ctx.nontrivial()
        i += 1
    ensure(i == len(got), "pattern %r: matched %s of %s", pattern, got[i:], names)


# ---------------------------------------------------------------- many fields, levels, templates

def many_cases():
    return st.fixed_dictionaries(dict(seed=est.seeds, fields=st.integers(1, 24), levels=st.integers(1, 30), names=st.integers(1, 60), tpls=st.integers(0, 12)))


def run_many(case, ctx):
    """a field, or literals around one, at each level: a single way to match"""
    r = rng(case["seed"])
    nf = case["fields"]
    names = [FIELDS[i] if i < len(FIELDS) else f"f{i}" for i in r.permutation(nf)]
    levels = [[] for _ in range(max(nf, case["levels"]))]
    for k, i in enumerate(sorted(r.permutation(len(levels))[:nf].tolist())):
        levels[i] = [k]
    pre = [r.choice(["", "", "site-", "x.", "run "]) for _ in levels]
    post = [r.choice(["", "", "-a", ".ats", " "]) if lv else r.choice(["a", "meas", ".x"]) for lv in levels]
    pattern = "/".join(a + "".join("{%s}" % names[k] for k in lv) + b for a, lv, b in zip(pre, levels, post))
    paths, want = [], []
    tpls, build = [], []
    for _ in range(case["tpls"]):
        ks = r.randint(0, nf, r.randint(0, 6)).tolist()
        sep = r.choice(["", "_", "::", "-"])
        build.append((ks, sep))
        tpls.append(sep.join("{%s}" % names[k] for k in ks))
    for _ in range(case["names"]):
        values = ["".join(r.choice(list("abcAB019_")) for _ in range(r.randint(1, 5))) for _ in range(nf)]
        parts = [a + "".join(values[k] for k in lv) + b for a, lv, b in zip(pre, levels, post)]
        bad = r.randint(0, 6)
        i = r.randint(len(levels))
        if bad == 0:
            parts[i] += "+"
        elif bad == 1:
            parts.insert(i, "more")
        elif bad == 2 and levels[i]:
            parts[i] = pre[i] + "a!b" + post[i]
        elif bad == 3 and levels[i]:
            parts[i] = pre[i] + post[i] or "+"
        path = "/".join(parts)
        paths.append(path)
        if path == "/".join(a + "".join(values[k] for k in lv) + b for a, lv, b in zip(pre, levels, post)):
            want.append((path, [sep.join(values[k] for k in ks) for ks, sep in build]))
        elif captures(parse(os.path.normpath(pattern)), os.path.normpath(path)):
            return  # by chance
    got = [(n, list(t)) for n, t in tags_from_path(paths, pattern, *tpls)]
    ensure(got == want, "pattern %r, templates %s: got %s, expected %s", pattern, tpls, got, want)
    ctx.nontrivial(bool(want) and nf > 1)
    ctx.label("many fields" if nf > 8 else "few fields")


# ---------------------------------------------------------------- refusals

BADFIELDS = ["", "0", "1a", "a.b", "a[0]", "a!r", "a:3", "a b", "a-b", "a!s:4", ":", "a,", "a/b", " a", "a "]


def refusal_cases():
    return st.fixed_dictionaries(dict(
        good=st.lists(st.sampled_from(FIELDS), max_size=3, unique=True), bad=st.one_of(st.sampled_from(BADFIELDS), st.text(" ab1.-_:!", min_size=1, max_size=4)), at=st.integers(0, 3), where=st.sampled_from(["pattern", "template", "unknown", "fine"]), names=st.booleans(), before=st.sampled_from([0, 1, 2])))


def identifier(s):
    if s.endswith(":"):
        s = s[:-1]  # an empty format specification
    return bool(s) and set(s) <= WORD and s[0] not in string.digits


def run_refusals(case, ctx):
    good, bad, where = list(case["good"]), case["bad"], case["where"]
    pattern = "_" + "/".join("{%s}" % f for f in good)
    if where == "pattern":
        if identifier(bad):
            return
        g = list(good)
        g.insert(case["at"] % (len(g) + 1), bad)
        pattern, tpl = "_" + "/".join("{%s}" % f for f in g), "x"
    elif where == "template":
        if identifier(bad):
            return
        tpl = "".join("{%s}" % f for f in good) + "{%s}" % bad
    elif where == "unknown":
        other = [f for f in FIELDS if f not in good][case["at"] % 3]
        tpl = "".join("{%s}" % f for f in good) + "{%s}" % other
    else:
        tpl = "x" + "".join("{%s}" % f for f in good)
    names = ["_" + "/".join(["v"] * max(1, len(good)))] if case["names"] else []
    tpls = ["ok"] * case["before"] + [tpl]
    if where == "fine":
        got = list(tags_from_path(names, pattern, *tpls))
        want = [(n, ["ok"] * case["before"] + ["x" + "v" * len(good)]) for n in names if good]
        ensure([(n, list(t)) for n, t in got] == want, "%s %s %s: %s", names, pattern, tpls, got)
    else:
        refuses(f"pattern {pattern!r} templates {tpls} names {names}", lambda: list(tags_from_path(names, pattern, *tpls)), ValueError)
    ctx.nontrivial(where != "fine")
    ctx.label(where)


SUBS = [
    Sub("patterns", cases, run, "a name matches a pattern with fields", quick=2400, thorough=120000, qshards=4),
    Sub("many", many_cases, run_many, "several fields, some name matches", quick=150, thorough=10000),
    Sub("refusals", refusal_cases, run_refusals, "something to refuse", quick=500, thorough=20000, qshards=1),
]
