"""Large descriptions (many runs, channels, tags, operands), drawn by a seeded generator from a few numbers so that
they stay small cases for the search and its shrinking; same formats as the strategies of model.py."""
from hypothesis import strategies as st

from .model import DECIMAL, DYADIC, GAPS, NAMES, STORAGES, T0_ANY, T0_DYADIC
from .num import rng

MANY = NAMES + [f"T{i}" for i in range(60)] + [f"s{i}::x" for i in range(60)]


def sizes(**limits):
    return st.fixed_dictionaries(dict(seed=st.integers(0, 2 ** 32 - 1), **{k: st.integers(*v) for k, v in limits.items()}))


def pick(r, seq):
    return seq[r.randint(len(seq))]


def base(r, max_rates=7):
    dyadic = bool(r.randint(2))
    fam, t0 = (DYADIC, T0_DYADIC) if dyadic else (DECIMAL, T0_ANY)
    rates = [str(fam[i]) for i in r.permutation(len(fam))[:r.randint(1, max_rates + 1)]]
    return dict(dyadic=dyadic, rates=rates, t0=pick(r, t0))


def runs(r, k, min_n=2, max_n=9, gaps=GAPS, max_rate=6):
    return [dict(r=int(r.randint(max_rate + 1)) if r.randint(3) == 0 else 0, q=pick(r, gaps), n=int(r.randint(min_n, max_n + 1)), cal=pick(r, [0, 1, 2, 2, 3, 4])) for _ in range(k)]


def indices(r, n, k):
    return [int(i) for i in r.permutation(n)[:k]]


def tags(r, nch, groups, full=False, max_group=12):
    names = [MANY[i] for i in r.permutation(len(MANY))]
    res = [[names.pop(), [c]] for c in range(nch) if full or r.randint(6)]
    res += [[names.pop(), indices(r, nch, r.randint(1, max_group + 1))] for _ in range(groups)]
    return [res[i] for i in r.permutation(len(res))]


def perm(r, n):
    return [int(i) for i in r.permutation(n)]


def set_desc(r, nruns, nch, groups, **k):
    return dict(nch=nch, tags=tags(r, nch, groups), runs=runs(r, nruns, **k), storage=pick(r, STORAGES), astags=bool(r.randint(2)))


def inventory(r, nsites, nslots, max_ch=4):
    sites = []
    for k in range(nsites):
        nch = r.randint(1, max_ch + 1)
        t = [["s%d::c%d" % (k, c), [c]] for c in range(nch) if r.randint(8)]
        t += [["s%d::g%d" % (k, g), indices(r, nch, r.randint(1, nch + 1))] for g in range(r.randint(3))]
        sites.append(dict(nch=int(nch), tags=t or [["s%d::c0" % k, [0]]]))
    slots = [dict(cuts=[[0, 99] if r.randint(6) else [int(x) for x in r.randint(0, 13, 4)] for _ in range(nsites)], group=[int(x) for x in r.randint(0, nsites, nsites)],
                  on=[bool(r.randint(40)) for _ in range(nsites)], el=int(r.randint(2)), cal=int(r.randint(3))) for _ in range(nslots)]
    return dict(base=base(r, 2), frame=runs(r, nslots, 3, 12, [4, 4, 4, 8, 12, 40]), sites=sites, slots=slots, order=int(r.randint(2 ** 30)), perm=int(r.randint(10 ** 6)), empty=1)


def wide(expand, run):
    """run on the expanded case"""
    def body(case, ctx):
        run(expand(rng(case["seed"]), case), ctx)
    return body
