"""Property cache (C01): reads of named properties in every kind of history."""
import gen
from pcommon import Sess, subset
from plans_reach import dim

OPS4 = ["count", "plus", "min", "max"]
COMMON = (["A", "AT", "offdiag", "U+", "L+", "U-", "L-", "diag", "is_iso", "iso_value", "has_negative_diagonal",
           "has_negative_edges-", "has_negative_edges+", "has_self_edges",
           "row_degrees+", "row_degrees-", "column_degrees+", "column_degrees-"]
          + [f"{o}_{ax}wise{s}" for o in OPS4 for ax in ("row", "column") for s in "+-"]
          + [f"{o}_element{s}" for o in OPS4 for s in "+-"]
          + ["min_diagonal", "max_diagonal", "plus_diagonal", "count_diagonal"])
DIR = ["recip_degrees+", "recip_degrees-", "total_degrees+", "total_degrees-", "total_recip+", "total_recip-"]
UND = ["degrees+", "degrees-"]
# the properties whose caching rules interact (each rule mentions the others)
CORE = ["AT", "offdiag", "U+", "L+", "U-", "L-", "diag", "has_self_edges", "iso_value", "is_iso",
        "has_negative_diagonal", "has_negative_edges-", "has_negative_edges+",
        "min_element+", "min_element-", "min_diagonal", "count_rowwise+", "count_rowwise-",
        "min_rowwise+", "min_rowwise-"]


def names(dir):
    return COMMON + (DIR if dir else UND)


def core(dir):
    return CORE + (DIR if dir else [])


def legal(n, dtype):
    # "plus" over booleans is logical, and not one of the numeric reductions the specification gives
    return not (dtype in ("BOOL", None) and n.startswith("plus"))


def noise_props(rng, dir, dtype=None):
    L = [x for x in names(dir) if legal(x, dtype)]
    return [rng.sample(L, rng.randint(1, 3)) for _ in range(rng.randint(1, 3))]


def maskable(n):
    import ops_props
    return ops_props.describe(n)["pk"] in ("diag", "red", "recip", "total")


def read(s, g, n, mask=None, h=None):
    import ops_props
    d = ops_props.describe(n)
    s.add("prop", g, via="core", m=[] if mask is None else [mask], h=h or {}, o=0, **d)


def reads(s, g, ns, form):
    import ops_props
    s.add("props", g, via="core", ps=[dict(ops_props.describe(n), m=[], o=0) for n in ns], h={"form": form})


WK = ["one", "iso", "isoneg", "isozero", "pos", "zero", "neg1", "mixed", "mixed", "negall"]


def build_opts(rng, gr, lab):
    from pcommon import route
    while True:
        b = route(rng, gr, lab, nx_ok=False)
        if b["dtype"] not in ("UINT8", "INT8"):
            return b


def history(s, g, gr, rng, n, pool, algs=True):
    dt = s.b["dtype"]
    pool = [x for x in pool if legal(x, dt)]
    for _ in range(n):
        r = rng.random()
        if r < 0.12:
            reads(s, g, [rng.choice(pool) for _ in range(rng.randint(1, 5))], rng.randint(0, 3))
        elif r < 0.30:
            nm = rng.choice([x for x in pool if maskable(x)] or ["diag"])
            read(s, g, nm, subset(rng, gr["nd"]), {"plural": int(rng.random() < 0.3), "value": int(rng.random() < 0.3)})
        elif r < 0.38 and algs:
            import plans_all
            plans_all.add_any(s, g, gr, rng)
        else:
            read(s, g, rng.choice(pool), None, {"plural": int(rng.random() < 0.15)})


SPECIAL = [  # small graphs that separate the caching rules (dir, n, edges with weights)
    (d, n, E) for d in (True, False) for n, E in [
        (1, []), (1, [(1, 1, 1)]), (1, [(1, 1, -1)]), (2, []), (2, [(1, 2, 1)]), (2, [(1, 2, -1)]),
        (2, [(1, 1, 1), (1, 2, 1)]), (2, [(1, 1, -2), (1, 2, 3)]), (2, [(1, 1, 2), (1, 2, -3)]),
        (2, [(1, 1, -2), (2, 2, 1), (1, 2, -3)]), (2, [(1, 1, 2), (2, 2, 2)]), (2, [(1, 1, 0), (1, 2, 0)]),
        (3, [(1, 2, 2), (2, 3, -1), (3, 3, -1)]), (3, [(1, 2, 2), (2, 3, 1), (3, 3, 4)]),
        (3, [(2, 1, 2), (3, 1, 5), (2, 2, 2)]), (3, [(1, 2, 2), (1, 3, 2)]),
    ]
] + [(True, 2, [(1, 2, 1), (2, 1, 3)]), (True, 2, [(1, 2, 1), (2, 1, 1), (1, 1, 1)]),
     (True, 3, [(1, 2, 1), (2, 1, -3), (2, 3, 1), (3, 3, 2)]), (True, 3, [(3, 1, 1), (2, 1, 2), (3, 2, 1), (2, 3, 1)])]


def c01(rng, tier, shard, nsh):
    big = tier == "thorough"
    # 1. every ordered pair (quick) of property reads on separating graphs, plus every third one sampled
    k = 0
    for d, n, E in SPECIAL:
        gr = gen.mk(n, list(range(1, n + 1)), d, E)
        pool = names(d)
        prs = [(p, q) for p in pool for q in pool if p != q]
        for p, q in prs:
            k += 1
            if k % nsh != shard:
                continue
            if tier == "quick" and (p not in core(d) or q not in core(d)) and rng.random() < 0.75:
                continue
            s = Sess(rng, n)
            g = s.graph(gr, b=build_opts(rng, gr, s.lab))
            pp = [x for x in (p, q) if legal(x, s.b["dtype"])]
            for x in pp:
                read(s, g, x)
            for x in rng.sample(core(d), 2):
                if legal(x, s.b["dtype"]):
                    read(s, g, x)
            yield s.done()
    # 2. every small graph with a random longer history
    small = gen.all_small(3, 3)
    for i, (n, d, E) in enumerate(small):
        if i % nsh != shard:
            continue
        for _ in range(2 if not big else 20):
            gr = gen.relabel(rng, n, d, E, rng.choice(WK))
            s = Sess(rng, dim(gr))
            g = s.graph(gr, b=build_opts(rng, gr, s.lab))
            history(s, g, gr, rng, rng.choice([6, 12]), core(d) if rng.random() < 0.5 else names(d), algs=False)
            yield s.done()
    # 3. random graphs, long histories mixed with algorithm calls
    for i in range(260 if not big else 8000):
        gr = gen.rand_graph(rng, rng.choice([3, 5, 7]), wkinds=WK)
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["hop", "wd"], b=build_opts(rng, gr, s.lab), unit=0.15)
        history(s, g, gr, rng, 14, core(gr["dir"]) if rng.random() < 0.4 else names(gr["dir"]),
                algs="unit" not in s.b)
        s.project(g)
        reads(s, g, [x for x in rng.sample(names(gr["dir"]), 8) if legal(x, s.b["dtype"])], 0)
        yield s.done()
    # 4. degrees beyond one byte
    for n in [50, 140, 270] * (1 if not big else 12):
        gr = gen.big_graph(rng, n, wkinds=("one", "pos", "mixed"), kind=rng.choice(["star", "star2", "bip", "er"]))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, b=build_opts(rng, gr, s.lab))
        history(s, g, gr, rng, 5, [x for x in names(gr["dir"]) if "wise" in x or "degrees" in x or "element" in x or "recip" in x], algs=False)
        yield s.done()


PLANS = {"C01": c01}
