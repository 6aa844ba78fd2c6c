import gen
from pcommon import Sess, subset, CHUNKS
from plans_reach import dim
from plans_weighted import attr, noise

WK = ["one", "one", "cubes", "cubes", "cubes0", "iso8", "pos"]


def some(rng, nd):
    r = rng.random()
    if r < 0.4:
        return {"sel": "all", "S": [], "u": 0}
    if r < 0.6 and nd:
        return {"sel": "one", "u": rng.choice(nd) if rng.random() < 0.94 else 0, "S": []}
    return {"sel": "some", "S": subset(rng, nd) + ([0] if rng.random() < 0.08 else []), "u": 0}


def wargs(s, rng, ok=True):
    wt = ok and rng.random() < 0.5
    kw = {"wt": wt}
    if wt and s.b["route"] == "nx":
        kw["attr"] = s.b.get("attr", "weight")
    return kw


UNDOPS = ["triangles", "transitivity", "clustering", "clustering", "avg_clust", "gen_degree"]
DIROPS = ["transitivity", "clustering", "clustering", "avg_clust"]


def add_cluster(s, g, gr, rng, op=None, a=None):
    nd = gr["nd"]
    op = op or rng.choice(DIROPS if gr["dir"] else UNDOPS + ["sq_clust"])
    via = rng.choice(["api", "api", "nx"])
    a = a or some(rng, nd)
    h = {"kind": rng.choice(["list", "set", "gen", "iter"])}
    if op == "triangles":
        s.add(op, g, via=via, h=h, **a)
    elif op == "transitivity":
        s.add(op, g, via=via, sel="all", S=[], u=0)
    elif op == "clustering":
        s.add(op, g, via=via, h=h, **a, **wargs(s, rng))
    elif op == "avg_clust":
        if a["sel"] == "one":
            a = {"sel": "some", "S": [a["u"]], "u": 0}
        s.add(op, g, via=via, cz=rng.random() < 0.6, h=h, **a, **wargs(s, rng))
    elif op == "gen_degree":
        s.add(op, g, via=via, h=h, **a)
    elif op == "sq_clust":
        if rng.random() < 0.85:
            h["chunk"] = rng.choice(CHUNKS)
        s.add(op, g, via=via, h=h, **a)


def every(s, g, gr, rng, ops):
    nd = gr["nd"]
    for op in ops:
        add_cluster(s, g, gr, rng, op, {"sel": "all", "S": [], "u": 0})
        for u in nd:
            add_cluster(s, g, gr, rng, op, {"sel": "one", "u": u, "S": []})
        add_cluster(s, g, gr, rng, op, {"sel": "some", "S": subset(rng, nd), "u": 0})


def dt_ok(b):
    """Small unsigned types overflow in intermediate products; out of scope."""
    return True


def graph(s, gr, rng, **kw):
    from pcommon import route
    b = None
    while b is None or not dt_ok(b):
        b = route(rng, gr, s.lab, **kw)
    return s.graph(gr, ["hop", "wd"] if kw.get("derive") else [], b=b)


def c09(rng, tier, shard, nsh):
    big = tier == "thorough"
    small = gen.all_small(3, 4)
    for i, (n, d, E) in enumerate(small):
        if i % nsh != shard or (not big and n == 3 and d and rng.random() < 0.3):
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(WK))
        s = Sess(rng, dim(gr))
        g = graph(s, gr, rng, nx_ok=False)
        every(s, g, gr, rng, sorted(set(DIROPS if d else UNDOPS)))
        s.project(g)
        yield s.done()
    for i in range(320 if not big else 7000):
        gr = gen.rand_graph(rng, rng.choice([5, 6, 8, 9]), wkinds=WK)
        s = Sess(rng, dim(gr))
        g = graph(s, gr, rng, raw_ok=True)
        noise(s, g, rng)
        for _ in range(10):
            add_cluster(s, g, gr, rng)
        s.project(g)
        yield s.done()
    for i in range(70 if not big else 900):  # one or two known properties, then node by node
        d = rng.random() < 0.25
        gr = gen.rand_graph(rng, 6, dir=d, nmin=3, wkinds=["one", "zero", "cubes0", "cubes0", "iso8"])
        und = ["degrees+", "degrees+", "degrees-", "L-", "U-", "L+", "diag", "offdiag", "has_self_edges"]
        L = und if not d else ["offdiag", "total_degrees-", "recip_degrees-", "total_degrees+", "has_self_edges"]
        s = Sess(rng, dim(gr))
        g = graph(s, gr, rng, nx_ok=False)
        s.add("touch", g, names=rng.sample(sorted(set(L)), 1 if rng.random() < 0.5 else 2) if rng.random() < 0.6 else [L[0]])
        op = rng.choice(["clustering", "clustering", "triangles", "gen_degree"]) if not d else "clustering"
        for u in gr["nd"]:
            add_cluster(s, g, gr, rng, op, {"sel": "one", "u": u, "S": []})
        add_cluster(s, g, gr, rng)
        s.project(g)
        yield s.done()
    for i in range(12 if not big else 200):
        gr = gen.rand_graph(rng, 15, nmin=11, wkinds=WK)
        s = Sess(rng, dim(gr))
        g = graph(s, gr, rng)
        for _ in range(5):
            add_cluster(s, g, gr, rng)
        yield s.done()
    for n, kind, d in gen.big_set(shard) * (1 if not big else 12):
        gr = gen.big_graph(rng, n, wkinds=("one", "cubes"), kind=kind, dir=d)
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        noise(s, g, rng)
        for _ in range(4):
            add_cluster(s, g, gr, rng)
        yield s.done()
    if shard % 4 == 2:  # more than 127 triangles on an edge, more than 8000 on a node
        gr = gen.big_graph(rng, 133, dir=False, wkinds=("one",), loops=False, kind="dense")
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        for op in ("triangles", "gen_degree", "clustering", "transitivity"):
            add_cluster(s, g, gr, rng, op, {"sel": "some", "S": rng.sample(gr["nd"], 3), "u": 0} if op != "transitivity" else None)
        yield s.done()




def c10(rng, tier, shard, nsh):
    big = tier == "thorough"
    small = gen.all_small(0, 5, loops_und=False)
    for i, (n, d, E) in enumerate(small):
        if d or i % nsh != shard or (not big and n == 5 and rng.random() < 0.3):
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(["one", "pos", "iso"]))
        s = Sess(rng, dim(gr))
        g = graph(s, gr, rng, nx_ok=False)
        every(s, g, gr, rng, ["sq_clust"])
        s.project(g)
        yield s.done()
    for i in range(300 if not big else 7000):
        gr = gen.rand_graph(rng, rng.choice([5, 6, 8, 9, 10]), dir=False, wkinds=["one", "pos", "iso", "zero"], loops=False)
        s = Sess(rng, dim(gr))
        g = graph(s, gr, rng, raw_ok=True)
        noise(s, g, rng)
        for _ in range(10):
            add_cluster(s, g, gr, rng, "sq_clust")
        s.project(g)
        yield s.done()
    for i in range(12 if not big else 200):
        gr = gen.rand_graph(rng, 14, nmin=11, dir=False, wkinds=["one"], loops=False)
        s = Sess(rng, dim(gr))
        g = graph(s, gr, rng)
        for _ in range(5):
            add_cluster(s, g, gr, rng, "sq_clust")
        yield s.done()
    for n, kind, d in gen.big_set(shard) * (1 if not big else 12):
        gr = gen.big_graph(rng, n, dir=False, wkinds=("one",), loops=False, kind=kind)
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        for _ in range(3):
            add_cluster(s, g, gr, rng, "sq_clust")
        yield s.done()


PLANS = {"C09": c09, "C10": c10}
