import gen
from pcommon import Sess, subset
from plans_reach import dim
from plans_weighted import noise, scale

OPS = ["edge_boundary", "node_boundary", "cut_size", "volume", "normalized_cut_size", "conductance",
       "edge_expansion", "mixing_expansion", "node_expansion", "boundary_expansion", "is_dominating_set"]
EXTRA = {"edge_boundary", "node_boundary", "cut_size", "is_dominating_set", "normalized_cut_size", "conductance", "mixing_expansion"}
DUP = {"edge_boundary", "node_boundary", "cut_size", "is_dominating_set"}
TWO = {"edge_boundary", "node_boundary", "cut_size", "normalized_cut_size", "conductance", "edge_expansion",
       "mixing_expansion"}
WT = {"cut_size", "volume", "normalized_cut_size", "conductance", "edge_expansion", "mixing_expansion"}
WK = ["one", "iso", "pos", "pos", "zero", "mixed", "isozero"]


def sets(rng, nd, extra, dup):
    S = subset(rng, nd)
    r = rng.random()
    hasT, T = True, []
    if r < 0.35:
        hasT = False
    elif r < 0.55:
        T = subset(rng, [x for x in nd if x not in S])
    elif r < 0.65:
        T = list(S)
    else:
        T = subset(rng, nd)
    if extra and rng.random() < 0.1:
        (S if rng.random() < 0.5 else T).append(0)
    if dup and rng.random() < 0.1:
        X = S if rng.random() < 0.5 else T
        X.extend(X[:1])  # named twice
    return S, T, hasT


def add_cuts(s, g, gr, rng, op=None, a=None):
    nd = gr["nd"]
    op = op or rng.choice(OPS + ["edge_boundary", "cut_size"])
    S, T, hasT = a or sets(rng, nd, op in EXTRA, op in DUP)
    if op not in TWO:
        hasT, T = False, []
    if not hasT:
        T = []
    KS = ["list", "set", "fs", "tup", "dict"]
    KI = KS + ["iter"]
    h = {"ks": rng.choice(KI if op in EXTRA else KS), "kt": rng.choice(KS), "explicit": rng.random() < 0.3}
    e = {"S": S, "T": T, "hasT": hasT, "wt": op in WT and s.b["dtype"] != "BOOL" and rng.random() < 0.6, "data": "none"}
    isn = s.b["route"] == "nx"
    if op == "edge_boundary":
        e["data"] = rng.choice(["none", "none", "true", "attr"])
        if isn and (e["data"] == "true" and s.b.get("attr", "weight") != "weight"):
            e["data"] = "none"
    if isn and (e["wt"] or e["data"] != "none"):
        h["attr"] = s.b.get("attr", "weight")
    via = rng.choice(["api", "api", "nx"])
    s.add(op, g, via=via, h=h, **e)


def c12(rng, tier, shard, nsh):
    big = tier == "thorough"
    small = gen.all_small(3, 4)
    for i, (n, d, E) in enumerate(small):
        if i % nsh != shard or (not big and (n == 3 and d and rng.random() < 0.6 or n == 4 and rng.random() < 0.85)):
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(WK))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, nx_ok=False, raw_ok=True)
        nd = gr["nd"]
        subs = [[x for j, x in enumerate(nd) if m >> j & 1] for m in range(1 << n)]
        for S in subs:
            for T in [None] + subs:
                for op in rng.sample(OPS, 2):
                    add_cuts(s, g, gr, rng, op, (S, T or [], T is not None))
        for S in subs:
            for op in OPS:
                add_cuts(s, g, gr, rng, op, (S, [], False))
        s.project(g)
        yield s.done()
    for i in range(300 if not big else 7000):
        gr = scale(rng, gen.rand_graph(rng, rng.choice([5, 7, 9, 12]), wkinds=WK))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, raw_ok=True, unit=0.15)
        noise(s, g, rng)
        for _ in range(14):
            add_cuts(s, g, gr, rng)
        s.project(g)
        yield s.done()
    for n in [50, 140, 270] * (1 if not big else 12):
        gr = gen.big_graph(rng, n, wkinds=("one",))
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        noise(s, g, rng)
        for _ in range(8):
            add_cuts(s, g, gr, rng)
        yield s.done()


PLANS = {"C12": c12}
