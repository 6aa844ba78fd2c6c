import gen
from pcommon import Sess, subset
from plans_reach import dim
from plans_weighted import noise, scale

OPS = ["adjacency_matrix", "laplacian_matrix", "laplacian_matrix", "normalized_laplacian_matrix"]
UND = ["modularity_matrix", "bethe_hessian_matrix"]
DIR = ["directed_modularity_matrix", "directed_modularity_matrix"]
WK = ["one", "iso", "pos", "pos", "zero", "mixed", "isozero"]
WKN = ["one", "iso4", "pos4", "zero"]


def nodelist(rng, nd):
    r = rng.random()
    if r < 0.4:
        return []
    if r < 0.75:
        return [rng.sample(nd, len(nd))]
    if r < 0.93:
        return [subset(rng, nd, 1 if nd else 0)]
    if r < 0.95:
        return [[]]
    if r < 0.975 and nd:
        return [nd + [rng.choice(nd)]]
    return [nd + [0]]


def add_mat(s, g, gr, rng, op=None, nl=None):
    nd = gr["nd"]
    op = op or rng.choice(OPS + (DIR if gr["dir"] else UND) + (UND + DIR if rng.random() < 0.08 else []))
    if s.b["route"] == "raw" and (op in UND):
        return
    isn = s.b["route"] == "nx"
    h = {"tup": rng.random() < 0.3, "explicit": rng.random() < 0.3}
    kw = {"nl": nodelist(rng, nd) if nl is None else nl, "h": h}
    kw["wt"] = rng.random() < 0.6
    if op == "bethe_hessian_matrix":
        kw["wt"] = not isn
        kw["r"] = [] if rng.random() < 0.5 else rng.choice([[0, 1], [1, 1], [2, 1], [3, 2], [-1, 1], [5, 4], [-7, 4], [10, 1]])
    elif kw["wt"] and isn:
        h["attr"] = s.b.get("attr", "weight")
    if op == "adjacency_matrix" and rng.random() < 0.3 and not isn:
        h["dtype"] = rng.choice(["float", "f32"])
    s.add(op, g, **kw)


def c16(rng, tier, shard, nsh):
    big = tier == "thorough"
    for i, (n, d, E) in enumerate(gen.all_small(3, 4)):
        if i % nsh != shard:
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(WK), extra=rng.choice([0, 0, 1]))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, raw_ok=True)
        for op in sorted(set(OPS + (DIR if d else UND))):
            add_mat(s, g, gr, rng, op, [])
            for _ in range(2):
                add_mat(s, g, gr, rng, op, [rng.sample(gr["nd"], n)] if n else [])
        s.project(g)
        yield s.done()
    for i in range(400 if not big else 9000):
        gr = scale(rng, gen.rand_graph(rng, rng.choice([4, 6, 8, 11]), wkinds=WK))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, unit=0.15)
        noise(s, g, rng)
        for _ in range(10):
            add_mat(s, g, gr, rng)
        s.project(g)
        yield s.done()
    for n in [30, 50] * (1 if not big else 12):
        gr = gen.big_graph(rng, n, wkinds=("one", "pos"))
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        for _ in range(4):
            add_mat(s, g, gr, rng)
        yield s.done()


PLANS = {"C16": c16}
