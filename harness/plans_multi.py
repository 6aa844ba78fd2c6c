"""Multigraphs (C26): the abstract weight is the number of parallel edges (count) or the sum of their values (sum)."""
import gen
import plans_cluster
import plans_cuts
import plans_degree
import plans_matrices
import plans_ranking
import plans_reach
from pcommon import Sess
from plans_reach import dim

CUTS = ["edge_boundary", "edge_boundary", "node_boundary", "cut_size", "cut_size", "volume", "volume", "normalized_cut_size",
        "conductance", "edge_expansion", "node_expansion", "boundary_expansion", "is_dominating_set"]
STRUCT = ["is_isolate", "isolates", "number_of_isolates"]


def build(s, rng, gr, need=("hop",)):
    mode = "count" if all(x > 0 for u in gr["w"] for x in u if x) and not zero_edge(gr) and rng.random() < 0.6 else "sum"
    b = {"route": rng.choice(["nxm", "mobj", "mobj"]), "multi": mode, "seed": rng.randrange(10**6),
         "dtype": rng.choice(["INT64", "FP64"]), "how": rng.choice(["matrix", "from", "conv", "conv"])}
    if mode == "sum" and rng.random() < 0.3:
        b["attr"] = "cost"
    g = s.graph(gr, need, b=b)
    s.b = dict(b, route="nx" if b["route"] == "nxm" else "matrix")
    return g, b


def zero_edge(gr):
    n = dim(gr)
    return any(gr["a"][u][v] and gr["w"][u][v] == 0 for u in range(n) for v in range(n))


def add_multi(s, g, gr, rng, b, op=None):
    isn = b["route"] == "nxm"
    count = b["multi"] == "count"
    r = rng.random()
    n0 = len(s.ev)
    if r < 0.5:
        op = rng.choice(CUTS)
        plans_cuts.add_cuts(s, g, gr, rng, op)
        for e in s.ev[n0:]:
            if op == "edge_boundary":
                e["data"] = "none"
                if not count:
                    if not isn:
                        s.ev.pop()
                        return
                    # the number of copies is not the value: compare the ends only
                    s.ev.pop()
                    return
                e["op"] = "edge_boundary_m"
            e["wt"] = op in plans_cuts.WT
    elif r < 0.7:
        plans_matrices.add_mat(s, g, gr, rng, rng.choice(plans_matrices.OPS))
        for e in s.ev[n0:]:
            e["wt"] = True
    elif r < 0.8 and all(x >= 0 for u in gr["w"] for x in u):
        plans_ranking.add_rank(s, g, gr, rng, rng.choice(["pagerank", "google_matrix"]))
        for e in s.ev[n0:]:
            e["wt"] = True
    elif r < 0.9:
        rng.choice([plans_reach.add_reach, plans_reach.add_dist])(s, g, gr, rng)
    elif r < 0.95:
        plans_degree.add_deg(s, g, gr, rng, rng.choice(STRUCT))
    else:
        plans_degree.add_pred(s, g, gr, rng, "is_simple_path")
    for e in s.ev[n0:]:
        h = e.setdefault("h", {})
        if "wt" in e:
            if isn and b.get("attr") and not count and e["wt"]:
                h["attr"] = b["attr"]
            if count and (e["op"] == "edge_boundary_m" or rng.random() < 0.7):
                h["nowt"] = True


def c26(rng, tier, shard, nsh):
    big = tier == "thorough"
    for i, (n, d, E) in enumerate(gen.all_small(3, 3)):
        if i % nsh != shard or (not big and n == 3 and d and rng.random() < 0.5):
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(["iso", "pos"]), extra=rng.choice([0, 1]))
        s = Sess(rng, dim(gr))
        g, b = build(s, rng, gr)
        for _ in range(8):
            add_multi(s, g, gr, rng, b)
        s.project(g, gr)
        yield s.done()
    for i in range(250 if not big else 7000):
        gr = gen.rand_graph(rng, rng.choice([3, 5, 7, 10]), wkinds=["one", "iso", "pos", "pos", "pos", "zero", "mixed"])
        if gr["sc"] != 1:
            continue
        s = Sess(rng, dim(gr))
        g, b = build(s, rng, gr)
        for _ in range(12):
            add_multi(s, g, gr, rng, b)
        s.project(g, gr)
        yield s.done()


PLANS = {"C26": c26}
