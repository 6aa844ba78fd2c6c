import copy

import gen
import plans_cluster
import plans_cuts
import plans_degree
import plans_matrices
import plans_operators
import plans_ranking
import plans_reach
import plans_sub
import plans_weighted
from pcommon import Sess
from plans_reach import dim

ADDERS = [plans_reach.add_reach, plans_reach.add_dist, plans_weighted.add_bf, plans_weighted.add_fw,
          plans_cluster.add_cluster, plans_cluster.add_cluster, plans_sub.add_sub, plans_cuts.add_cuts,
          plans_operators.add_operators, plans_degree.add_deg, plans_degree.add_pred, plans_matrices.add_mat,
          plans_ranking.add_rank]
# answers that are not unique (checked against their definition instead)
LOOSE = {"bf_path", "fw_pred", "lowest_common_ancestor", "project", "touch", "graph", "skip", "chunk_bad", "prop", "kept", "alias"}
TOL = {"pagerank": 40, "eigenvector": 60, "katz": 40, "hits": 60}


class NxSess(Sess):
    """Every graph is a NetworkX graph."""

    attr = "weight"
    dtype = "INT64"

    def graph(self, gr, need=(), b=None, **kw):
        b = {"route": "nx", "dtype": self.dtype, "skip1": self.skip1, "attr": self.attr, "noise": self.noisy}
        if gr.get("sc", 1) != 1:
            b["dtype"] = "FP64"
        return Sess.graph(self, gr, need, b=b)


# NetworkX uses weights here but does not tell backends so; agreement is promised for unit weights
UNW = {"mutual_weight", "tournament_matrix"}
WEIGHTY = {"bethe_hessian_matrix", "tournament_matrix"}


def usable(ev, src):
    """Requests NetworkX itself answers too."""
    if ev["op"] in LOOSE or ev.get("via") == "core" or ev["g"] not in src or ev.get("g2", ev["g"]) not in src:
        return False
    op, gr, h = ev["op"], src[ev["g"]], ev.get("h", {})
    unit = all(w == gr["sc"] * a for ra, rw in zip(gr["a"], gr["w"]) for a, w in zip(ra, rw))
    if op == "hits":  # the vectors are not unique
        return False
    if op in WEIGHTY and not unit:
        return False
    if "T" in ev and gr["dir"]:  # NetworkX counts overlapping sets in its own way
        if not ev["hasT"] and op in ("cut_size", "mixing_expansion") or set(ev["S"]) & set(ev["T"]):
            return False
    if op == "ego_graph" and ev["und"] and ev["wt"] and gr["dir"]:  # which weight of u-v and v-u counts
        return False
    if op == "reverse" and h.get("copy") is False:
        return False
    if op in ("reciprocity", "overall_reciprocity") and not gr["dir"]:
        return False
    if op == "is_isolate" and ev["u"] not in gr["nd"]:
        return False
    if op == "google_matrix" and ev["nl"] and len(ev["nl"][0]) != len(gr["nd"]):
        return False
    if op.endswith("modularity_matrix"):  # not defined without weight
        nl = ev["nl"][0] if ev["nl"] else gr["nd"]
        if not sum(gr["w"][u - 1][v - 1] for u in nl for v in nl if u and v):
            return False
    if h.get("cutfrac") or h.get("frac"):  # NetworkX rounds up
        return False
    for k in ("ks", "kt"):  # NetworkX reads some of these arguments twice
        if h.get(k) == "iter":
            h[k] = "list"
    for k in ("chunk", "mid"):
        ev.get("h", {}).pop(k, None)
    return True


def agree(ev, modes, attr="weight", **kw):
    inner = {k: v for k, v in ev.items()}
    if ev["op"] in TOL and "native" in modes:  # two iterations meet only in the limit
        inner["h"] = dict(inner["h"], rtol=1e-10)
        inner["mi"] = 4000
    return {"op": "agree", "g": ev["g"], "f": ev["op"], "via": "api", "modes": modes, "skipexc": True, "narrow": True,
            "tol": TOL.get(ev["op"], 4), "h": {"in": inner, "attr": attr, **kw}}


def c22(rng, tier, shard, nsh):
    big = tier == "thorough"
    WK = ["one", "iso", "pos", "pos", "zero", "bigpos"]
    if shard == 0:
        s = Sess(rng, 1)
        gr = gen.mk(1, [1], False, [])
        s.graph(gr, b={"route": "matrix", "dtype": "INT64"})
        for what in ("advertised", "implemented", "backend"):
            s.ev.append({"op": "registry", "g": 1, "via": "api", "what": what})
        yield s.done()
    small = [x for x in gen.all_small(3, 4, loops=False, loops_und=False)]
    todo = [("s", x) for i, x in enumerate(small) if i % nsh == shard]
    todo += [("r", None)] * (300 if not big else 8000)
    for kind, x in todo:
        if kind == "s":
            gr = gen.relabel(rng, *x, rng.choice(WK), extra=rng.choice([0, 1]))
            k = 8
        else:
            gr = gen.rand_graph(rng, rng.choice([4, 6, 8]), wkinds=WK, loops=False)
            k = 10
        s = NxSess(rng, dim(gr))
        s.attr = rng.choice(["weight", "weight", "cost"])
        s.dtype = rng.choice(["INT64", "FP64"])
        s.skip1, s.noisy = rng.random() < 0.3, False
        g = s.graph(gr, ["hop", "wd"])
        src = {g: gr}
        for _ in range(k):
            n0 = len(s.ev)
            rng.choice(ADDERS)(s, g, gr, rng)
            new, s.ev[n0:] = s.ev[n0:], []
            for ev in new:
                if ev["op"] == "graph":
                    src[ev["res"]] = ev["gr"]
                    s.ev.append(ev)
                elif usable(ev, src):
                    ev["via"] = rng.choice(["nx", "kw", "api"])
                    ms = ["nx", "kw", "api"]
                    if ev.get("wt", True) and (ev["op"] not in UNW or not ev.get("unw")):
                        ms += ["conv", "convkw", "convapi"]
                    s.ev.append(ev)
                    s.ev.append(agree(copy.deepcopy(ev), ["native"] + rng.sample(ms, 2), s.attr))
                elif "res" in ev:
                    s.ev.append({"op": "skip", "g": 0, "res": ev["res"]})
        yield s.done()


PLANS = {"C22": c22}
