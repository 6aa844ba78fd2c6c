import gen
from pcommon import Sess, subset
from plans_matrices import nodelist
from plans_reach import dim
from plans_weighted import noise, scale

WK = ["one", "one", "iso", "pos", "pos", "zero", "isozero", "cubes"]
TOLS = [1, 1, 1, 1, 100, 1000, 10000]


def dist(rng, nd, p=0.5, zero=0.04, full=0.3):
    if rng.random() >= p or not nd:
        return []
    S = list(nd) if rng.random() < full else subset(rng, nd, 1)
    rng.shuffle(S)
    if rng.random() < zero:
        return [[[v, 0] for v in S]]
    r = [[v, rng.choice([0, 1, 1, 2, 3, 5])] for v in S]
    if sum(x for _, x in r) == 0:
        r[0][1] = 1
    return [r]


def wt_for(s, rng):
    if s.b["route"] == "nx":
        return rng.random() < 0.7
    return True


def add_rank(s, g, gr, rng, op=None):
    nd = gr["nd"]
    if any(x < 0 for r in gr["w"] for x in r):
        return
    isn = s.b["route"] == "nx"
    op = op or rng.choice(["pagerank", "pagerank", "google_matrix", "hits", "katz", "eigenvector"])
    wt = wt_for(s, rng)
    h = {"explicit": rng.random() < 0.3}
    if isn:
        h["attr"] = s.b.get("attr", "weight")
        if h["attr"] != "weight" and op == "hits":
            return
    if rng.random() < 0.3:
        h["den"] = rng.choice([2, 3, 7.5])
    kw = {"h": h, "wt": wt}
    if op in ("pagerank", "google_matrix"):
        kw["al"] = [17, 20] if rng.random() < 0.5 else rng.choice([[1, 2], [1, 10], [0, 1], [4, 5], [9, 10], [99, 100], [1, 1], [3, 20]])
        if s.b.get("dtype") == "FP32" and kw["al"] in ([99, 100], [1, 1]):
            kw["al"] = [9, 10]  # single precision does not get much closer
        kw["pers"] = dist(rng, nd)
        kw["dang"] = dist(rng, nd, zero=0)
    if op == "google_matrix":
        kw["nl"] = nodelist(rng, nd)
        h["tup"] = rng.random() < 0.3
        s.add(op, g, **kw)
        return
    kw["nst"] = dist(rng, nd, 0.3)
    kw["tol"] = rng.choice(TOLS)
    kw["mi"] = rng.choice([100, 100, 100, 100, 500, 0, 3, 10])
    if op == "hits":
        kw["wt"] = True
        kw["norm"] = rng.random() < 0.5
        kw["tol"] = rng.choice([0, 0, 0, 1, 100, 1000])
        if kw["tol"] == 0:
            h["rtol"] = 1e-8
        if kw["nst"] and sum(x for _, x in kw["nst"][0]) == 0:
            kw["nst"] = []
    elif op in ("katz", "eigenvector") and not isn:
        kw["wt"] = True
        h["explicit"] = True
    if op == "eigenvector":
        if gr.get("sc", 1) != 1:
            return
        if kw["nst"]:
            d = dict(kw["nst"][0])
            kw["nst"] = [[[v, d.get(v, 0)] for v in nd]]
    if op == "katz":
        kw["mi"] = rng.choice([1000, 1000, 1000, 5, 0, 50])
        kw["norm"] = rng.random() < 0.5
        kw["al"] = rng.choice([[1, 10], [1, 10], [1, 20], [1, 100], [1, 2], [-1, 10], [0, 1], [1, 40], [1, 4]])
        if rng.random() < 0.4:
            S = list(nd)
            rng.shuffle(S)
            if rng.random() < 0.12 and S:
                S.pop()
            if rng.random() < 0.06:
                S = S + [0]
            kw["beta"] = {"k": "d", "v": [[v, rng.choice([0, 1, 2, 3, 5])] for v in S]}
        else:
            kw["beta"] = {"k": "s", "v": rng.choice([1, 1, 1, 2, 5, 0, -2])}
        if kw["nst"]:
            d = dict(kw["nst"][0])
            kw["nst"] = [[[v, d.get(v, 0)] for v in nd]]
    if op == "hits" and isn:
        # NetworkX does not hand over the weights when it dispatches hits
        kw["via"] = rng.choice(["api", "nx"])
        kw["wt"] = kw["via"] == "api"
    s.add(op, g, **kw)


def plan(ops):
    def f(rng, tier, shard, nsh):
        big = tier == "thorough"
        for i, (n, d, E) in enumerate(gen.all_small(3, 4)):
            if i % nsh != shard:
                continue
            gr = gen.relabel(rng, n, d, E, rng.choice(WK), extra=rng.choice([0, 0, 1]))
            s = Sess(rng, dim(gr))
            g = s.graph(gr, raw_ok=True)
            for op in ops:
                for _ in range(3):
                    add_rank(s, g, gr, rng, op)
            s.project(g)
            yield s.done()
        for i in range(400 if not big else 9000):
            gr = scale(rng, gen.rand_graph(rng, rng.choice([4, 6, 8, 11]), wkinds=WK))
            s = Sess(rng, dim(gr))
            g = s.graph(gr, unit=0.15 if set(ops) <= {"pagerank", "google_matrix"} else 0)
            noise(s, g, rng)
            for _ in range(12):
                add_rank(s, g, gr, rng, rng.choice(ops))
            s.project(g)
            yield s.done()
        for n in [20, 35, 50] * (1 if not big else 12):
            gr = gen.big_graph(rng, n, wkinds=("one", "pos"))
            s = Sess(rng, dim(gr))
            g = s.graph(gr)
            for _ in range(4):
                add_rank(s, g, gr, rng, rng.choice(ops))
            yield s.done()
    return f


PLANS = {"C17": plan(["pagerank", "google_matrix"]), "C18": plan(["hits", "katz", "eigenvector"])}
