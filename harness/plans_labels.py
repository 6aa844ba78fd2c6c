import gen
from pcommon import Sess, route
from plans_all import ADDERS
from plans_reach import dim

DT = ["INT64", "FP64", "INT32", "FP32"]
F = ["ids", "ids", "keys", "d2v", "d2v", "l2v", "mask", "s2v", "v2d", "v2d", "v2nm", "v2l", "v2s", "v2ns", "m2d", "m2d", "m2d",
     "renum", "i2k", "none"]


def labels(rng, nd, foreign):
    S = rng.sample(nd, rng.randint(0, len(nd)))
    if rng.random() < foreign:
        S.insert(rng.randint(0, len(S)), 0)
    return S


def add_lb(s, g, gr, rng):
    nd = gr["nd"]
    n = len(nd)
    f = rng.choice(F)
    h = {"recv": rng.choice(["G", "G", "G", "nm", "ns", "nn", "vn"])}
    e = {"f": f, "h": h, "via": "api"}
    h["dtype"] = rng.choice(DT)
    h["coll"] = rng.choice(["list", "list", "tuple", "keys", "fs", "set", "iter"])
    num = lambda: rng.choice([0, 1, 2, 3, 5]) * 1000000  # noqa: E731
    pos = list(range(n))
    ps = rng.sample(pos, rng.randint(0, n))
    if f == "ids":
        e["S"] = labels(rng, nd, 0.12)
        if h["coll"] in ("set", "fs", "keys"):
            h["coll"] = "list"
        if rng.random() < 0.3 and e["S"]:
            e["S"] = e["S"] + e["S"][:1]
    elif f in ("keys", "renum"):
        e["I"] = ps
        h["np"] = rng.random() < 0.5
    elif f in ("d2v", "l2v", "mask", "s2v"):
        e["size"] = rng.choice([-1, -1, -1, n, n + 2])
        h["dtype"] = rng.choice([None, "INT64", "FP64"])
        S = labels(rng, nd, 0.12 if f != "s2v" else 0.3)
        if f == "d2v":
            e["D"] = [[u, num() + (500000 if h["dtype"] == "FP64" and rng.random() < 0.4 else 0)] for u in S]
        else:
            e["S"] = S
            e["x"] = 1000000 if f == "mask" else rng.choice([1, 2, 4]) * 1000000
            e["ign"] = rng.random() < 0.5
            if f == "l2v" and h["dtype"] is None and not S:
                h["dtype"] = "INT64"
            if f == "s2v" and h["coll"] == "iter":
                h["coll"] = "set"
    elif f in ("v2d", "v2nm"):
        e["mask"], e["fill"] = [], []
        if rng.random() < 0.5:
            e["fill"] = [rng.choice([0, 1000000, 7000000])]
        if rng.random() < 0.5:
            e["mask"] = [list(ps)]
            ps = rng.sample(ps, rng.randint(0, len(ps)))
        e["v"] = [[p, num()] for p in ps]
    elif f in ("v2s", "v2ns"):
        e["v"] = [[p, num()] for p in ps]
    elif f == "v2l":
        e["vk"] = rng.random() < 0.5
        e["v"] = [[p, rng.choice(pos) if e["vk"] else num()] for p in ps]
    elif f == "m2d":
        e["ri"], e["ci"], e["vk"] = rng.random() < 0.3, rng.random() < 0.3, rng.random() < 0.3
        cells = [(i, j) for i in pos for j in pos]
        cells = rng.sample(cells, rng.randint(0, min(len(cells), 9)))
        iso = num() if rng.random() < 0.4 else None
        if e["vk"] and iso is not None:
            iso = rng.choice(pos) if pos else 0
        e["M"] = [[i, j, iso if iso is not None else (rng.choice(pos) if e["vk"] else num())] for i, j in cells]
        h["iso"] = rng.random() < 0.7
        h["t"] = rng.random() < 0.3
    s.ev.append(dict(op="lb", g=g, **e))


def c24(rng, tier, shard, nsh):
    big = tier == "thorough"
    for i, (n, d, E) in enumerate(gen.all_small(3, 3)):
        if i % nsh != shard:
            continue
        gr = gen.relabel(rng, n, d, E, "pos", extra=rng.choice([0, 1]))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, b=route(rng, gr, s.lab, nx_ok=False))
        for _ in range(6):
            add_lb(s, g, gr, rng)
        s.project(g)
        yield s.done()
    for i in range(300 if not big else 6000):
        gr = gen.rand_graph(rng, rng.choice([3, 5, 7]), wkinds=["one", "iso", "pos"])
        s = Sess(rng, dim(gr))
        g = s.graph(gr, b=route(rng, gr, s.lab, nx_ok=False))
        for _ in range(20):
            add_lb(s, g, gr, rng)
        s.project(g)
        yield s.done()
    # the same questions about the same graph stored in two different orders, for every kind of label
    for i in range(300 if not big else 6000):
        gr = gen.rand_graph(rng, rng.choice([3, 4, 6, 8]), wkinds=["one", "iso", "pos", "pos", "zero"])
        nd = list(gr["nd"])
        rng.shuffle(nd)
        gr2 = dict(gr, nd=nd)
        s = Sess(rng, dim(gr))
        both = []
        for x in (gr, gr2):
            both.append((s.graph(x, ["hop", "wd"]), x, s.b))
        for _ in range(5):
            f = rng.choice(ADDERS)
            st = rng.getstate()
            end = None
            for g, x, b in both:
                rng.setstate(st)
                s.b, s.last = b, x
                f(s, g, x, rng)
                end = rng.getstate()
            rng.setstate(end)
        for g, x, b in both:
            s.b = b
            s.project(g, x)
        yield s.done()


PLANS = {"C24": c24}
