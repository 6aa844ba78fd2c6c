"""Graph objects (C25)."""
import gen
import plans_all
import plans_props
from pcommon import Sess
from plans_reach import dim

WKS = ["one", "iso", "pos", "zero", "mixed"]


def some_attrs(rng, lst=True):
    ks = rng.sample([0, 1, 2, 3, 4], rng.choice([0, 0, 1, 2, 3]))
    return [[k, [rng.randint(1, 9)] if k == 0 else [rng.randint(1, 9) for _ in range(rng.randint(0, 2))]] for k in ks]


def new(s, gr, rng, how=None):
    """An object of the abstract graph gr."""
    s.n += 1
    n = len(gr["nd"])
    how = how or rng.choice(["keys", "keys", "keys", "conv"])
    multi = rng.random() < 0.15
    if how == "keys" and s.lab == "id0" and gr["nd"] == list(range(1, n + 1)) and rng.random() < 0.7:
        how = "nokeys"
    at = some_attrs(rng)
    need = ["hop", "wd"]
    if how == "conv":
        s.ev.append({"op": "o_conv", "g": 0, "want": gr, "at": at, "multi": multi, "need": need, "res": s.n})
    else:
        dts = ["FP64", "INT64", "FP32", "INT32"] if gr["sc"] == 1 else ["FP64"]
        s.ev.append({"op": "o_new", "g": 0, "how": how, "want": gr, "at": at, "multi": multi, "need": need, "res": s.n,
                     "h": {"dtype": rng.choice(dts)}})
    return s.n, multi


def refuse(s, rng, dir_):
    s.n += 1
    how = rng.choice(["notmatrix", "rect", "rect"])
    gr = {"nd": [], "dir": dir_, "a": [], "w": [], "sc": 1}
    sh = rng.choice([[2, 3], [3, 2], [0, 1], [1, 0], [5, 4], [1, 100]])
    s.ev.append({"op": "o_new", "g": 0, "how": how, "want": gr, "at": some_attrs(rng), "multi": rng.random() < 0.2, "need": [],
                 "res": s.n, "h": {"bad": rng.randrange(7), "shape": sh}})


def step(s, objs, rng, N):
    i = rng.randrange(len(objs))
    g, gr, multi, live = objs[i]
    r = rng.random()
    if r < 0.3:
        s.ev.append({"op": "o_view", "g": g})
    elif r < 0.42:
        u = rng.choice([-1, 0] + list(range(1, N + 1)))
        s.ev.append({"op": "o_in", "g": g, "u": u, "h": {"z": rng.randrange(5)}})
    elif r < 0.5 and live:
        s.ev.append({"op": "o_name", "g": g, "x": rng.randint(1, 9)})
    elif r < 0.6 and live:
        k = rng.randint(0, 4)
        s.ev.append({"op": "o_set", "g": g, "k": k, "x": [rng.randint(1, 9) for _ in range(1 if k == 0 else rng.randint(0, 3))],
                     "h": {"upd": rng.random() < 0.5}})
    elif r < 0.7 and live:
        s.ev.append({"op": "o_push", "g": g, "k": rng.randint(1, 4), "x": rng.randint(1, 9)})
    elif r < 0.75 and live:
        s.ev.append({"op": "o_del", "g": g, "k": rng.randint(0, 4)})
    elif r < 0.85 and gr["dir"]:
        s.n += 1
        s.ev.append({"op": "o_rev", "g": g, "need": ["hop", "wd"], "res": s.n, "via": rng.choice(["api", "nx"]),
                     "h": {"how": "method" if multi or rng.random() < 0.5 else "fn", "copy": rng.choice([None, True])}})
        n = len(gr["a"])
        t = dict(gr, a=[[gr["a"][v][u] for v in range(n)] for u in range(n)], w=[[gr["w"][v][u] for v in range(n)] for u in range(n)])
        objs.append((s.n, t, multi, live))
    elif r < 0.89 and gr["dir"]:
        s.n += 1
        s.ev.append({"op": "o_und", "g": g, "need": [], "res": s.n, "recip": rng.random() < 0.5, "view": rng.random() < 0.25,
                     "h": {"kw": rng.random() < 0.5, "pos": rng.random() < 0.3}})
        if not s.ev[-1]["view"]:
            s.ev.append({"op": "o_view", "g": s.n})
    elif not multi:
        s.b = {"route": "matrix", "dtype": "INT64"}
        s.last = gr
        if rng.random() < 0.5:
            plans_props.history(s, g, gr, rng, 2, plans_props.names(gr["dir"]), algs=False)
        else:
            plans_all.add_any(s, g, gr, rng)
        s.ev.append({"op": "o_view", "g": g})


def finish(s, objs):
    for g, gr, multi, live in objs:
        s.ev.append({"op": "o_view", "g": g})
        s.ev.append({"op": "project", "g": g, "nd": gr["nd"], "dir": gr["dir"]})


def c25(rng, tier, shard, nsh):
    big = tier == "thorough"
    for i, (n, d, E) in enumerate(gen.all_small(3, 3)):
        if i % nsh != shard:
            continue
        gr = gen.relabel(rng, n, d, E, "one", extra=rng.choice([0, 1]))
        if rng.random() < 0.3:
            gr["nd"].sort()
        s = Sess(rng, dim(gr), lab="id0" if rng.random() < 0.3 else None)
        if rng.random() < 0.1:
            refuse(s, rng, gr["dir"])
        g, multi = new(s, gr, rng, "empty" if n == 0 and not gr["nd"] and rng.random() < 0.5 else None)
        objs = [(g, gr, multi, True)]
        for _ in range(4):
            step(s, objs, rng, dim(gr))
        finish(s, objs)
        yield s.done()
    for i in range(150 if not big else 5000):
        gr = gen.rand_graph(rng, rng.choice([1, 3, 5, 7]), wkinds=WKS)
        s = Sess(rng, dim(gr))
        objs = []
        for _ in range(rng.choice([1, 2])):
            g, multi = new(s, gr, rng)
            objs.append((g, gr, multi, True))
        for _ in range(rng.choice([10, 25])):
            if rng.random() < 0.05:
                refuse(s, rng, rng.random() < 0.5)
            step(s, objs, rng, dim(gr))
        finish(s, objs)
        yield s.done()


PLANS = {"C25": c25}
