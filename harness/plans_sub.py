import gen
from pcommon import Sess, pick
from plans_reach import dim, long_graph
from plans_weighted import noise
from plans_props import core, read


def derived(s, g, rng, dir):
    """Observe a graph that an operation returned."""
    s.ev.append({"op": "project", "g": g, "nd": [], "dir": dir})
    if rng.random() < 0.4:
        s.add("transitivity", g, via="api", sel="all", S=[], u=0)
    if rng.random() < 0.4 and s.b["route"] != "raw":
        for x in rng.sample(core(dir), 3):
            read(s, g, x)


def add_truss(s, g, gr, rng, k=None):
    if gr["dir"] and rng.random() < 0.9:
        return add_ego(s, g, gr, rng)
    if k is None:
        k = rng.choice([-1, 0, 1, 2, 3, 3, 3, 4, 4, 4, 5, 5, 6, 7, 8])
    via = rng.choice(["api", "api", "nx"]) if gr["dir"] or s.b["route"] in ("nx", "raw") or rng.random() < 0.8 else "core"
    r = s.res("k_truss", g, k=k, via=via)
    if not gr["dir"] and rng.random() < 0.3:
        derived(s, r, rng, False)


def add_ego(s, g, gr, rng, u=None, rad=0, wt=None, **kw):
    nd, N = gr["nd"], dim(gr)
    u = pick(rng, nd, N) if u is None else u
    nonneg = all(x >= 0 for row in gr["w"] for x in row)
    if wt is None:
        wt = nonneg and rng.random() < 0.5
    h = {"kw": rng.random() < 0.3}
    if wt and s.b["route"] == "nx":
        h["attr"] = s.b.get("attr", "weight")
    if rad == 0:
        x = rng.random()
        if x < 0.12:
            rad = []
            h["rnone"] = rng.random() < 0.5
        elif x < 0.25:
            rad = [gr["sc"] if wt else 1]
            h["rdef"] = True
        elif wt:
            rad = [rng.randint(0, 10)]
            h["frac"] = rng.random() < 0.3
        else:
            rad = [rng.randint(0, 4)]
            h["frac"] = rng.random() < 0.2
    e = {"u": u, "rad": rad, "wt": wt, "und": rng.random() < 0.35, "center": rng.random() < 0.7, "h": h}
    e.update(kw)
    via = rng.choice(["api", "api", "nx"])
    e["keepw"] = not (s.b["route"] == "nx" and not wt)
    r = s.res("ego_graph", g, via=via, **e)
    if u in nd and rng.random() < 0.25:
        derived(s, r, rng, gr["dir"])


def add_sub(s, g, gr, rng):
    if gr["dir"] or rng.random() < 0.5:
        add_ego(s, g, gr, rng)
    else:
        add_truss(s, g, gr, rng)


def c11(rng, tier, shard, nsh):
    big = tier == "thorough"
    small = gen.all_small(3, 5)
    for i, (n, d, E) in enumerate(small):
        if i % nsh != shard:
            continue
        if not big and (n == 5 and rng.random() < 0.985 or n == 4 and rng.random() < 0.6 or n == 3 and d and rng.random() < 0.5):
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(["one", "pos", "zero"]))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, nx_ok=False)
        if not d:
            for k in range(1, 6):
                add_truss(s, g, gr, rng, k)
        for u in gr["nd"]:
            for r in range(0, n):
                add_ego(s, g, gr, rng, u, [r], False)
            add_ego(s, g, gr, rng, u)
        s.project(g)
        yield s.done()
    for i in range(260 if not big else 6000):
        if rng.random() < 0.35:
            gr = dense(rng)
        else:
            gr = gen.rand_graph(rng, rng.choice([5, 7, 9, 11]), wkinds=("one", "pos", "zero", "iso", "bigpos"))
        from plans_weighted import scale
        gr = scale(rng, gr) if rng.random() < 0.2 else gr
        s = Sess(rng, dim(gr))
        g = s.graph(gr, raw_ok=False, unit=0.15)
        noise(s, g, rng)
        for _ in range(9):
            add_sub(s, g, gr, rng)
        s.project(g)
        yield s.done()
    for i in range(10 if not big else 200):
        gr = long_graph(rng, ("one", "pos", "zero"), 11, 17)
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        for _ in range(6):
            add_ego(s, g, gr, rng)
        yield s.done()
    for n in [25, 40, 60] * (1 if not big else 12):
        gr = gen.big_graph(rng, n, wkinds=("one", "pos"))
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        for _ in range(3):
            add_sub(s, g, gr, rng)
        yield s.done()
    if shard % 4 == 1:  # more than 127 triangles on an edge
        gr = gen.big_graph(rng, rng.randint(131, 136), dir=False, wkinds=("one", "pos"), loops=False, kind="dense")
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        add_truss(s, g, gr, rng, len(gr["nd"]) - rng.choice([0, 1, 2, 3]))
        yield s.done()


def dense(rng):
    """Undirected graphs whose trusses need several peeling rounds."""
    n = rng.randint(5, 10)
    nd = list(range(1, n + 1))
    rng.shuffle(nd)
    E = set()
    kind = rng.choice(["cliques", "strip", "dense", "square"])
    if kind == "cliques":
        for _ in range(rng.randint(1, 3)):
            S = rng.sample(nd, rng.randint(3, min(6, n)))
            E |= {(min(a, b), max(a, b)) for a in S for b in S if a != b}
    elif kind == "strip":  # triangle strip
        w = rng.choice([2, 3])
        for i in range(n):
            for j in range(i + 1, min(n, i + w + 1)):
                E.add((min(nd[i], nd[j]), max(nd[i], nd[j])))
    elif kind == "square":
        for i in range(n):
            for j in (i + 1, i + 2):
                a, b = nd[i], nd[j % n]
                if a != b:
                    E.add((min(a, b), max(a, b)))
    else:
        p = rng.choice([0.6, 0.75, 0.9])
        E = {(a, b) for a in nd for b in nd if a < b and rng.random() < p}
    for _ in range(rng.randint(0, 3)):
        a, b = rng.sample(nd, 2)
        e = (min(a, b), max(a, b))
        E ^= {e}
    if rng.random() < 0.3:
        E |= {(a, a) for a in nd if rng.random() < 0.3}
    order = list(nd)
    rng.shuffle(order)
    return gen.mk(n + rng.randint(0, 1), order, False, gen.weights(rng, sorted(E), rng.choice(["one", "pos"])))


PLANS = {"C11": c11}
