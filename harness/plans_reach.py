import gen
from pcommon import Sess, pick, preferring, some, subset, CHUNKS

REACH = ["descendants", "ancestors", "has_path", "is_connected", "is_weakly_connected",
         "node_connected_component", "bfs_layers", "descendants_at_distance", "lowest_common_ancestor"]
WK = ("one", "pos", "zero", "iso", "mixed", "neg1", "isozero")


def dim(gr):
    return len(gr["a"])


def add_reach(s, g, gr, rng, op=None):
    nd, N = gr["nd"], dim(gr)
    op = op or rng.choice(REACH)
    via = rng.choice(["api", "api", "nx"])
    if op in ("descendants", "ancestors"):
        u = pick(rng, nd, N)
        if u in nd and rng.random() < 0.2:
            via = "core"
        s.add(op, g, u=u, via=via)
    elif op == "has_path":
        u, v = pick(rng, nd, N), pick(rng, nd, N)
        if u in nd and v in nd and rng.random() < 0.2:
            via = "core"
        s.add(op, g, u=u, v=v, via=via)
    elif op in ("is_connected", "is_weakly_connected"):
        if gr["dir"] != (op == "is_weakly_connected") and rng.random() < 0.9:
            op = "is_weakly_connected" if gr["dir"] else "is_connected"
        s.add(op, g, via=via)
    elif op == "node_connected_component":
        if gr["dir"] and rng.random() < 0.9:
            return add_reach(s, g, gr, rng, "descendants")
        s.add(op, g, u=pick(rng, nd, N), via=via)
    elif op == "bfs_layers":
        S = subset(rng, nd)
        if rng.random() < 0.3 and nd:
            S = [rng.choice(nd)]
        if S and rng.random() < 0.05:
            S = S + [pick(rng, [], N)]
        h = {"kind": rng.choice(["list", "set", "dict"])}
        if len(S) == 1 and S[0] in nd and rng.random() < 0.5:
            h = {"single": 1}
        s.add(op, g, S=S, h=h, via=via)
    elif op == "descendants_at_distance":
        s.add(op, g, u=pick(rng, nd, N), k=rng.randint(0, max(2, len(nd) + 1)) if rng.random() < 0.7
              else rng.randint(0, 2), via=via)
    elif op == "lowest_common_ancestor":
        if not gr["dir"] and rng.random() < 0.9:
            return add_reach(s, g, gr, rng, "has_path")
        s.add(op, g, u=pick(rng, nd, N), v=pick(rng, nd, N), h={"mark": int(rng.random() < 0.4)}, via=via)


def every_reach(s, g, gr, rng):
    """All operations with all arguments (small graphs)."""
    nd, N = gr["nd"], dim(gr)
    s.add("is_weakly_connected" if gr["dir"] else "is_connected", g)
    for u in nd:
        s.add("descendants", g, u=u)
        s.add("ancestors", g, u=u)
        s.add("bfs_layers", g, S=[u], h={"single": 1})
        if not gr["dir"]:
            s.add("node_connected_component", g, u=u)
        for k in range(0, len(nd) + 1):
            s.add("descendants_at_distance", g, u=u, k=k)
        for v in nd:
            s.add("has_path", g, u=u, v=v)
            if gr["dir"]:
                s.add("lowest_common_ancestor", g, u=u, v=v, h={})
    for i in range(1 << len(nd)):
        s.add("bfs_layers", g, S=[x for j, x in enumerate(nd) if i >> j & 1], h={})


def c04(rng, tier, shard, nsh):
    big = tier == "thorough"
    small = gen.all_small(3, 4)
    for i, (n, d, E) in enumerate(small):
        if i % nsh != shard:
            continue
        if not big and n == 3 and d and rng.random() < 0.45:
            continue
        if not big and n == 4 and rng.random() < 0.8:
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(WK))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["hop"], nx_ok=False)
        every_reach(s, g, gr, rng)
        s.project(g)
        yield s.done()
    for i in range(260 if not big else 5000):
        nmax = rng.choice([5, 7, 9, 12])
        gr = gen.rand_graph(rng, nmax, wkinds=WK)
        yield reach_session(rng, gr, 14)
    for i in range(25 if not big else 300):
        gr = long_graph(rng)
        yield reach_session(rng, gr, 8)
    for n, kind, d in gen.big_set(shard) * (1 if not big else 12):
        gr = gen.big_graph(rng, n, wkinds=("one", "pos", "mixed"), kind=kind, dir=d)
        with preferring(gen.far(gr)):
            S = reach_session(rng, gr, 9, "lazy", LAZY)
        yield S


def long_graph(rng, wk=WK, lo=14, hi=34):
    """Graphs of large diameter."""
    n = rng.randint(lo, hi)
    dir = rng.random() < 0.6
    nd = list(range(1, n + 1))
    rng.shuffle(nd)
    E = [(nd[i], nd[i + 1]) for i in range(n - 1)]
    r = rng.random()
    if r < 0.3:
        E.append((nd[-1], nd[0]))
    elif r < 0.5 and dir:
        E = [(v, u) if rng.random() < 0.15 else (u, v) for u, v in E]
    elif r < 0.7 and dir:  # alternating
        E = [(v, u) if i % 2 else (u, v) for i, (u, v) in enumerate(E)]
    elif r < 0.8:
        E.pop(rng.randrange(len(E)))
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(n - 1)
            j = min(n - 1, i + rng.randint(0, 4))
            if dir or (nd[j], nd[i]) not in E and (nd[i], nd[j]) not in E:
                E.append((nd[i], nd[j]))
    E = list(dict.fromkeys(E))
    if not dir:
        E = list({(min(e), max(e)) for e in E})
        E.sort()
    order = list(nd)
    if rng.random() < 0.5:
        rng.shuffle(order)
    return gen.mk(n, order, dir, gen.weights(rng, E, rng.choice(wk)))


LAZY = ["descendants", "ancestors", "has_path", "connected", "node_connected_component", "bfs_layers", "descendants_at_distance"]


def reach_session(rng, gr, k, need="hop", ops=None):
    s = Sess(rng, dim(gr))
    gr2 = gr
    if need == "lazy":      # hop distance does not look at the weights
        gr2 = dict(gr, w=[[abs(x) for x in r] for r in gr["w"]])
    g = s.graph(gr2, [need], raw_ok=True)
    for _ in range(k):
        op = ops and rng.choice(ops)
        if op == "connected":
            op = "is_weakly_connected" if gr["dir"] else "is_connected"
        add_reach(s, g, gr, rng, op)
    s.project(g, gr2)
    return s.done()


# ---------------------------------------------------------------- C05
def cut(rng, n):
    r = rng.random()
    if r < 0.35:
        return [], {"cutdef": int(rng.random() < 0.5)}
    k = rng.choice([0, 1, 1, 2, 3, n - 2, n - 1, n, n + 1, rng.randint(0, n + 2)])
    k = max(0, k)
    r = rng.random()
    if r < 0.15:
        return [k], {"cutfrac": rng.choice([0.5, 0.25, 0.0, 0.99])}
    if r < 0.2:
        return [10 ** 6], {"cutinf": 1}
    return [k], {}


def add_dist(s, g, gr, rng, op=None, raw=False):
    nd, N = gr["nd"], dim(gr)
    op = op or rng.choice(["sssp", "sssp", "stsp", "stsp", "apsp", "apsp", "apsp", "efficiency", "has_path"])
    via = rng.choice(["api", "api", "nx"])
    if op in ("sssp", "stsp"):
        u = pick(rng, nd, N)
        ct, h = cut(rng, len(nd))
        if u in nd and rng.random() < 0.2:
            via = "core"
        s.add(op, g, u=u, cut=ct, h=h, via=via)
    elif op == "apsp":
        ct, h = cut(rng, len(nd))
        r = rng.random()
        isga = s.b["route"] not in ("nx", "raw")
        if isga and r < 0.4:
            if r < 0.1:
                s.add(op, g, all=True, S=[], cut=ct, h=h, via="core")
            else:
                h["expand"] = int(rng.random() < 0.4)
                s.add(op, g, all=False, S=subset(rng, nd, 1 if nd else 0), cut=ct, h=h, via="core")
        else:
            if rng.random() < 0.75:
                h["chunk"] = rng.choice(CHUNKS)
            s.add(op, g, all=True, S=[], cut=ct, h=h, via=via)
    elif op == "efficiency":
        if gr["dir"] and rng.random() < 0.9:
            return add_dist(s, g, gr, rng, "sssp")
        s.add(op, g, u=pick(rng, nd, N), v=pick(rng, nd, N), via=via)
    else:
        s.add("has_path", g, u=pick(rng, nd, N), v=pick(rng, nd, N), via=via)


def c05(rng, tier, shard, nsh):
    big = tier == "thorough"
    small = gen.all_small(3, 4)
    for i, (n, d, E) in enumerate(small):
        if i % nsh != shard:
            continue
        if not big and n >= 3 and rng.random() < (0.4 if n == 3 else 0.75):
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(WK))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["hop"], nx_ok=False)
        for u in gr["nd"]:
            s.add("sssp", g, u=u, cut=[], h={})
            s.add("stsp", g, u=u, cut=[], h={})
            for k in range(n + 1):
                s.add("sssp", g, u=u, cut=[k], h={})
                s.add("stsp", g, u=u, cut=[k], h={})
            if not d:
                for v in gr["nd"]:
                    s.add("efficiency", g, u=u, v=v)
        for ck in (None, 1, 2):
            s.add("apsp", g, all=True, S=[], cut=[], h={"chunk": ck})
            s.add("apsp", g, all=True, S=[], cut=[1], h={"chunk": ck})
        s.project(g)
        yield s.done()
    for i in range(230 if not big else 5000):
        gr = gen.rand_graph(rng, rng.choice([5, 7, 9, 12]), wkinds=WK)
        yield dist_session(rng, gr, 14)
    for i in range(20 if not big else 300):
        yield dist_session(rng, long_graph(rng), 7)
    for n, kind, d in gen.big_set(shard) * (1 if not big else 12):
        gr = gen.big_graph(rng, n, kind=kind, dir=d)
        with preferring(gen.far(gr)):
            S = dist_session(rng, gr, 6, "lazy", ["sssp", "stsp", "sssp", "stsp", "apsp_some", "apsp_some", "efficiency", "has_path"])
        yield S
    if shard % 4 == 1:  # every pair of a long path
        gr = gen.big_graph(rng, 135, kind="path")
        yield dist_session(rng, gr, 1, "lazy", ["apsp"])


def dist_session(rng, gr, k, need="hop", ops=None):
    s = Sess(rng, dim(gr))
    g = s.graph(gr, [need], raw_ok=True)
    for _ in range(k):
        op = ops and rng.choice(ops)
        if op == "apsp_some":
            if s.b["route"] in ("nx", "raw"):
                continue
            ct, h = cut(rng, len(gr["nd"]))
            s.add("apsp", g, all=False, S=some(rng, gr["nd"]), cut=ct, h=h, via="core")
            continue
        add_dist(s, g, gr, rng, op)
    s.project(g)
    return s.done()


PLANS = {"C04": c04, "C05": c05}
