import gen
from pcommon import Sess, route
from plans_reach import dim
from plans_weighted import noise
from plans_sub import derived

WK = ["one", "iso", "pos", "pos", "zero", "mixed", "isozero", "negall"]
BIN = ["union", "union", "full_join", "intersection", "difference", "symmetric_difference", "compose", "compose",
       "union_rn", "full_join_rn", "disjoint_union"]


def remap(rng, gr, N, nd):
    """Graph gr with its nodes renamed to the labels nd inside universe N."""
    m = dict(zip(gr["nd"], nd))
    E = [(m[u], m[v], w) for u, v, w in gen.uedges_of(gr)]
    return gen.mk(N, nd, gr["dir"], E, sc=gr["sc"])


def second(rng, gr, dir=None, rel=None):
    """A second operand for gr in the same universe, node sets related in a chosen way."""
    N = len(gr["a"])
    nd = list(gr["nd"])
    out = [x for x in range(1, N + 1) if x not in nd]
    rel = rel or rng.choice(["same", "same", "sub", "disj", "over", "super", "any"])
    if rel == "same":
        S = list(nd)
    elif rel == "sub":
        S = [x for x in nd if rng.random() < 0.6]
    elif rel == "disj":
        S = [x for x in out if rng.random() < 0.8]
    elif rel == "super":
        S = nd + [x for x in out if rng.random() < 0.6]
    elif rel == "over":
        S = [x for x in nd if rng.random() < 0.6] + [x for x in out if rng.random() < 0.6]
    else:
        S = [x for x in range(1, N + 1) if rng.random() < 0.5]
    if rel != "same" or rng.random() < 0.6:
        rng.shuffle(S)
    dir = gr["dir"] if dir is None else dir
    E = gen.shape(rng, len(S), dir)
    if not dir:
        E = list({(min(e), max(e)) for e in E})
    W = gen.weights(rng, sorted(E), rng.choice(WK))
    h = gen.mk(N, S, dir, [(S[u - 1], S[v - 1], w) for u, v, w in W])
    if S and rel in ("same", "over", "sub", "super") and rng.random() < 0.5:  # share many edges
        for u in S:
            for v in S:
                if gr["dir"] == dir and u in nd and v in nd and rng.random() < 0.6:
                    h["a"][u - 1][v - 1] = gr["a"][u - 1][v - 1]
                    h["w"][u - 1][v - 1] = gr["w"][u - 1][v - 1] + (gr["a"][u - 1][v - 1] and rng.choice([0, 1]))
                    if not dir:
                        h["a"][v - 1][u - 1] = h["a"][u - 1][v - 1]
                        h["w"][v - 1][u - 1] = h["w"][u - 1][v - 1]
    return h


def rep(b):
    return b["dtype"] == "BOOL"


def add_bin(s, g, g2, gr, h, rng, bs, op=None):
    op = op or rng.choice(BIN)
    if op in ("difference", "symmetric_difference") and gr["dir"] != h["dir"]:
        return
    isn = [b["route"] == "nx" for b in bs]
    wt = not any(isn) and not any(b["dtype"] == "BOOL" for b in bs)
    via = rng.choice(["api", "api", "nx"]) if isn[0] == isn[1] else "api"
    e = {"g2": g2, "wt": wt, "h": {}}
    if op in ("union", "full_join"):
        e["h"]["rn"] = rng.choice([0, 0, 1, 2] + ([3] if op == "union" else []))
    if op in ("union_rn", "full_join_rn"):
        if s.lab == "mix":
            return
        pre = rng.choice([("G-", "H-"), ("a", "b"), ("x", "xx"), (None, "H."), ("G.", None), ("p", "p")])
        import vlib
        nm = lambda p, x: vlib.LABELS[s.lab](x, s.N) if p is None else "%s%s" % (p, vlib.LABELS[s.lab](x, s.N))
        A, B = {nm(pre[0], x) for x in gr["nd"]}, {nm(pre[1], x) for x in h["nd"]}
        if len(A) < len(gr["nd"]) or len(B) < len(h["nd"]):
            return
        e["clash"] = bool(A & B)
        e["h"]["pre"] = list(pre)
        s.add(op, g, via=via, **e)
    elif op == "disjoint_union":
        s.add(op, g, via=via, **e)
    else:
        r = s.res(op, g, via=via, **e)
        if rng.random() < 0.3 and gr["sc"] == 1:
            derived(s, r, rng, gr["dir"])


def add_un(s, g, gr, rng, b, op=None):
    op = op or rng.choice(["complement", "reverse", "reverse", "to_undirected"])
    isn = b["route"] == "nx"
    wt = not isn
    if op == "to_undirected" and (isn or not gr["dir"]):
        op = "complement"
    if op == "complement":
        r = s.res(op, g, g2=g, wt=wt, h={}, via=rng.choice(["api", "nx"]))
    elif op == "reverse":
        h = {"copy": rng.choice([None, True, True, False]), "method": rng.random() < 0.3}
        r = s.res(op, g, g2=g, wt=wt, h=h, via=rng.choice(["api", "nx"]))
        if h["copy"] is False:
            return
    else:
        r = s.res(op, g, g2=g, wt=wt, recip=rng.random() < 0.5, h={}, via="api")
    if rng.random() < 0.3 and gr["sc"] == 1:
        derived(s, r, rng, gr["dir"] and op != "to_undirected")


def add_operators(s, g, gr, rng):
    """One operand given; the second is made on the fly (history sessions)."""
    if rng.random() < 0.4:
        return add_un(s, g, gr, rng, s.b)
    b, last = s.b, s.last
    h = second(rng, gr, None if rng.random() < 0.95 else not gr["dir"])
    g2 = s.graph(h, nx_ok=b["route"] == "nx")
    b2 = s.b
    s.b, s.last = b, last
    if rng.random() < 0.7:
        add_bin(s, g, g2, gr, h, rng, (b, b2))
    else:
        s.b, s.last = b2, h
        add_bin(s, g2, g, h, gr, rng, (b2, b))
        s.b, s.last = b, last


def widen(gr, N):
    """The same graph in a universe of N labels."""
    n = len(gr["a"])
    if n >= N:
        return gr
    gr = dict(gr)
    for k in ("a", "w"):
        gr[k] = [row + [0] * (N - n) for row in gr[k]] + [[0] * N for _ in range(N - n)]
    return gr


def fractions(rng, gr, sc):
    """Real weights with denominator sc, or whole ones held in any type: the graph and its construction (or None)."""
    if rng.random() < 0.55:
        b = gr
        gr = dict(gr, w=[[x * sc for x in row] for row in gr["w"]], sc=sc)
        return gr, b
    return dict(gr, sc=sc), None


def c13(rng, tier, shard, nsh):
    big = tier == "thorough"
    small = [x for x in gen.all_small(2, 3)]
    pairs = [(x, y) for x in small for y in small if x[1] == y[1]]
    for i, (x, y) in enumerate(pairs):
        if i % nsh != shard or (not big and rng.random() < 0.93 and x[0] + y[0] > 3):
            continue
        gr = widen(gen.relabel(rng, *x, rng.choice(WK)), 5)
        lo = rng.randint(0, 2)
        nd = list(range(1 + lo, 4 + lo))
        rng.shuffle(nd)
        h0 = gen.relabel(rng, *y, rng.choice(WK))
        h = remap(rng, h0, 5, nd[: y[0]]) if rng.random() < 0.5 else widen(h0, 5)
        s = Sess(rng, 5)
        g = s.graph(gr, nx_ok=False)
        b = s.b
        g2 = s.graph(h, nx_ok=False)
        b2 = s.b
        for op in sorted(set(BIN)):
            add_bin(s, g, g2, gr, h, rng, (b, b2), op)
        for op in ("complement", "reverse", "to_undirected"):
            add_un(s, g, gr, rng, b, op)
        s.project(g, gr)
        s.project(g2, h)
        yield s.done()
    for i in range(330 if not big else 8000):
        gr = gen.rand_graph(rng, rng.choice([3, 5, 7]), wkinds=WK, extra=5)
        s = Sess(rng, dim(gr))
        sc = rng.choice([2, 4]) if rng.random() < 0.3 else 1
        h = second(rng, gr, None if rng.random() < 0.93 else not gr["dir"])
        if sc != 1:
            gr, whole = fractions(rng, gr, sc)
            g = s.graph(gr, b=route(rng, whole or gr, s.lab))
        else:
            g = s.graph(gr)
        noise(s, g, rng)
        b = s.b
        nxk = b["route"] == "nx" or rng.random() < 0.1
        if sc != 1:
            h, whole = fractions(rng, h, sc)
            g2 = s.graph(h, b=route(rng, whole or h, s.lab, nx_ok=nxk))
        else:
            g2 = s.graph(h, nx_ok=nxk)
        b2 = s.b
        for _ in range(6):
            if rng.random() < 0.5:
                s.b, s.last = b, gr
                add_bin(s, g, g2, gr, h, rng, (b, b2))
            else:
                s.b, s.last = b2, h
                add_bin(s, g2, g, h, gr, rng, (b2, b))
        s.b, s.last = b, gr
        add_un(s, g, gr, rng, b)
        add_un(s, g, gr, rng, b)
        s.project(g, gr)
        s.b = b2
        s.project(g2, h)
        yield s.done()
    for n in [30, 50, 90] * (1 if not big else 12):
        gr = widen(gen.big_graph(rng, n, wkinds=WK), n + 20)
        h = second(rng, gr, None)
        s = Sess(rng, n + 20)
        g = s.graph(gr, nx_ok=False)
        b = s.b
        g2 = s.graph(h, nx_ok=False)
        b2 = s.b
        for _ in range(3):
            add_bin(s, g, g2, gr, h, rng, (b, b2))
        s.b, s.last = b, gr
        add_un(s, g, gr, rng, b)
        s.project(g, gr)
        yield s.done()


PLANS = {"C13": c13}
