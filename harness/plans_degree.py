"""Degree-based measures (C14) and structural predicates (C15)."""
import gen
from pcommon import Sess, pick, subset
from plans_reach import dim
from plans_weighted import noise, scale

WK = ["one", "iso", "pos", "pos", "zero", "mixed", "isozero", "negall"]
ALL = ["degree_centrality", "is_isolate", "isolates", "number_of_isolates", "is_regular", "s_metric"]
DIR = ["in_degree_centrality", "out_degree_centrality", "overall_reciprocity", "reciprocity", "reciprocity"]
UND = ["is_k_regular"]


def add_deg(s, g, gr, rng, op=None, u=None):
    nd, N = gr["nd"], dim(gr)
    if op is None:
        op = rng.choice(ALL + (DIR if gr["dir"] else UND) * 2 + (DIR + UND if rng.random() < 0.1 else []))
    kw = {}
    if op == "is_isolate":
        kw["u"] = pick(rng, nd, N) if u is None else u
    elif op == "is_k_regular":
        k = [sum(gr["a"][v - 1]) for v in nd] or [0]
        kw["k"] = rng.choice(k + [0, 1, 2])
    elif op == "reciprocity":
        r = rng.random()
        if u is not None or r < 0.4:
            kw = {"sel": "one", "u": u or pick(rng, nd, N), "S": []}
        elif r < 0.55:
            kw = {"sel": "all", "u": 0, "S": []}
        else:
            S = subset(rng, nd)
            if rng.random() < 0.1:
                S.append(0)
            kw = {"sel": "some", "S": S, "u": 0}
        kw["h"] = {"kind": rng.choice(["list", "set", "gen", "iter"])}
    s.add(op, g, **kw)


def regularish(rng):
    """Regular and nearly regular graphs."""
    n = rng.randint(1, 8)
    d = rng.random() < 0.5
    k = rng.randint(0, min(3, n - 1)) if n > 1 else 0
    E = set()
    for u in range(n):
        for j in range(1, k + 1):
            E.add((u + 1, (u + j) % n + 1))
    if not d:
        E = {(min(e), max(e)) for e in E}
    E = sorted(E)
    r = rng.random()
    if r < 0.25:
        E += [(u, u) for u in range(1, n + 1)]
    if r > 0.6 and E:
        E.pop(rng.randrange(len(E)))
    if rng.random() < 0.2 and n > 1 and not d:
        E = [e for e in E if 1 not in e]
    return gen.relabel(rng, n, d, E, rng.choice(WK), extra=rng.randint(0, 2))


def rewire(rng, gr):
    """Same universe, a graph isomorphic to gr or close to it, and the witness."""
    N = dim(gr)
    tgt = rng.sample(range(1, N + 1), len(gr["nd"]))
    m = dict(zip(gr["nd"], tgt))
    E = [(m[u], m[v]) for u, v, _ in gen.uedges_of(gr)]
    nd = list(tgt)
    rng.shuffle(nd)
    r = rng.random()
    if r < 0.45 and E:
        if rng.random() < 0.6 and len(E) > 1:  # degree-preserving swap
            for _ in range(6):
                a, b = rng.sample(E, 2)
                n1, n2 = (a[0], b[1]), (b[0], a[1])
                F = [x for x in E if x not in (a, b)]
                norm = (lambda t: t) if gr["dir"] else (lambda t: (min(t), max(t)))
                S = {norm(x) for x in F}
                if norm(n1) not in S and norm(n2) not in S and norm(n1) != norm(n2) and n1[0] != n1[1] and n2[0] != n2[1]:
                    E = F + [n1, n2]
                    break
        else:
            E.pop(rng.randrange(len(E)))
    elif r < 0.55 and nd:
        nd = nd[:-1]
        E = [e for e in E if e[0] in nd and e[1] in nd]
    return gen.mk(N, nd, gr["dir"], gen.weights(rng, E, rng.choice(WK))), tgt


def same_margins(rng, n, tries):
    """Pairs of graphs with the same degrees and the same triangle counts, but not of the same nodes."""
    seen = {}
    pool = [(u, v) for u in range(n) for v in range(u + 1, n)]
    for _ in range(tries):
        E = rng.sample(pool, rng.randint(n, 2 * n))
        nb = [set() for _ in range(n)]
        for u, v in E:
            nb[u].add(v)
            nb[v].add(u)
        d = [len(x) for x in nb]
        t = [sum(len(nb[v] & nb[u]) for v in nb[u]) // 2 for u in range(n)]
        k, j = (tuple(sorted(d)), tuple(sorted(t))), sorted(zip(d, t))
        for j2, E2 in seen.setdefault(k, []):
            if j2 != j:
                yield E, E2
                break
        else:
            seen[k].append((j, E))


def add_iso(s, g, gr, rng, pair=None):
    if s.b["route"] == "raw":
        return
    b0, l0 = s.b, s.last
    h, wit = pair or rewire(rng, gr)
    from pcommon import route
    b = route(rng, h, s.lab)
    while (b["route"] == "nx") != (b0["route"] == "nx"):
        b = route(rng, h, s.lab)
    g2 = s.graph(h, b=b)
    for op in ("fast_iso", "faster_iso"):
        s.add(op, g, g2=g2, wit=wit, h={"swap": False})
    # asking about a graph and itself
    s.add("fast_iso", g, g2=g, wit=gr["nd"])
    s.b, s.last = b0, l0


def c14(rng, tier, shard, nsh):
    big = tier == "thorough"
    for i, (n, d, E) in enumerate(gen.all_small(3, 4)):
        if i % nsh != shard:
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(WK), extra=rng.choice([0, 0, 1]))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, raw_ok=True)
        for op in ALL + (DIR if d else UND):
            if op in ("is_isolate", "reciprocity"):
                for u in gr["nd"]:
                    add_deg(s, g, gr, rng, op, u)
            add_deg(s, g, gr, rng, op)
        add_iso(s, g, gr, rng)
        s.project(g)
        yield s.done()
    for i in range(350 if not big else 8000):
        gr = regularish(rng) if rng.random() < 0.25 else gen.rand_graph(rng, rng.choice([4, 6, 9, 14]), wkinds=WK)
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        noise(s, g, rng)
        for _ in range(8):
            add_deg(s, g, gr, rng)
        add_iso(s, g, gr, rng)
        for _ in range(4):
            add_deg(s, g, gr, rng)
        s.project(g)
        yield s.done()
    k = 0
    for E, F in same_margins(rng, 7, 2500 if not big else 40000):
        gr, h = (gen.relabel(rng, 7, False, [(u + 1, v + 1) for u, v in X], rng.choice(WK)) for X in (E, F))
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        add_iso(s, g, gr, rng, (h, []))
        yield s.done()
        k += 1
        if k == (12 if not big else 200):
            break
    for n, kind, d in gen.big_set(shard) * (1 if not big else 12):
        gr = gen.big_graph(rng, n, wkinds=("one", "pos"), kind=kind, dir=d)
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        noise(s, g, rng)
        for _ in range(6):
            add_deg(s, g, gr, rng)
        if n < 200:
            add_iso(s, g, gr, rng)
        s.project(g)
        yield s.done()


PRED = ["is_triad", "is_simple_path", "is_simple_path", "mutual_weight", "intra_edges", "inter_edges"]
PDIR = ["is_tournament", "score_sequence", "tournament_matrix"]


def walkpath(rng, gr):
    nd = gr["nd"]
    r = rng.random()
    if not nd or r < 0.05:
        return []
    if r < 0.2:
        return [rng.choice(nd + [0]) for _ in range(rng.randint(1, 5))]
    p = [rng.choice(nd)]
    L = rng.randint(0, 6)
    for _ in range(L):
        nx = [v for v in nd if gr["a"][p[-1] - 1][v - 1]]
        fresh = [v for v in nx if v not in p]
        if fresh and rng.random() < 0.9:
            p.append(rng.choice(fresh))
        elif nx:
            p.append(rng.choice(nx))
        else:
            break
    r = rng.random()
    if r < 0.15:
        p.reverse()
    elif r < 0.25:
        p.insert(rng.randint(0, len(p)), rng.choice(nd + [0]))
    elif r < 0.32 and len(p) > 2:
        p.pop(rng.randrange(1, len(p) - 1))
    return p


def add_pred(s, g, gr, rng, op=None, **a):
    nd, N = gr["nd"], dim(gr)
    op = op or rng.choice(PRED + (PDIR if gr["dir"] or rng.random() < 0.05 else []))
    kw = dict(a)
    isn = s.b["route"] == "nx"
    if op == "tournament_matrix":
        kw["unw"] = isn
    elif op == "is_simple_path" and not a:
        kw = {"p": walkpath(rng, gr)}
    elif op == "mutual_weight":
        kw.setdefault("u", pick(rng, nd, N))
        kw.setdefault("v", pick(rng, nd, N))
        h = {}
        kw["unw"] = isn
        if isn and rng.random() < 0.6:
            h["attr"] = s.b.get("attr", "weight")
            kw["unw"] = False
        kw["h"] = h
    elif op in ("intra_edges", "inter_edges") and not a:
        k = rng.randint(1, 4)
        P = [[] for _ in range(k)]
        for u in nd:
            P[rng.randrange(k)].append(u)
        if op == "intra_edges" and rng.random() < 0.2:
            P = [subset(rng, nd) + ([0] if rng.random() < 0.3 else []) for _ in range(rng.randint(0, 3))]
        elif rng.random() < 0.5:
            P = [b for b in P if b]
        kw = {"P": P}
    kw.setdefault("h", {})
    kw["h"] = dict(kw["h"], tup=rng.random() < 0.3, k=rng.choice(["list", "set", "fs", "tup"]))
    s.add(op, g, **kw)


def tourney(rng):
    n = rng.randint(0, 6)
    E = []
    for u in range(1, n + 1):
        for v in range(u + 1, n + 1):
            E.append((u, v) if rng.random() < 0.5 else (v, u))
    r = rng.random()
    if r < 0.15 and E:  # one edge dropped
        E.pop(rng.randrange(len(E)))
    elif r < 0.3 and len(E) > 1:  # right number of edges, but not a tournament
        u, v = E.pop(rng.randrange(len(E)))
        x = rng.choice(E)
        E.append((x[1], x[0]))
    elif r < 0.4 and E:  # an edge replaced by a loop
        u, v = E.pop(rng.randrange(len(E)))
        E.append((u, u))
    elif r < 0.5 and n:
        E.append((1, 1))
    E = list(dict.fromkeys(E))
    return gen.relabel(rng, n, True, E, rng.choice(WK), extra=rng.randint(0, 1))


def c15(rng, tier, shard, nsh):
    big = tier == "thorough"
    for i, (n, d, E) in enumerate(gen.all_small(3, 3)):
        if i % nsh != shard:
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(WK), extra=rng.choice([0, 0, 1]))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, raw_ok=True)
        nd = gr["nd"]
        for op in (PDIR if d else []) + ["is_triad"]:
            add_pred(s, g, gr, rng, op)
        for u in nd:
            for v in nd:
                add_pred(s, g, gr, rng, "mutual_weight", u=u, v=v)
                add_pred(s, g, gr, rng, "is_simple_path", p=[u, v])
                if n == 3 or big:
                    for x in nd:
                        add_pred(s, g, gr, rng, "is_simple_path", p=[u, v, x])
        for op in ("intra_edges", "inter_edges"):
            for P in [[nd], [[u] for u in nd], [nd[:1], nd[1:]], [nd[1:2], nd[:1] + nd[2:]]]:
                add_pred(s, g, gr, rng, op, P=P)
        yield s.done()
    for i in range(450 if not big else 9000):
        gr = tourney(rng) if rng.random() < 0.4 else scale(rng, gen.rand_graph(rng, rng.choice([3, 5, 7, 10]), wkinds=WK))
        s = Sess(rng, dim(gr))
        g = s.graph(gr)
        noise(s, g, rng)
        for op in PDIR if gr["dir"] else []:
            add_pred(s, g, gr, rng, op)
        for _ in range(12):
            add_pred(s, g, gr, rng)
        s.project(g)
        yield s.done()


PLANS = {"C14": c14, "C15": c15}
