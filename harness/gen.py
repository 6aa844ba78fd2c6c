"""Abstract graph generators (pure Python, no library under test involved)."""
import itertools


def mk(N, nd, dir, edges, w=None, sc=1):
    """edges: iterable of (u, v) or (u, v, w); labels 1..N."""
    a = [[0] * N for _ in range(N)]
    ww = [[0] * N for _ in range(N)]
    for e in edges:
        u, v = e[0], e[1]
        x = e[2] if len(e) > 2 else 1
        a[u - 1][v - 1] = 1
        ww[u - 1][v - 1] = x
        if not dir:
            a[v - 1][u - 1] = 1
            ww[v - 1][u - 1] = x
    return {"nd": list(nd), "dir": bool(dir), "a": a, "w": ww, "sc": sc}


def edges_of(g):
    """Ordered pairs (u, v, w); both orientations for undirected."""
    N = len(g["a"])
    return [(u + 1, v + 1, g["w"][u][v]) for u in range(N) for v in range(N) if g["a"][u][v]]


def uedges_of(g):
    return [(u, v, w) for u, v, w in edges_of(g) if g["dir"] or u <= v]


def from_code(n, dir, loops, code):
    """The code-th graph on n nodes: bit i = i-th possible edge."""
    if dir:
        ps = [(u, v) for u in range(1, n + 1) for v in range(1, n + 1) if loops or u != v]
    else:
        ps = [(u, v) for u in range(1, n + 1) for v in range(u, n + 1) if loops or u != v]
    return [p for i, p in enumerate(ps) if code >> i & 1]


def n_codes(n, dir, loops):
    k = n * n if dir else n * (n + 1) // 2
    if not loops:
        k -= n
    return 1 << k


def all_small(ndir, nund, loops=True, loops_und=True):
    """Every digraph with <= ndir nodes and undirected graph with <= nund nodes."""
    out = []
    for n in range(0, ndir + 1):
        for c in range(n_codes(n, True, loops)):
            out.append((n, True, from_code(n, True, loops, c)))
    for n in range(0, nund + 1):
        for c in range(n_codes(n, False, loops_und)):
            out.append((n, False, from_code(n, False, loops_und, c)))
    return out


def shape(rng, n, dir):
    """Edge list of a random graph of a random family on nodes 1..n."""
    if n == 0:
        return []
    kind = rng.choice(
        ["er", "er", "er", "er", "sparse", "dense", "path", "cycle", "tree", "star", "dag",
         "comps", "bip", "empty", "loops", "complete", "functional", "lollipop", "wheel", "layers"]
    )
    P = list(range(1, n + 1))
    rng.shuffle(P)
    E = []
    if kind in ("er", "sparse", "dense"):
        p = {"er": rng.choice([0.15, 0.3, 0.5]), "sparse": 1.2 / max(n, 1), "dense": 0.8}[kind]
        for u in P:
            for v in P:
                if u != v and (dir or u < v) and rng.random() < p:
                    E.append((u, v))
    elif kind == "path":
        E = [(P[i], P[i + 1]) for i in range(n - 1)]
        if dir and rng.random() < 0.3:
            E = [(v, u) if rng.random() < 0.4 else (u, v) for u, v in E]
    elif kind == "cycle":
        E = [(P[i], P[(i + 1) % n]) for i in range(n)]
        if n <= 2 and not dir:
            E = E[:1]
        if dir and rng.random() < 0.3:
            E = [(v, u) if rng.random() < 0.4 else (u, v) for u, v in E]
    elif kind == "tree":
        E = [(P[rng.randrange(i)], P[i]) for i in range(1, n)]
        if dir and rng.random() < 0.5:
            E = [(v, u) if rng.random() < 0.5 else (u, v) for u, v in E]
    elif kind == "star":
        E = [(P[0], x) for x in P[1:]]
        if dir:
            E = [(v, u) if rng.random() < 0.5 else (u, v) for u, v in E]
    elif kind == "dag":
        p = rng.choice([0.2, 0.4, 0.7])
        E = [(P[i], P[j]) for i in range(n) for j in range(i + 1, n) if rng.random() < p]
    elif kind == "comps":
        k = rng.randint(1, n)
        for part in (P[:k], P[k:]):
            for u in part:
                for v in part:
                    if u != v and (dir or u < v) and rng.random() < 0.6:
                        E.append((u, v))
    elif kind == "bip":
        k = rng.randint(1, n)
        E = [(u, v) for u in P[:k] for v in P[k:] if rng.random() < 0.7]
        if dir:
            E = [(v, u) if rng.random() < 0.3 else (u, v) for u, v in E]
    elif kind == "loops":
        E = [(u, u) for u in P if rng.random() < 0.6]
        E += [(u, v) for u in P for v in P if u != v and (dir or u < v) and rng.random() < 0.25]
    elif kind == "complete":
        E = [(u, v) for u in P for v in P if u != v and (dir or u < v)]
        for _ in range(rng.randint(0, 2)):
            if E:
                E.pop(rng.randrange(len(E)))
    elif kind == "functional":
        E = [(u, rng.choice(P)) for u in P]
    elif kind == "lollipop":
        k = max(1, n // 2)
        E = [(u, v) for u in P[:k] for v in P[:k] if u != v and (dir or u < v)]
        E += [(P[i], P[i + 1]) for i in range(k - 1, n - 1)]
    elif kind == "wheel":
        E = [(P[0], x) for x in P[1:]]
        E += [(P[i], P[i + 1] if i + 1 < n else P[1]) for i in range(1, n) if n > 2]
        E = [(u, v) for u, v in E if u != v]
    elif kind == "layers":
        for i in range(n):
            for j in range(i + 1, min(n, i + 4)):
                if rng.random() < 0.6:
                    E.append((P[i], P[j]))
    if dir and rng.random() < 0.25:  # sprinkle reciprocals
        E += [(v, u) for u, v in E if rng.random() < 0.5]
    if rng.random() < 0.35:
        E += [(u, u) for u in P if rng.random() < 0.3]
    if not dir:
        E = list({(min(e), max(e)) for e in E})
    else:
        E = list(dict.fromkeys(E))
    E.sort()
    rng.shuffle(E)
    return E


WKINDS = ["one", "iso", "pos", "pos", "zero", "neg1", "mixed", "negall", "bigpos", "isoneg", "cubes"]


def weights(rng, E, kind):
    if kind == "one":
        return [(u, v, 1) for u, v in E]
    if kind == "iso":
        c = rng.choice([2, 3, 5])
        return [(u, v, c) for u, v in E]
    if kind == "isoneg":
        c = rng.choice([-1, -2, -3])
        return [(u, v, c) for u, v in E]
    if kind == "isozero":
        return [(u, v, 0) for u, v in E]
    if kind == "pos":
        return [(u, v, rng.randint(1, 5)) for u, v in E]
    if kind == "bigpos":
        return [(u, v, rng.randint(1, 60)) for u, v in E]
    if kind == "zero":
        return [(u, v, rng.randint(0, 3)) for u, v in E]
    if kind == "neg1":
        L = [(u, v, rng.randint(0, 4)) for u, v in E]
        if L:
            i = rng.randrange(len(L))
            L[i] = (L[i][0], L[i][1], -rng.randint(1, 3))
        return L
    if kind == "mixed":
        return [(u, v, rng.randint(-2, 6)) for u, v in E]
    if kind == "negall":
        return [(u, v, -rng.randint(1, 4)) for u, v in E]
    if kind == "cubes":
        return [(u, v, rng.choice([1, 8, 27, 64])) for u, v in E]
    if kind == "cubes0":
        return [(u, v, rng.choice([0, 1, 8, 27, 125])) for u, v in E]
    if kind == "iso8":
        return [(u, v, 8) for u, v in E]
    if kind == "bits":
        return [(u, v, rng.randint(0, 1)) for u, v in E]
    if kind == "huge":
        return [(u, v, rng.choice([rng.randint(0, 9000000), rng.randint(32000, 70000), 16777217])) for u, v in E]
    if kind == "hugepot":
        pot = {}
        for u, v in E:
            pot.setdefault(u, rng.randint(-9000000, 9000000))
            pot.setdefault(v, rng.randint(-9000000, 9000000))
        return [(u, v, rng.randint(0, 70000) + pot[v] - pot[u]) for u, v in E]
    if kind == "potential":  # negative weights, no negative cycle (directed)
        pot = {}
        for u, v in E:
            pot.setdefault(u, rng.randint(-4, 4))
            pot.setdefault(v, rng.randint(-4, 4))
        return [(u, v, rng.randint(0, 3) + pot[v] - pot[u]) for u, v in E]
    raise ValueError(kind)


def rand_graph(rng, nmax=7, dir=None, wkinds=("one",), extra=2, nmin=0, loops=None, n=None):
    """A random abstract graph; universe has up to `extra` labels that are not nodes."""
    if n is None:
        n = rng.choice([rng.randint(nmin, nmax), rng.randint(max(nmin, min(3, nmax)), nmax)])
    if dir is None:
        dir = rng.random() < 0.5
    N = n + rng.randint(0, extra) if extra else n
    N = max(N, 1)
    nd = list(range(1, N + 1))
    rng.shuffle(nd)
    nd = nd[:n]
    if rng.random() < 0.3:
        nd.sort()
    E = shape(rng, n, dir)
    if loops is False:
        E = [(u, v) for u, v in E if u != v]
    E = [(nd[u - 1], nd[v - 1]) for u, v in E]
    if not dir:
        E = list({(min(e), max(e)) for e in E})
        E.sort()
    W = weights(rng, E, rng.choice(list(wkinds)))
    return mk(N, nd, dir, W)


def relabel(rng, n, dir, E, w=None, extra=0):
    """Small enumerated graph (nodes 1..n) -> random label placement and storage order."""
    N = max(1, n + extra)
    nd = list(range(1, N + 1))
    rng.shuffle(nd)
    nd = nd[:n]
    E = [(nd[u - 1], nd[v - 1]) for u, v in E]
    W = weights(rng, E, w or "one")
    if rng.random() < 0.5:
        order = list(nd)
        rng.shuffle(order)
    else:
        order = nd
    return mk(N, order, dir, W)


BIGK = ["path", "cycle", "star", "star", "star2", "er", "er", "grid", "tree", "comps", "caterpillar", "bip"]


def big_set(shard):
    """(n, kind, dir) of the large graphs of one shard; None leaves the choice to chance."""
    i = shard % 8
    return [
        (50, None, None),
        (140, None, None),
        (200, ["path", "cycle", "caterpillar", "path"][i % 4], i % 2 == (i >= 4)),
        (270, None, None),
    ]


def far(gr, k=3):
    """Some nodes of large eccentricity."""
    nd = gr["nd"]
    adj = {u: [v for v in nd if gr["a"][u - 1][v - 1]] for u in nd}
    ecc = []
    for u in nd:
        seen, q, d = {u}, [u], 0
        while q:
            q = list(dict.fromkeys(v for x in q for v in adj[x] if v not in seen))
            seen.update(q)
            d += bool(q)
        ecc.append((d, u))
    return [u for _, u in sorted(ecc)[-k:]]


def big_graph(rng, n, dir=None, wkinds=("one", "pos"), loops=None, kind=None):
    """A graph of n nodes: large diameter, large degree, or ordinary but large."""
    if dir is None:
        dir = rng.random() < 0.5
    kind = kind or rng.choice(BIGK)
    P = list(range(1, n + 1))
    rng.shuffle(P)
    if kind == "path":
        E = [(P[i], P[i + 1]) for i in range(n - 1)]
    elif kind == "dense":
        E = [(u, v) for i, u in enumerate(P) for v in (P if dir else P[i + 1 :]) if u != v]
        for _ in range(rng.randint(0, 4)):
            E.pop(rng.randrange(len(E)))
    elif kind == "cycle":
        E = [(P[i], P[(i + 1) % n]) for i in range(n)]
    elif kind == "star":
        E = [(P[0], x) for x in P[1:]]
        r = rng.random()
        if dir and r < 0.4:
            E = [(v, u) for u, v in E]
        elif dir and r < 0.6:
            E += [(v, u) for u, v in E]
    elif kind == "star2":
        E = [(P[rng.randrange(2)], x) for x in P[2:]] + [(P[0], P[1])]
        E += [(x, y) for x, y in zip(P[2:], P[3:]) if rng.random() < 0.7]
        if dir:
            E += [(v, u) for u, v in E if rng.random() < 0.4]
    elif kind == "er":
        m = rng.choice([1, 2, 3]) * n
        E = [(rng.choice(P), rng.choice(P)) for _ in range(m)]
        E = [(u, v) for u, v in E if u != v]
    elif kind == "grid":
        c = rng.randint(3, 9)
        E = [(P[i], P[i + 1]) for i in range(n - 1) if (i + 1) % c] + [(P[i], P[i + c]) for i in range(n - c)]
        if dir:
            E = [(v, u) if rng.random() < 0.2 else (u, v) for u, v in E]
    elif kind == "tree":
        E = [(P[rng.randrange(i)], P[i]) for i in range(1, n)]
    elif kind == "comps":
        k = n // 2
        E = [(P[i], P[i + 1]) for i in range(n - 1) if i != k] + [(rng.choice(P[:k]), rng.choice(P[:k])) for _ in range(n)]
        E = [(u, v) for u, v in E if u != v]
    elif kind == "caterpillar":
        k = n // 2
        E = [(P[i], P[i + 1]) for i in range(k - 1)] + [(P[rng.randrange(k)], P[i]) for i in range(k, n)]
    else:
        E = [(P[rng.randrange(3)], x) for x in P[3:]] + [(P[0], x) for x in P[3:] if rng.random() < 0.6]
    if loops is not False and rng.random() < 0.3:
        E += [(u, u) for u in P if rng.random() < 0.2]
    if not dir:
        E = list({(min(e), max(e)) for e in E})
        E.sort()
    else:
        E = list(dict.fromkeys(E))
    if rng.random() < 0.3:
        rng.shuffle(P)
    else:
        P.sort()
    return mk(n, P, dir, weights(rng, E, rng.choice(list(wkinds))))
