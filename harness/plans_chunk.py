import gen
import plans_props
from pcommon import Sess, route
from plans_reach import dim, long_graph
from plans_weighted import NONNEG, noise

NBAD = 14


def sizes(rng, n):
    """Chunk sizes that fall before, on and after every boundary."""
    S = [None, "all", 0, -1, "", "1 chunk", "10 MiB", n, n + 1, 1, 2, 3]
    S += [rng.randint(1, max(n, 1)) for _ in range(3)]
    S += [float(rng.randint(1, 5)), 2.5, "%d" % rng.randint(1, n + 2), "%d_0" % rng.randint(1, 2)]
    S += ["%d chunks" % rng.randint(2, n + 2), "%dchunks" % rng.randint(2, n + 2), "2.5 chunks"]
    b = max(1, n * 8)
    S += ["%d b" % rng.randint(1, 3 * b), "%d B" % (b * rng.randint(1, 4)), "%.3f kB" % (rng.randint(1, 3 * b) / 1000),
          "%.4f KiB" % (b / 1024), "b", "kb", "0 chunks", "0.5 chunks", "1.0 chunk", "0", "0 b", "0kB", "0.001 B"]
    return S


def ask(s, g, gr, rng, fn, cs):
    isga = s.b["route"] not in ("nx", "raw")
    h = {"chunk": cs}
    if isga and rng.random() < 0.25:
        h["mid"] = plans_props.noise_props(rng, gr["dir"], s.b["dtype"])
        h["at"] = rng.randint(0, len(gr["nd"]))
    via = rng.choice(["api", "api", "nx"])
    if fn == "apsp":
        ct = [rng.randint(0, 4)] if rng.random() < 0.4 else []
        s.add("apsp", g, all=True, S=[], cut=ct, h=h, via=via)
    elif fn == "ap_bf":
        kw = {"attr": s.b.get("attr", "weight")} if s.b["route"] == "nx" else {}
        s.add("ap_bf", g, all=True, S=[], h=h, via=via, **kw)
    else:
        if s.b["route"] == "nx" or rng.random() < 0.7:
            via = "api"
        a = {"sel": "all", "S": [], "u": 0}
        if rng.random() < 0.5:
            a = {"sel": "some", "S": rng.sample(gr["nd"], rng.randint(0, len(gr["nd"]))), "u": 0}
        h["kind"] = rng.choice(["list", "set", "gen", "iter"])
        s.add("sq_clust", g, h=h, via=via, **a)


def bad(s, g, gr, rng):
    s.add("chunk_bad", g, fn=rng.choice(["all_pairs_shortest_path_length", "all_pairs_bellman_ford_path_length"] +
                                        (["square_clustering"] if not gr["dir"] else [])), bad=rng.randrange(NBAD), via="api")


def session(rng, gr, k, one=None):
    loops = any(gr["a"][i][i] for i in range(len(gr["a"])))
    fns = ["apsp", "ap_bf"] + (["sq_clust"] if not gr["dir"] and not loops else [])
    s = Sess(rng, dim(gr))
    g = s.graph(gr, ["hop", "wd"], raw_ok=True)
    noise(s, g, rng)
    fn = rng.choice(fns)
    for _ in range(k):
        f = fn if rng.random() < 0.7 else rng.choice(fns)
        ask(s, g, gr, rng, f, rng.choice(sizes(rng, len(gr["nd"]))))
        if rng.random() < 0.06:
            bad(s, g, gr, rng)
    s.project(g)
    return s.done()


def c23(rng, tier, shard, nsh):
    big = tier == "thorough"
    WK = NONNEG + ["potential", "mixed"]
    for i, (n, d, E) in enumerate(gen.all_small(3, 4)):
        if i % nsh != shard:
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(WK), extra=rng.choice([0, 1]))
        yield session(rng, gr, 6)
    # every number of nodes with every chunk size, on one connected graph each
    for n in range(1, 13 if not big else 20):
        if n % nsh != shard:
            continue
        for fn in ("apsp", "ap_bf", "sq_clust"):
            gr = gen.rand_graph(rng, n, n=n, dir=False, loops=False, wkinds=["one", "pos"])
            s = Sess(rng, dim(gr))
            g = s.graph(gr, ["hop", "wd"])
            for cs in list(range(1, n + 2)) + ["%d chunks" % k for k in range(1, n + 2)]:
                ask(s, g, gr, rng, fn, cs)
            yield s.done()
    for i in range(250 if not big else 5000):
        gr = gen.rand_graph(rng, rng.choice([5, 7, 9, 11]), wkinds=WK, loops=rng.choice([None, False]))
        yield session(rng, gr, 8)
    for i in range(8 if not big else 150):
        yield session(rng, long_graph(rng, ["one", "pos"], 12, 25), 6)


PLANS = {"C23": c23}
