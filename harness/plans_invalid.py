import gen
import inv_tables as O
from pcommon import Sess, route
from plans_convert import source
from plans_reach import dim

NAMES = sorted("""edge_boundary node_boundary degree_centrality in_degree_centrality out_degree_centrality
eigenvector_centrality katz_centrality average_clustering clustering generalized_degree square_clustering transitivity
triangles inter_community_edges intra_community_edges is_connected node_connected_component is_weakly_connected k_truss
boundary_expansion conductance cut_size edge_expansion mixing_expansion node_expansion normalized_cut_size volume
ancestors descendants is_dominating_set efficiency ego_graph is_isolate isolates number_of_isolates
fast_could_be_isomorphic faster_could_be_isomorphic bethe_hessian_matrix adjacency_matrix laplacian_matrix
normalized_laplacian_matrix directed_modularity_matrix modularity_matrix hits google_matrix pagerank
lowest_common_ancestor compose difference disjoint_union full_join intersection symmetric_difference union complement
reverse overall_reciprocity reciprocity is_k_regular is_regular floyd_warshall floyd_warshall_numpy
floyd_warshall_predecessor_and_distance has_path all_pairs_shortest_path_length single_source_shortest_path_length
single_target_shortest_path_length all_pairs_bellman_ford_path_length bellman_ford_path bellman_ford_path_length
negative_edge_cycle single_source_bellman_ford_path_length is_simple_path s_metric mutual_weight is_tournament
score_sequence tournament_matrix bfs_layers descendants_at_distance""".split())


def node(rng, nd, N, miss):
    if not nd or rng.random() < miss:
        out = [x for x in range(1, N + 1) if x not in nd]
        return rng.choice(out + [0])
    return rng.choice(nd)


def nodes(rng, nd, N, miss, kmin=0):
    S = rng.sample(nd, rng.randint(min(kmin, len(nd)), len(nd)))
    if rng.random() < miss:
        out = [x for x in range(1, N + 1) if x not in nd]
        S.insert(rng.randint(0, len(S)), rng.choice(out + [0]))
    return S


def add_inv(s, objs, rng, fn=None):
    """objs: (id, graph, multi)."""
    fn = fn or rng.choice(NAMES)
    g, gr, multi = rng.choice(objs)
    nd, N = gr["nd"], s.N
    miss = rng.choice([0, 0.4, 0.8])
    e = {"fn": fn, "ns": [], "ss": [], "nl": [], "h2": 0, "multi": multi, "multi2": False, "bad": False, "h": {}}
    if fn in O.N2:
        e["ns"] = [node(rng, nd, N, miss), node(rng, nd, N, miss)]
    elif fn in O.N1 or fn in O.OPT1 and rng.random() < 0.5:
        e["ns"] = [node(rng, nd, N, miss)]
        if fn in O.OPT1 and e["ns"][0] not in nd:
            e["ns"] = []
    elif fn in O.S1:
        e["ss"] = [nodes(rng, nd, N, miss)]
    elif fn in O.S2:
        e["ss"] = [nodes(rng, nd, N, miss)]
        if rng.random() < 0.5:
            e["ss"].append(nodes(rng, nd, N, miss))
    elif fn in O.PART:
        P = list(nd)
        rng.shuffle(P)
        k = rng.randint(1, max(1, len(P)))
        e["ss"] = [P[i::k] for i in range(k)]
        r = rng.random()
        if r < 0.2 and P:
            e["ss"][0] = e["ss"][0][:-1]
        elif r < 0.4 and k > 1:
            e["ss"][0] = e["ss"][0] + e["ss"][1][:1]
        elif r < 0.5:
            e["ss"] = e["ss"] + [nodes(rng, [], N, 1)]
        if fn == "intra_community_edges":
            e["ss"] = [P[i::k] for i in range(k)]
    elif fn in O.BIN:
        e["h2"], g2, e["multi2"] = rng.choice(objs)
        if e["h2"] == g:  # a graph combined with itself is C13's
            e["h2"], g2, e["multi2"] = rng.choice(objs)
    elif fn in O.NL and rng.random() < 0.7:
        r = rng.random()
        L = rng.sample(nd, len(nd))
        if r < 0.3:
            L = nodes(rng, nd, N, 1)
        elif r < 0.5 and nd:
            L[rng.randrange(len(L))] = rng.choice(L)
        elif r < 0.6:
            L = []
        elif r < 0.7:
            L = L[:-1]
        e["nl"] = [L]
    elif fn in O.IT and rng.random() < 0.4:
        e["bad"] = True
        e["h"] = {"mi": rng.choice([0, 0, -1])}
    s.ev.append(dict(op="inv", g=g, via=rng.choice(["api", "api", "nx"]), **e))


def world(rng, grs, nx_ok=False):
    s = Sess(rng, max(dim(g) for g in grs))
    objs = []
    for gr in grs:
        if rng.random() < 0.25:
            src = source(rng, gr, True)
            src["E"] = [[u, v, 0, 0] for u, v, _, _ in src["E"]]
            s.n += 1
            h = {"attr": "weight", "ask": None, "fl": False, "how": rng.choice(["cls", "edge_attrs"]), "dflt": 1}
            s.ev.append({"op": "nx_in", "g": 0, "via": "api", "src": src, "sc": 1, "N": s.N, "use": False,
                         "bool": False, "dt": "", "h": h, "refuse": False, "need": [], "res": s.n})
            objs.append((s.n, gr, True, None))
        else:
            g = s.graph(gr, dtypes=["FP64", "INT64", "BOOL", "INT32"], nx_ok=nx_ok)
            objs.append((g, gr, False, s.b))
    return s, objs


def c21(rng, tier, shard, nsh):
    big = tier == "thorough"
    small = gen.all_small(2, 3)
    k = 0
    for rep in range(1 if not big else 12):
        for fn in NAMES:
            k += 1
            if k % nsh != shard:
                continue
            grs = []
            for d in (True, False):
                grs.append(gen.mk(4, [], d, []))
                grs.append(gen.rand_graph(rng, 4, dir=d, n=rng.randint(2, 4)))
                n, d2, E = rng.choice([x for x in small if x[1] == d and x[0] > 0])
                grs.append(gen.relabel(rng, n, d, E, extra=1))
            for gr in list(grs):
                if len(gr["a"]) < 6:
                    m = len(gr["a"])
                    gr["a"] = [r + [0] * (6 - m) for r in gr["a"]] + [[0] * 6 for _ in range(6 - m)]
                    gr["w"] = [r + [0] * (6 - m) for r in gr["w"]] + [[0] * 6 for _ in range(6 - m)]
            s, objs = world(rng, grs)
            ob = [(a, b, c) for a, b, c, _ in objs]
            for _ in range(24):
                add_inv(s, ob, rng, fn)
            for a, b, c, bb in objs:
                if bb:
                    s.b = bb
                    s.project(a, b)
            yield s.done()
    for i in range(100 if not big else 3000):
        N = 7
        grs = []
        for _ in range(4):
            gr = gen.rand_graph(rng, 5, nmin=0, extra=1)
            m = len(gr["a"])
            gr["a"] = [r + [0] * (N - m) for r in gr["a"]] + [[0] * N for _ in range(N - m)]
            gr["w"] = [r + [0] * (N - m) for r in gr["w"]] + [[0] * N for _ in range(N - m)]
            grs.append(gr)
        s, objs = world(rng, grs)
        ob = [(a, b, c) for a, b, c, _ in objs]
        for _ in range(40):
            add_inv(s, ob, rng)
        for a, b, c, bb in objs:
            if bb:
                s.b = bb
                s.project(a, b)
        yield s.done()


PLANS = {"C21": c21}
