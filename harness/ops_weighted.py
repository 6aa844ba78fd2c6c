from vlib import *  # noqa: F403
from ops_reach import cutval


def wkw(c, e, G):
    """weight keyword: only matters for networkx inputs."""
    if e.get("unw"):
        return {"weight": None}
    a = e.get("attr")
    return {"weight": a} if a else {}


def scut(c, e):
    """cutoff in weight units."""
    if not e["cut"]:
        return {}
    x = e["cut"][0] / c.sc[e["g"]] if c.sc[e["g"]] != 1 else e["cut"][0]
    return {"cutoff": int(x) if x == int(x) and not e.get("h", {}).get("f") else float(x)}


@op("ss_bf")
def _(c, e):
    G = c.obj(e["g"])
    sc = c.sc[e["g"]]
    v = lambda x: ex(x, sc)
    if c.via == "core":
        return o_map(c, G.vector_to_dict(ga.single_source_bellman_ford_path_length(G, c.L(e["u"]), **scut(c, e))), v)
    return o_map(c, call(c, "single_source_bellman_ford_path_length", G, c.L(e["u"]), **wkw(c, e, G)), v)


@op("ap_bf")
def _(c, e):
    G = c.obj(e["g"])
    sc = c.sc[e["g"]]
    h = e.get("h", {})
    v = lambda x: ex(x, sc)
    if c.via == "core":
        nodes = c.Ls(e["S"]) if not e["all"] else None
        if h.get("expand"):
            D = ga.bellman_ford_path_lengths(G, nodes, expand_output=True)
            return o_mm(c, G.matrix_to_dicts(D), v)
        D = ga.bellman_ford_path_lengths(G, nodes)
        keys = nodes if nodes is not None else stored(c, G)
        if D.nrows != len(keys):
            raise Bad("output has %d rows" % D.nrows)
        d = G.matrix_to_dicts(D, use_row_index=True)
        return o_mm(c, [(keys[i], x) for i, x in d.items()], v)
    kw = wkw(c, e, G)
    if "chunk" in h:
        kw["chunksize"] = h["chunk"]
    return o_mm(c, consume(c, e, G, call(c, "all_pairs_bellman_ford_path_length", G, **kw)), v)


@op("bf_len")
def _(c, e):
    G = c.obj(e["g"])
    if c.via == "core":
        return o_int(c, ga.bellman_ford_path_length(G, c.L(e["u"]), c.L(e["v"])), c.sc[e["g"]])
    return o_int(c, call(c, "bellman_ford_path_length", G, c.L(e["u"]), c.L(e["v"]), **wkw(c, e, G)), c.sc[e["g"]])


@op("bf_path")
def _(c, e):
    G = c.obj(e["g"])
    if c.via == "core":
        return o_list(c, ga.bellman_ford_path(G, c.L(e["u"]), c.L(e["v"])))
    r = call(c, "bellman_ford_path", G, c.L(e["u"]), c.L(e["v"]), **wkw(c, e, G))
    if not isinstance(r, list):
        raise Bad("path is a %s" % type(r).__name__)
    return o_list(c, r)


@op("negcycle")
def _(c, e):
    G = c.obj(e["g"])
    if c.via == "core":
        return o_bool(c, ga.negative_edge_cycle(G))
    return o_bool(c, call(c, "negative_edge_cycle", G, **wkw(c, e, G)))


@op("fw")
def _(c, e):
    G = c.obj(e["g"])
    sc = 1 if e["unw"] else c.sc[e["g"]]
    v = lambda x: ex(x, sc)
    if c.via == "core":
        return o_mm(c, G.matrix_to_dicts(ga.floyd_warshall(G, is_weighted=not e["unw"])), v)
    return o_mm(c, call(c, "floyd_warshall", G, **wkw(c, e, G)), v)


@op("fw_np")
def _(c, e):
    G = c.obj(e["g"])
    sc = 1 if e["unw"] else c.sc[e["g"]]
    kw = wkw(c, e, G)
    if not e.get("h", {}).get("nolist"):
        kw["nodelist"] = c.Ls(e["nl"])
        if e.get("h", {}).get("tuple"):
            kw["nodelist"] = tuple(kw["nodelist"])
    M = call(c, "floyd_warshall_numpy", G, **kw)
    if isinstance(M, gb.Matrix):
        M = M.to_dense(fill_value=float("inf"), dtype=float)
    return o_mat(c, M.tolist(), lambda x: ex(x, sc))


@op("fw_pred")
def _(c, e):
    G = c.obj(e["g"])
    sc = 1 if e["unw"] else c.sc[e["g"]]
    P, D = call(c, "floyd_warshall_predecessor_and_distance", G, **wkw(c, e, G))
    o = o_mm(c, P, c.D)
    nodes = list(range(G.nrows)) if isinstance(G, gb.Matrix) else stored(c, G)
    o["d"] = [[c.D(u), c.D(v), ex(D[u][v], sc)] for u in nodes for v in nodes]
    return o
