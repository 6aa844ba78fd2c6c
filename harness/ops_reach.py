from vlib import *  # noqa: F403
import vlib


def cutval(c, e):
    """cutoff argument: e['cut'] is [] or [floor]; e['h'] tells how it is passed."""
    if not e["cut"]:
        return {} if e.get("h", {}).get("cutdef") else {"cutoff": None}
    k = e["cut"][0]
    f = e.get("h", {}).get("cutfrac")
    if f is not None:
        k = k + f
    if e.get("h", {}).get("cutinf"):
        k = float("inf")
    return {"cutoff": k}


@op("descendants", "ancestors")
def _(c, e):
    G = c.obj(e["g"])
    if c.via == "core" and isinstance(G, ga.Graph):
        return o_set(c, G.vector_to_set(getattr(ga, e["op"])(G, c.L(e["u"]))))
    return o_set(c, call(c, e["op"], G, c.L(e["u"])))


@op("has_path")
def _(c, e):
    G = c.obj(e["g"])
    if c.via == "core" and isinstance(G, ga.Graph):
        return o_bool(c, ga.has_path(G, c.L(e["u"]), c.L(e["v"])))
    return o_bool(c, call(c, "has_path", G, c.L(e["u"]), c.L(e["v"])))


@op("is_connected", "is_weakly_connected")
def _(c, e):
    return o_bool(c, call(c, e["op"], c.obj(e["g"])))


@op("node_connected_component")
def _(c, e):
    return o_set(c, call(c, e["op"], c.obj(e["g"]), c.L(e["u"])))


@op("bfs_layers")
def _(c, e):
    G = c.obj(e["g"])
    h = e.get("h", {})
    S = c.Ls(e["S"])
    if h.get("single"):
        src = S[0]
    elif h.get("kind") == "set":
        src = set(S)
    elif h.get("kind") == "dict":
        src = dict.fromkeys(S)
    else:
        src = S
    return o_lol(c, [list(x) for x in call(c, "bfs_layers", G, src)])


@op("descendants_at_distance")
def _(c, e):
    return o_set(c, call(c, e["op"], c.obj(e["g"]), c.L(e["u"]), e["k"]))


@op("lowest_common_ancestor")
def _(c, e):
    mark = ("default-mark",)
    kw = {"default": mark} if e.get("h", {}).get("mark") else {}
    r = call(c, e["op"], c.obj(e["g"]), c.L(e["u"]), c.L(e["v"]), **kw)
    if r == mark and kw or r is None and not kw:
        return {"k": "default"}
    return {"k": "lab", "v": c.D(r)}


@op("sssp", "stsp")
def _(c, e):
    G = c.obj(e["g"])
    name = {"sssp": "single_source_shortest_path_length",
            "stsp": "single_target_shortest_path_length"}[e["op"]]
    if c.via == "core" and isinstance(G, ga.Graph):
        v = getattr(ga, name)(G, c.L(e["u"]), **cutval(c, e))
        return o_map(c, G.vector_to_dict(v))
    r = call(c, name, G, c.L(e["u"]), **cutval(c, e))
    if not hasattr(r, "items"):
        r = dict(r)
    return o_map(c, r)


@op("apsp")
def _(c, e):
    G = c.obj(e["g"])
    h = e.get("h", {})
    if not e["all"] or c.via == "core":  # core form
        kw = cutval(c, e)
        nodes = c.Ls(e["S"]) if not e["all"] else None
        if h.get("expand"):
            D = ga.all_pairs_shortest_path_length(G, nodes=nodes, expand_output=True, **kw)
            if D.nrows != len(G):
                raise Bad("expanded output has %d rows" % D.nrows)
            return o_mm(c, G.matrix_to_dicts(D))
        D = ga.all_pairs_shortest_path_length(G, nodes=nodes, **kw)
        d = G.matrix_to_dicts(D, use_row_index=True)
        keys = nodes if nodes is not None else stored(c, G)
        if D.nrows != len(keys):
            raise Bad("output has %d rows" % D.nrows)
        return o_mm(c, [(keys[i], x) for i, x in d.items()])
    kw = cutval(c, e)
    if "chunk" in h:
        kw["chunksize"] = h["chunk"]
    return o_mm(c, consume(c, e, G, call(c, "all_pairs_shortest_path_length", G, **kw)))


@op("efficiency")
def _(c, e):
    return o_num(c, call(c, "efficiency", c.obj(e["g"]), c.L(e["u"]), c.L(e["v"])))
