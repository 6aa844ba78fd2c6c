from vlib import *  # noqa: F403
from ops_cluster import sel


@op("degree_centrality", "in_degree_centrality", "out_degree_centrality")
def _(c, e):
    return o_map(c, call(c, e["op"], c.obj(e["g"])), fix)


@op("is_isolate")
def _(c, e):
    return o_bool(c, call(c, "is_isolate", c.obj(e["g"]), c.L(e["u"])))


@op("isolates")
def _(c, e):
    return o_set(c, call(c, "isolates", c.obj(e["g"])))


@op("number_of_isolates")
def _(c, e):
    return o_int(c, call(c, e["op"], c.obj(e["g"])))


@op("s_metric")
def _(c, e):
    return o_int(c, call(c, e["op"], c.obj(e["g"])))


@op("is_regular")
def _(c, e):
    return o_bool(c, call(c, e["op"], c.obj(e["g"])))


@op("is_k_regular")
def _(c, e):
    return o_bool(c, call(c, e["op"], c.obj(e["g"]), e["k"]))


@op("overall_reciprocity")
def _(c, e):
    return o_num(c, call(c, e["op"], c.obj(e["g"])))


@op("reciprocity")
def _(c, e):
    r = call(c, e["op"], c.obj(e["g"]), *sel(c, e))
    if hasattr(r, "items"):
        return {"k": "map", "v": [[c.D(k), fix(v)] for k, v in r.items() if v is not None]}
    return o_num(c, r)


@op("fast_iso", "faster_iso")
def _(c, e):
    G, H = c.obj(e["g"]), c.obj(e["g2"])
    name = e["op"][:-4] + "_could_be_isomorphic"
    if e.get("h", {}).get("swap"):
        G, H = H, G
    return o_bool(c, call(c, name, G, H))
