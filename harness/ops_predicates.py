from vlib import *  # noqa: F403


@op("is_tournament", "is_triad")
def _(c, e):
    return o_bool(c, call(c, e["op"], c.obj(e["g"])))


@op("score_sequence")
def _(c, e):
    return {"k": "ints", "v": [ex(x) for x in call(c, e["op"], c.obj(e["g"]))]}


@op("tournament_matrix")
def _(c, e):
    M = call(c, e["op"], c.obj(e["g"]))
    if hasattr(M, "toarray"):
        D = M.toarray()
    else:
        D = M.to_dense(fill_value=0)
    if D.ndim != 2 or D.shape[0] != D.shape[1]:
        raise Bad("shape")
    return o_mat(c, D, lambda x: ex(x, c.sc[e["g"]]))


@op("is_simple_path")
def _(c, e):
    p = c.Ls(e["p"])
    if e["h"].get("tup"):
        p = tuple(p)
    return o_bool(c, call(c, e["op"], c.obj(e["g"]), p))


@op("mutual_weight")
def _(c, e):
    kw = {"weight": e["h"]["attr"]} if e["h"].get("attr") else {}
    return o_int(c, call(c, e["op"], c.obj(e["g"]), c.L(e["u"]), c.L(e["v"]), **kw), c.sc[e["g"]])


@op("intra_edges", "inter_edges")
def _(c, e):
    T = {"list": list, "set": set, "fs": frozenset, "tup": tuple}[e["h"]["k"]]
    P = [T(c.Ls(b)) for b in e["P"]]
    return o_int(c, call(c, e["op"][:5] + "_community_edges", c.obj(e["g"]), P))
