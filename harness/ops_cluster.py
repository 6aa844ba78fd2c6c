from vlib import *  # noqa: F403
from ops_weighted import wkw


def sel(c, e):
    """The `nodes` argument."""
    if e["sel"] == "all":
        return ()
    if e["sel"] == "one":
        return (c.L(e["u"]),)
    S = c.Ls(e["S"])
    k = e.get("h", {}).get("kind", "list")
    if k == "set":
        S = set(S)
    elif k == "gen":
        S = dict.fromkeys(S).keys()
    elif k == "iter":
        S = (x for x in S)
    return (S,)


def wkw2(c, e, G):
    if not e["wt"]:
        return {}
    return {"weight": e.get("attr") or "weight"}


def numap(c, x, one):
    if one and not hasattr(x, "items"):
        return o_num(c, x)
    return o_map(c, x, fix)


@op("triangles")
def _(c, e):
    G = c.obj(e["g"])
    r = call(c, "triangles", G, *sel(c, e))
    return o_int(c, r) if e["sel"] == "one" and not hasattr(r, "items") else o_map(c, r)


@op("transitivity")
def _(c, e):
    return o_num(c, call(c, "transitivity", c.obj(e["g"])))


@op("clustering")
def _(c, e):
    G = c.obj(e["g"])
    return numap(c, call(c, "clustering", G, *sel(c, e), **wkw2(c, e, G)), e["sel"] == "one")


@op("avg_clust")
def _(c, e):
    G = c.obj(e["g"])
    kw = wkw2(c, e, G)
    if not e["cz"] or e.get("h", {}).get("czkw"):
        kw["count_zeros"] = e["cz"]
    return o_num(c, call(c, "average_clustering", G, *sel(c, e), **kw))


@op("gen_degree")
def _(c, e):
    G = c.obj(e["g"])
    r = call(c, "generalized_degree", G, *sel(c, e))
    has = range(G.nrows) if isinstance(G, gb.Matrix) else G
    if e["sel"] == "one" and e["u"] in c.inv.values() and c.L(e["u"]) in has:
        return {"k": "cnt", "r": [e["u"]], "v": [[e["u"], ex(k), ex(x)] for k, x in r.items()]}
    rows, v = [], []
    for u, d in r.items():
        rows.append(c.D(u))
        for k, x in d.items():
            v.append([c.D(u), ex(k), ex(x)])
    return {"k": "cnt", "r": rows, "v": v}


@op("sq_clust")
def _(c, e):
    G = c.obj(e["g"])
    kw = {}
    h = e.get("h", {})
    if "chunk" in h and not isnx(G) and c.via != "nx":
        kw["chunksize"] = h["chunk"]
    return numap(c, call(c, "square_clustering", G, *sel(c, e), **kw), e["sel"] == "one")
