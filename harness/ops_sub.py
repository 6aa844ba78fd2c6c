from vlib import *  # noqa: F403


def newg(c, e, r, sc=None):
    """Register a graph result."""
    if not isinstance(r, (ga.Graph, nx.Graph)):
        raise Bad("not a graph: %s" % type(r).__name__)
    c.sc[e["res"]] = sc = c.sc[e["g"]] if sc is None else sc
    o = {"k": "graph", "g": enc_graph(c, r, sc)}
    c.objs[e["res"]] = r
    return o


@op("k_truss")
def _(c, e):
    G = c.obj(e["g"])
    if c.via == "core" and isinstance(G, ga.Graph):
        return newg(c, e, ga.k_truss(G, e["k"]), c.sc[e["g"]])
    return newg(c, e, call(c, "k_truss", G, e["k"]), c.sc[e["g"]])


@op("ego_graph")
def _(c, e):
    G = c.obj(e["g"])
    h = e["h"]
    kw = {}
    if h.get("rdef"):
        if e["wt"] and isinstance(c.sc[e["g"]], Fraction):
            raise Skip
    elif not e["rad"]:
        kw["radius"] = None if h.get("rnone") else float("inf")
    else:
        r = e["rad"][0]
        if e["wt"]:
            r = r / c.sc[e["g"]] if c.sc[e["g"]] != 1 or h.get("frac") else r
            r = float(r) if isinstance(r, Fraction) and h.get("frac") else int(r) if isinstance(r, Fraction) else r
        elif h.get("frac"):
            r = r + 0.5
        kw["radius"] = r
    if e["und"] or h.get("kw"):
        kw["undirected"] = e["und"]
    if not e["center"] or h.get("kw"):
        kw["center"] = e["center"]
    if e["wt"]:
        kw["distance"] = h.get("attr", "weight")
    r = call(c, "ego_graph", G, c.L(e["u"]), **kw)
    return newg(c, e, r)
