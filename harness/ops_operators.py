from vlib import *  # noqa: F403
from ops_sub import newg


def pos(c, G):
    return [c.D(k) for k in stored(c, G)]


@op("union", "full_join")
def _(c, e):
    G, H = c.obj(e["g"]), c.obj(e["g2"])
    kw = {}
    if e["h"].get("rn"):
        kw["rename"] = {1: (), 2: (None, None), 3: (None,)}[e["h"]["rn"]]
    return newg(c, e, call(c, e["op"], G, H, **kw))


@op("intersection", "difference", "symmetric_difference", "compose")
def _(c, e):
    return newg(c, e, call(c, e["op"], c.obj(e["g"]), c.obj(e["g2"])))


@op("complement")
def _(c, e):
    return newg(c, e, call(c, "complement", c.obj(e["g"])))


@op("reverse")
def _(c, e):
    G = c.obj(e["g"])
    kw = {} if e["h"].get("copy") is None else {"copy": e["h"]["copy"]}
    if e["h"].get("method") and isinstance(G, ga.DiGraph):
        return newg(c, e, G.reverse(**kw))
    return newg(c, e, call(c, "reverse", G, **kw))


@op("to_undirected")
def _(c, e):
    G = c.obj(e["g"])
    return newg(c, e, G.to_undirected(reciprocal=e["recip"]))


def joined(c, e, r, inv):
    """Encode a graph with derived labels in the doubled universe."""
    if not isinstance(r, (ga.Graph, nx.Graph)):
        raise Bad("not a graph")
    c2 = Ctx(c.labkind, c.N)
    c2.inv, c2.kord = inv, c.kord
    return {"k": "graph", "g": enc_graph(c2, r, c.sc[e["g"]], 2 * c.N)}


@op("disjoint_union")
def _(c, e):
    G, H = c.obj(e["g"]), c.obj(e["g2"])
    p, q = pos(c, G), pos(c, H)
    r = call(c, "disjoint_union", G, H)
    inv = dict(enumerate(p + [c.N + x for x in q]))
    if any(not isinstance(k, int) for k in r):
        raise Bad("labels are not integers")
    return joined(c, e, r, inv)


@op("union_rn", "full_join_rn")
def _(c, e):
    G, H = c.obj(e["g"]), c.obj(e["g2"])
    p, q = pos(c, G), pos(c, H)
    a, b = e["h"]["pre"]
    nm = lambda pre, x: c.L(x) if pre is None else "%s%s" % (pre, c.L(x))
    r = call(c, {"union_rn": "union", "full_join_rn": "full_join"}[e["op"]], G, H, rename=(a, b))
    inv = {nm(a, x): x for x in p}
    inv.update({nm(b, x): c.N + x for x in q})
    return joined(c, e, r, inv)
