"""Conversions between NetworkX graphs and the library's graphs."""
import copy

from vlib import *  # noqa: F403


def source(c, e):
    s = e["src"]
    cls = [[nx.Graph, nx.DiGraph], [nx.MultiGraph, nx.MultiDiGraph]][s["multi"]][s["dir"]]
    G = cls()
    h = e["h"]
    attr = h["attr"]
    if h.get("gattr"):
        G.graph["title"] = "a b"
    if h.get("nattr") and s["nd"]:
        G.add_node(c.L(s["nd"][0]), colour=3)
    if not h.get("edges_first"):
        G.add_nodes_from(c.Ls(s["nd"]))
    for k, (u, v, has, w) in enumerate(s["E"]):
        x = w / e["sc"] if h["fl"] else (bool(w) if h.get("bools") else w // e["sc"])
        x = x * h["unit"] if "unit" in h else x
        d = {attr: x} if has else {}
        if h.get("noise") and k % 2 == 0:
            d["zz"] = 77
        G.add_edge(c.L(u), c.L(v), **d)
    return G


def shot(G):
    return (list(G.nodes(data=True)), sorted((repr(x) for x in G.edges(data=True))), dict(G.graph))


@op("nx_in")
def _(c, e):
    G = source(c, e)
    h = e["h"]
    attr = h["ask"]
    before = copy.deepcopy(shot(G))
    D = Dispatcher
    dt = None
    if e["dt"]:
        dt = gb.dtypes.lookup_dtype(e["dt"])
        if h.get("npdt"):
            dt = dt.np_type
    kw = {}
    how = h["how"]
    if how == "cls":
        cls = [[ga.Graph, ga.DiGraph], [ga.MultiGraph, ga.MultiDiGraph]][e["src"]["multi"]][e["src"]["dir"]]
        H = cls.from_networkx(G, weight=attr, dtype=dt)
    else:
        if h.get("keepg"):
            kw["preserve_graph_attrs"] = True
        if h.get("keepn"):
            kw["preserve_node_attrs"] = True
        if how == "edge_attrs":
            H = D.convert_from_nx(G, edge_attrs=None if attr is None else {attr: h["dflt"]}, **kw)
        elif how == "weight":
            H = D.convert_from_nx(G, weight=attr, **kw)
        elif how == "both":
            H = D.convert_from_nx(G, edge_attrs={attr: 1}, weight=attr, **kw)
        elif how == "nattrs":
            H = D.convert_from_nx(G, node_attrs={"color": None}, **kw)
        elif how == "two":
            H = D.convert_from_nx(G, edge_attrs={attr: 1, "zz": 1}, **kw)
        else:
            H = D.convert_from_nx(G, preserve_edge_attrs=True, **kw)
    c.objs[e["res"]] = H
    c.sc[e["res"]] = Fraction(1, h["unit"]) if "unit" in h else e["sc"]
    attrs = dict(H.graph) == (dict(G.graph) if h.get("keepg") else {})
    if h.get("keepg") and G.graph:
        H.graph["title"] = "changed"
    return {"k": "graph", "g": enc_graph(c, H, c.sc[e["res"]]), "multi": bool(H.is_multigraph()), "attrs": attrs,
            "same": shot(G) == before, "dt": H.matrix.dtype.name}


@op("nx_out")
def _(c, e):
    H = c.obj(e["g"])
    h = e["h"]
    attr = e["attr"] or None
    if h.get("how") == "disp":
        G = Dispatcher.convert_to_nx(H)
    elif h.get("how") == "default":
        G = H.to_networkx()
    else:
        G = H.to_networkx(edge_attribute=attr)
    if type(G) not in (nx.Graph, nx.DiGraph):
        raise Bad("not a simple NetworkX graph: %s" % type(G).__name__)
    E, ok = [], True
    sc = c.sc[e["g"]]
    for u, v, d in G.edges(data=True):
        ok = ok and set(d) == ({attr} if attr else set())
        E.append([c.D(u), c.D(v), ex(d.get(attr, 1), sc) if attr else 0])
    ok = ok and not any(d for _, d in G.nodes(data=True))
    o = {"k": "nx", "dir": G.is_directed(), "nd": [c.D(u) for u in G], "E": E, "attrs": ok}
    if h.get("mutate"):  # the new graph is the caller's
        for u, v, d in list(G.edges(data=True)):
            d["weight"] = 1000
        G.add_edge("new1", "new2")
        G.remove_nodes_from([c.L(u) for u in e["nd"][:1]])
    return o
