"""Graph objects: construction, node protocol, kind, name and attributes."""
import copy

from vlib import *  # noqa: F403

KEYS = {0: "name", 1: "color", 2: "k2", 3: "creator", 4: "weight"}
INV = {v: k for k, v in KEYS.items()}


def attrs(L):
    return {KEYS[k]: ("g%d" % x[0] if k == 0 else list(x)) for k, x in L}


def name(s):
    if not isinstance(s, str):
        raise Bad("name is not a string")
    return [] if s == "" else [int(s[1:])] if s[:1] == "g" and s[1:].isdigit() else [-1]


def o_attrs(d):
    if not isinstance(d, dict):
        raise Bad("graph attributes are not a dictionary")
    out = []
    for k, x in d.items():
        if k == "name":
            out.append([0, name(x)])
        else:
            out.append([INV.get(k, -1), list(x) if isinstance(x, list) else [-1]])
    return sorted(out)


def classes(c, e):
    return [[ga.Graph, ga.DiGraph], [ga.MultiGraph, ga.MultiDiGraph]][e["multi"]][e["want"]["dir"]]


@op("o_new")
def _(c, e):
    cls = classes(c, e)
    w = e["want"]
    at = attrs(e["at"])
    if e["how"] == "notmatrix":
        x = [[[0, 1], [1, 0]], gb.Vector(int, 3), 3, "A", np.eye(2), {1: {2: {}}}, gb.Matrix(int, 2, 2).T][e["h"]["bad"]]
        cls(x, **at)
        return {"k": "none"}
    if e["how"] == "rect":
        r, k = e["h"]["shape"]
        cls(gb.Matrix(int, r, k), **at)
        return {"k": "none"}
    c.sc[e["res"]] = w["sc"]
    ix = {u: i for i, u in enumerate(w["nd"])}
    ent = [(u, v) for u in w["nd"] for v in w["nd"] if w["a"][u - 1][v - 1]]
    n = len(ix)
    if e["how"] == "empty":
        G = cls(**at)
    else:
        A = gb.Matrix(gb.dtypes.lookup_dtype(e["h"]["dtype"]), n, n)
        if ent:
            A = gb.Matrix.from_coo([ix[u] for u, v in ent], [ix[v] for u, v in ent],
                                   [w["w"][u - 1][v - 1] / w["sc"] for u, v in ent], nrows=n, ncols=n, dtype=A.dtype)
        kw = {} if e["how"] == "nokeys" else {"key_to_id": {c.L(u): i for u, i in ix.items()}}
        G = cls(A, **kw, **at)
        c.mats = {**getattr(c, "mats", {}), e["res"]: A}
    c.objs[e["res"]] = G
    return {"k": "graph", "g": enc_graph(c, G, w["sc"])}


@op("o_conv")
def _(c, e):
    w = e["want"]
    G = [[nx.Graph, nx.DiGraph], [nx.MultiGraph, nx.MultiDiGraph]][e["multi"]][w["dir"]](**attrs(e["at"]))
    G.add_nodes_from(c.Ls(w["nd"]))
    for u in w["nd"]:
        for v in w["nd"]:
            if w["a"][u - 1][v - 1] and (w["dir"] or u <= v):
                G.add_edge(c.L(u), c.L(v), weight=w["w"][u - 1][v - 1])
    c.sc[e["res"]] = w["sc"]
    H = Dispatcher.convert_from_nx(G, edge_attrs={"weight": 1}, preserve_graph_attrs=True)
    c.objs[e["res"]] = H
    G.graph["later"] = [5]
    return {"k": "graph", "g": enc_graph(c, H, w["sc"])}


@op("o_view")
def _(c, e):
    G = c.obj(e["g"])
    A = getattr(c, "mats", {}).get(e["g"])
    nd = [c.D(k) for k in stored(c, G)]
    ln = [len(G), G.order(), G.number_of_nodes(), sum(1 for _ in G)]
    if any(type(x) is not int for x in ln):
        raise Bad("node count is not an int")
    if any(type(x) is not bool for x in (G.is_directed(), G.is_multigraph())):
        raise Bad("kind is not a bool")
    return {"k": "obj", "nd": nd, "len": ln, "dir": G.is_directed(), "multi": G.is_multigraph(),
            "dcls": G.to_directed_class().__name__, "ucls": G.to_undirected_class().__name__,
            "same": (A is None or G.matrix is A) and G.matrix.nrows == len(nd) == G.matrix.ncols,
            "at": o_attrs(G.graph), "name": name(G.name)}


@op("o_in")
def _(c, e):
    G = c.obj(e["g"])
    x = [[1], {}, set(), [[2]], {"a": 1}][e["h"]["z"]] if e["u"] < 0 else c.L(e["u"])
    r = x in G
    return o_bool(c, not (x not in G)) if r == (x in G) else {"k": "bad", "s": "unstable"}


@op("o_name")
def _(c, e):
    G = c.obj(e["g"])
    G.name = "g%d" % e["x"]
    if G.matrix.name != "g%d" % e["x"]:
        raise Bad("matrix name")
    return {"k": "none"}


@op("o_set")
def _(c, e):
    G = c.obj(e["g"])
    if e["h"].get("upd"):
        G.graph.update(attrs([[e["k"], e["x"]]]))
    else:
        G.graph[KEYS[e["k"]]] = attrs([[e["k"], e["x"]]])[KEYS[e["k"]]]
    return {"k": "none"}


@op("o_push")
def _(c, e):
    x = c.obj(e["g"]).graph.get(KEYS[e["k"]])
    if x is not None:
        x.append(e["x"])
    return {"k": "none"}


@op("o_del")
def _(c, e):
    del c.obj(e["g"]).graph[KEYS[e["k"]]]
    return {"k": "none"}


@op("o_rev")
def _(c, e):
    G = c.obj(e["g"])
    h = e["h"]
    if h["how"] == "method":
        R = G.reverse(**({} if h.get("copy") is None else {"copy": True}))
    else:
        R = call(c, "reverse", G, **({} if h.get("copy") is None else {"copy": True}))
    if type(R) is not type(G):
        raise Bad("reverse changes the class")
    c.sc[e["res"]] = c.sc[e["g"]]
    c.objs[e["res"]] = R
    return {"k": "graph", "g": enc_graph(c, R, c.sc[e["g"]])}


@op("o_und")
def _(c, e):
    G = c.obj(e["g"])
    kw = {"reciprocal": e["recip"]} if e["recip"] or e["h"].get("kw") else {}
    if e["view"] or e["h"].get("kw"):
        kw["as_view"] = e["view"]
    if e["h"].get("pos"):
        R = G.to_undirected(e["recip"], e["view"])
    else:
        R = G.to_undirected(**kw)
    if type(R) is not ga.Graph:
        raise Bad("to_undirected does not return a Graph")
    c.sc[e["res"]] = c.sc[e["g"]]
    c.objs[e["res"]] = R
    return {"k": "graph", "g": enc_graph(c, R, c.sc[e["g"]])}
