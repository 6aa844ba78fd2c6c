"""Operations on the mappings and sets the library returns."""
from graphblas_algorithms.classes.nodemap import NodeMap, NodeNodeMap, VectorMap, VectorNodeMap
from graphblas_algorithms.classes.nodeset import NodeSet
from vlib import *  # noqa: F403


class Meta:
    def __init__(self, obj, t, key, val, nest, fl):
        self.obj, self.t, self.key, self.val, self.nest, self.fl = obj, t, key, val, nest, fl


FOREIGN = [("no", "node"), "zz", -1, 10**6, 3.25, None]


def kdec(c, m, u, h):
    """encoded key -> python key"""
    if m.key == "int":
        if u < 0:
            return [-1, 10**6, "zz", None, 2**70][h.get("f", 0) % 5]
        return u
    if u == 0:
        return c.L(0)
    return c.L(u)


def kenc(c, m, k):
    if m.key == "int":
        return int(k) if isinstance(k, (int, np.integer)) else -1
    return c.D(k)


def venc(c, m, x, val=None):
    val = val or m.val
    if m.nest and val == m.val:
        if not hasattr(x, "items"):
            raise Bad("not a mapping: %s" % type(x).__name__)
        ik = "int" if m.nest == "int" else "lab"
        return [[int(k) if ik == "int" else c.D(k), scalar(c, m, y)] for k, y in x.items()]
    return scalar(c, m, x)


def scalar(c, m, x):
    return c.D(x) if m.val == "lab" else fix(x)


def sdec(c, m, x):
    if m.val == "lab":
        return c.L(x)
    if x == PInf:
        return float("inf")
    y = x / MIL
    return y if m.fl else int(y)


def vdec(c, m, x, h=None):
    if m.nest:
        d = {(k if m.nest == "int" else c.L(k)): sdec(c, m, y) for k, y in x}
        form = (h or {}).get("vform")
        if form == "cont" and m.nest == "lab":
            return NodeNodeMap_row(c, m, d)
        return d
    return sdec(c, m, x)


def NodeNodeMap_row(c, m, d):
    """The same mapping as a NodeMap whose nodes are stored in another order."""
    keys = list(m.obj._key_to_id)[::-1]
    k2i = {k: i for i, k in enumerate(keys)}
    isl = m.val == "lab"
    v = gb.Vector.from_coo([k2i[k] for k in d], [k2i[y] if isl else y for y in d.values()], size=len(keys),
                           dtype=m.obj.matrix.dtype)
    return NodeMap(v, values_are_keys=isl, key_to_id=k2i)


def items(c, m, it):
    return {"k": "items", "v": [[kenc(c, m, k), venc(c, m, x)] for k, x in it]}


def view(c, m, how=0):
    o = m.obj
    if m.t == "set":
        return o_set(c, o)
    if how == 1:
        return items(c, m, dict(o).items())
    if how == 2:
        return items(c, m, zip(o.keys(), o.values()))
    if how == 3:
        return items(c, m, [(k, o[k]) for k in o])
    return items(c, m, o.items())


def reg(c, e, m):
    if not hasattr(c, "cont"):
        c.cont = {}
    c.cont[e["res"]] = m
    return m


def getc(c, i):
    try:
        return c.cont[i]
    except (AttributeError, KeyError):
        raise Skip from None


@op("cont")
def _(c, e):
    G = c.obj(e["g"])
    kind = e["kind"]
    n = len(G)
    dt = gb.dtypes.lookup_dtype(e["h"]["dtype"])
    fl = e["h"]["dtype"].startswith("FP")
    ix = {k: i for i, k in enumerate(stored(c, G))}
    I = lambda u: ix[c.L(u)]  # noqa: E731
    fill = None
    if kind == "nodeset":
        vals = [e["h"].get("val", True)] * len(e["init"])
        v = gb.Vector.from_coo([I(u) for u in e["init"]], vals, size=n, dtype=dt)
        m = Meta(G.vector_to_nodeset(v), "set", "lab", "num", None, False)
    elif kind in ("nodemap", "labmap"):
        m = Meta(None, "map", "lab", "lab" if kind == "labmap" else "num", None, fl)
        if e["fill"]:
            fill = sdec(c, m, e["fill"][0])
        dec = (lambda x: I(x)) if kind == "labmap" else (lambda x: sdec(c, m, x))
        v = gb.Vector.from_coo([I(u) for u, _ in e["init"]], [dec(x) for _, x in e["init"]], size=n, dtype=dt)
        m.obj = G.vector_to_nodemap(v, fill_value=fill, values_are_keys=kind == "labmap")
    elif kind == "vecmap":
        m = Meta(None, "map", "int", "num", None, fl)
        v = gb.Vector.from_coo([u for u, _ in e["init"]], [sdec(c, m, x) for _, x in e["init"]],
                               size=len(e["dom"]), dtype=dt)
        m.obj = VectorMap(v)
    elif kind == "vnmap":
        m = Meta(None, "map", "lab", "num", "int", fl)
        A = gb.Matrix.from_coo([I(u) for u, _, _ in e["init"]], [v for _, v, _ in e["init"]],
                               [sdec(c, m, x) for _, _, x in e["init"]], nrows=n, ncols=e["h"]["nc"], dtype=dt)
        rows = None
        if e["h"].get("rows"):
            rows = gb.Vector.from_coo([I(u) for u in e["rows"]], 1, size=n)
        m.obj = G.matrix_to_vectornodemap(A, rows=rows)
    else:  # nnmap, nnlab
        m = Meta(None, "map", "lab", "lab" if kind == "nnlab" else "num", "lab", fl)
        if e["fill"]:
            fill = sdec(c, m, e["fill"][0])
        dec = (lambda x: I(x)) if kind == "nnlab" else (lambda x: sdec(c, m, x))
        A = gb.Matrix.from_coo([I(u) for u, _, _ in e["init"]], [I(v) for _, v, _ in e["init"]],
                               [dec(x) for _, _, x in e["init"]], nrows=n, ncols=n, dtype=dt)
        m.obj = G.matrix_to_nodenodemap(A, fill_value=fill, values_are_keys=kind == "nnlab")
    reg(c, e, m)
    return view(c, m)


API = {
    "degree_centrality": "nm", "in_degree_centrality": "nm", "out_degree_centrality": "nm", "triangles": "nm",
    "clustering": "nm", "square_clustering": "nm", "katz_centrality": "nm", "eigenvector_centrality": "nm",
    "pagerank": "nm", "hits0": "nm", "hits1": "nm", "sspl": "nm", "bf": "nm", "reciprocity": "nm",
    "generalized_degree": "vnm", "floyd_warshall": "nnm", "fwp0": "nnl", "fwp1": "nnm", "apspl": "nm", "apbf": "nm",
    "descendants": "set", "ancestors": "set", "node_connected_component": "set", "isolates": "set",
    "node_boundary": "set", "descendants_at_distance": "set", "bfs_layers": "set",
}


def capi(c, e):
    D = Dispatcher
    G = c.obj(e["g"])
    f = e["fn"]
    u = c.L(e["u"])
    if f in ("hits0", "hits1"):
        return D.hits(G)[int(f[-1])]
    if f == "sspl":
        return D.single_source_shortest_path_length(G, u)
    if f == "bf":
        return D.single_source_bellman_ford_path_length(G, u)
    if f == "apspl":
        return dict(D.all_pairs_shortest_path_length(G))[u]
    if f == "apbf":
        return dict(D.all_pairs_bellman_ford_path_length(G))[u]
    if f in ("fwp0", "fwp1"):
        return D.floyd_warshall_predecessor_and_distance(G)[int(f[-1])]
    if f in ("descendants", "ancestors", "node_connected_component"):
        return getattr(D, f)(G, u)
    if f == "reciprocity":
        return D.reciprocity(G, stored(c, G))
    if f == "node_boundary":
        return D.node_boundary(G, [u])
    if f == "descendants_at_distance":
        return D.descendants_at_distance(G, u, 1)
    return getattr(D, f)(G)


def meta_for(kind, obj):
    # the container type the library documents for these functions
    want = {"nm": NodeMap, "vnm": VectorNodeMap, "nnm": NodeNodeMap, "nnl": NodeNodeMap, "set": NodeSet}[kind]
    if not isinstance(obj, want):
        return None
    if kind == "set":
        return Meta(obj, "set", "lab", "num", None, False)
    if kind == "nm":
        return Meta(obj, "map", "lab", "num", None, obj.vector.dtype.name.startswith("FP"))
    return Meta(obj, "map", "lab", "lab" if kind == "nnl" else "num", "int" if kind == "vnm" else "lab",
                obj.matrix.dtype.name.startswith("FP"))


@op("capi")
def _(c, e):
    try:
        obj = capi(c, e)
    except Exception:  # not what this is about
        raise Skip from None
    m = meta_for(API[e["fn"]], obj)
    if m is None:
        raise Skip
    reg(c, e, m)
    m.src = e
    return view(c, m)


@op("again")
def _(c, e):
    m = getc(c, e["c"])
    m2 = meta_for(API[m.src["fn"]], capi(c, m.src))
    if m2 is None:
        raise Bad("another type of container")
    return view(c, m2)


def o_val(c, m, x, default=None):
    """A value taken out of the mapping; `default`: list with the encoded default that was passed."""
    if default and isinstance(x, str) and x.startswith("default!"):
        return {"k": "dflt"}
    return {"k": "val", "v": venc(c, m, x)}


NONE = {"k": "none"}


@op("c_item", "c_get", "c_in", "c_len", "c_bool", "c_iter", "c_items", "c_eqd", "c_eqc", "c_set", "c_del", "c_pop",
    "c_popitem", "c_setdefault", "c_update", "c_clear")
def _(c, e):
    m = getc(c, e["c"])
    o = m.obj
    h = e["h"]
    name = e["op"]
    if "u" in e:
        k = kdec(c, m, e["u"], h)
    if name == "c_item":
        return o_val(c, m, o[k])
    if name == "c_get":
        if e["d"]:
            return o_val(c, m, o.get(k, "default!"), e["d"])
        r = o.get(k)
        return NONE if r is None else o_val(c, m, r)
    if name == "c_in":
        return o_bool(c, [k in o, k in o.keys()][h.get("keys", 0)])
    if name == "c_len":
        return {"k": "int", "v": len(o)}
    if name == "c_bool":
        return {"k": "bool", "v": bool(o)}
    if name == "c_iter":
        return {"k": "list", "v": [kenc(c, m, k) for k in (o.keys() if h.get("keys") else o)]}
    if name == "c_items":
        return view(c, m, h.get("how", 0))
    if name == "c_eqd":
        d = {kdec(c, m, a, h): vdec(c, m, x) for a, x in e["d"]}
        r = (d == o if h.get("ref") else o == d) if not e["neg"] else (d != o if h.get("ref") else o != d)
        return o_bool(c, r)
    if name == "c_eqc":
        o2 = getc(c, e["other"]).obj
        return o_bool(c, o != o2 if e["neg"] else o == o2)
    if name == "c_set":
        o[k] = vdec(c, m, e["x"], h)
        return NONE
    if name == "c_del":
        del o[k]
        return NONE
    if name == "c_pop":
        if e["d"]:
            return o_val(c, m, o.pop(k, "default!"), e["d"])
        return o_val(c, m, o.pop(k))
    if name == "c_popitem":
        return items(c, m, [o.popitem()])
    if name == "c_setdefault":
        r = o.setdefault(k, vdec(c, m, e["x"]))
        return o_val(c, m, r)
    if name == "c_update":
        prs = [(kdec(c, m, a, h), vdec(c, m, x)) for a, x in e["d"]]
        o.update(dict(prs) if h.get("how", 0) else prs)
        return NONE
    o.clear()
    return NONE


def operand(c, x):
    if x["k"] == "c":
        return getc(c, x["c"]).obj
    s = [c.L(u) for u in x["v"]]
    return {"py": set, "fs": frozenset, "lst": list, "keys": dict.fromkeys}[x["k"]](s)


@op("s_in", "s_len", "s_bool", "s_iter", "s_rel", "s_bin", "s_ibin", "s_union", "s_add", "s_discard", "s_remove",
    "s_pop", "s_clear", "s_copy")
def _(c, e):
    m = getc(c, e["c"])
    o = m.obj
    h = e["h"]
    name = e["op"]
    if name == "s_in":
        return o_bool(c, c.L(e["u"]) in o)
    if name == "s_len":
        return {"k": "int", "v": len(o)}
    if name == "s_bool":
        return {"k": "bool", "v": bool(o)}
    if name == "s_iter":
        return o_set(c, o)
    if name == "s_rel":
        B = operand(c, e["x"])
        f = e["f"]
        if f == "disjoint":
            return o_bool(c, o.isdisjoint(B))
        if h.get("ref"):
            return o_bool(c, {"eq": lambda: B == o, "ne": lambda: B != o, "le": lambda: B >= o, "lt": lambda: B > o,
                              "ge": lambda: B <= o, "gt": lambda: B < o}[f]())
        return o_bool(c, {"eq": lambda: o == B, "ne": lambda: o != B, "le": lambda: o <= B, "lt": lambda: o < B,
                          "ge": lambda: o >= B, "gt": lambda: o > B}[f]())
    if name == "s_bin":
        B = operand(c, e["x"])
        f = e["f"]
        if h.get("ref") and f != "rsub":
            r = {"and": lambda: B & o, "or": lambda: B | o, "xor": lambda: B ^ o, "sub": lambda: o - B}[f]()
        else:
            r = {"and": lambda: o & B, "or": lambda: o | B, "xor": lambda: o ^ B, "sub": lambda: o - B,
                 "rsub": lambda: B - o}[f]()
        return o_set(c, r)
    if name == "s_ibin":
        B = operand(c, e["x"])
        r = o
        f = e["f"]
        if f == "and":
            r &= B
        elif f == "or":
            r |= B
        elif f == "sub":
            r -= B
        else:
            r ^= B
        if r is not o:
            raise Bad("in-place operator returned another object")
        return o_set(c, r)
    if name == "s_union":
        return o_set(c, o.union(*[operand(c, x) for x in e["xs"]]))
    if name == "s_copy":
        r = o.copy()
        reg(c, e, Meta(r, "set", "lab", "num", None, False))
        return o_set(c, r)
    if name == "s_pop":
        return {"k": "val", "v": c.D(o.pop())}
    if name == "s_clear":
        o.clear()
    elif name == "s_add":
        o.add(c.L(e["u"]))
    elif name == "s_discard":
        o.discard(c.L(e["u"]))
    elif name == "s_remove":
        o.remove(c.L(e["u"]))
    return NONE
