"""Execution of plans against the real library, and encoding of outcomes for the specification."""
import copy
import json
import math
import numbers
import random
import signal
from fractions import Fraction

import numpy as np
import networkx as nx
import graphblas as gb
import graphblas_algorithms as ga
from graphblas_algorithms.interface import Dispatcher

NaNI = 2147483001
PInf = 2147483002
NInf = -2147483002
BigI = 2147483003
NotI = 2147483004
MIL = 10**6


class OpTimeout(Exception):
    pass


class Bad(Exception):
    """The result does not have the type the specification talks about."""


class Skip(Exception):
    """A step refers to an object that an earlier step failed to create."""


def _alarm(*a):
    raise OpTimeout("call did not return")


LABELS = {
    "id0": lambda i, N: i - 1,
    "id1": lambda i, N: i,
    "rev": lambda i, N: N - i,
    "off": lambda i, N: 10 * i + 7,
    "neg": lambda i, N: -i,
    "str": lambda i, N: "n%s" % chr(96 + i) if i < 26 else "n%d" % i,
    "tup": lambda i, N: (i, "x"),
    "float": lambda i, N: i + 0.5,
    "fs": lambda i, N: frozenset((i,)),
    "shift": lambda i, N: i % N,
    "mix": lambda i, N: [i, "s%d" % i, (i, i), -i - 0.5, frozenset((i, "q")), "%d" % i][i % 6],
}
LABKINDS = ["id0", "id1", "rev", "off", "neg", "str", "tup", "float", "fs", "shift", "mix"]


class Ctx:
    def __init__(self, lab, N):
        self.labkind = lab
        self.N = N
        self.lab = [None] + [LABELS[lab](i, N) for i in range(1, N + 1)]
        assert len(set(self.lab[1:])) == N
        self.inv = {x: i for i, x in enumerate(self.lab) if i}
        self.objs = {}
        self.sc = {}
        self.via = "api"
        self.weight = None
        self.kord = False  # some label dictionary is not in storage order
        self.nowt = False  # ask without weights (multigraphs: parallel edges count one each)
        self.hold = False  # keep the next raw result unread
        self.give = None  # (raw result to hand out instead of calling)
        self.held = {}

    def L(self, i):
        if i == 0:
            return ("no*", "such*", "node*")
        return self.lab[i]

    def Ls(self, ids):
        return [self.L(i) for i in ids]

    def D(self, x):
        try:
            return self.inv.get(x, 0)
        except TypeError:
            return 0

    def obj(self, i):
        if i not in self.objs:
            raise Skip
        return self.objs[i]


# ---------------------------------------------------------------- encoding
def num(x):
    if isinstance(x, gb.Scalar):
        x = x.value
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x[()]
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (numbers.Number, np.number)):
        return x
    raise Bad("not a number: %s" % type(x).__name__)


def fix(x, mul=MIL):
    """Fixed point encoding."""
    x = num(x)
    if isinstance(x, complex):
        raise Bad("complex")
    x = float(x)
    if math.isnan(x):
        return NaNI
    if math.isinf(x):
        return PInf if x > 0 else NInf
    r = round(x * mul)
    return r if abs(r) < 2147480000 else BigI


def ex(x, sc=1):
    """Exact integer encoding of x*sc."""
    y = num(x)
    y = y.item() if isinstance(y, np.number) else y
    x = float(y)
    if math.isnan(x):
        return NaNI
    if math.isinf(x):
        return PInf if x > 0 else NInf
    if isinstance(sc, Fraction):  # weights counted in a large unit: nothing may be lost
        q = Fraction(y) * sc
        if q.denominator != 1:
            return NotI
        return int(q) if abs(q) < 2147480000 else BigI
    r = round(x * sc)
    if abs(r - x * sc) > 1e-7:
        return NotI
    return r if abs(r) < 2147480000 else BigI


def jsc(sc):
    """The scale as the specification knows it."""
    return 1 if isinstance(sc, Fraction) else sc


def o_set(c, x):
    if not hasattr(x, "__iter__"):
        raise Bad("not a set: %s" % type(x).__name__)
    return {"k": "set", "v": [c.D(v) for v in x]}


def o_list(c, x):
    return {"k": "list", "v": [c.D(v) for v in x]}


def o_bool(c, x):
    if isinstance(x, gb.Scalar):
        x = x.value
    if not isinstance(x, (bool, np.bool_)):
        raise Bad("not a bool: %s" % type(x).__name__)
    return {"k": "bool", "v": bool(x)}


def o_num(c, x, mul=MIL):
    return {"k": "num", "v": fix(x, mul)}


def o_int(c, x, sc=1):
    return {"k": "int", "v": ex(x, sc)}


def o_map(c, m, val=ex):
    if not hasattr(m, "items"):
        raise Bad("not a mapping: %s" % type(m).__name__)
    return {"k": "map", "v": [[c.D(k), val(v)] for k, v in m.items()]}


def o_mm(c, m, val=ex):
    """mapping of mappings (or iterable of (key, mapping))."""
    it = m.items() if hasattr(m, "items") else m
    rows, v = [], []
    for k, d in it:
        k = c.D(k)
        rows.append(k)
        if not hasattr(d, "items"):
            raise Bad("not a mapping of mappings: %s" % type(d).__name__)
        for j, x in d.items():
            v.append([k, c.D(j), val(x)])
    return {"k": "mm", "r": rows, "v": v}


def o_lol(c, x):
    return {"k": "lol", "v": [[c.D(v) for v in y] for y in x]}


def o_mat(c, M, val=ex):
    return {"k": "mat", "v": [[val(x) for x in row] for row in M]}


def matrix_dict(G):
    """{(i, j): value} of the adjacency matrix of a library graph."""
    r, co, v = G.matrix.to_coo()
    return dict(zip(zip(r.tolist(), co.tolist()), v.tolist()))


def stored(c, G):
    """The keys of a library graph in storage order (the iteration order, unless the label
    dictionary was given in another order)."""
    if c.kord and isinstance(G, ga.Graph) and sorted(G._key_to_id.values()) == list(range(len(G))):
        return sorted(G, key=G._key_to_id.__getitem__)
    return list(G)


def enc_graph(c, G, sc=1, N=None):
    """Abstract graph of a library or networkx graph object."""
    N = N or c.N
    if isinstance(G, ga.Graph):
        nd = [c.D(k) for k in stored(c, G)]
        M = G.matrix
        if not (len(nd) == len(G) == M.nrows == M.ncols):
            raise Bad("node count mismatch")
        i2k = G.id_to_key
        if len(i2k) != len(nd):
            raise Bad("id_to_key mismatch")
        ent = [(c.D(i2k[i]), c.D(i2k[j]), x) for (i, j), x in matrix_dict(G).items()]
        # storage position is the iteration order
        if [c.D(i2k[i]) for i in range(len(nd))] != nd:
            raise Bad("iteration order differs from storage order")
        dir = bool(G.is_directed())
    elif isinstance(G, nx.Graph):
        nd = [c.D(k) for k in G]
        dir = bool(G.is_directed())
        ent = []
        for u, v, d in G.edges(data=True):
            x = d.get(c.weight or "weight", 1)
            if x is None:
                x = 1
            ent.append((c.D(u), c.D(v), x))
            if not dir and (u != v or not G.is_multigraph()):
                ent.append((c.D(v), c.D(u), x))
        if G.is_multigraph():  # parallel edges add up
            tot = {}
            for u, v, x in ent:
                tot[u, v] = tot.get((u, v), 0) + x
            ent = [(u, v, x) for (u, v), x in tot.items()]
    else:
        raise Bad("not a graph: %s" % type(G).__name__)
    if 0 in nd:
        raise Bad("unknown node label in graph")
    a = [[0] * N for _ in range(N)]
    w = [[0] * N for _ in range(N)]
    for u, v, x in ent:
        a[u - 1][v - 1] = 1
        w[u - 1][v - 1] = ex(x, sc)
    return {"nd": nd, "dir": dir, "a": a, "w": w, "sc": jsc(sc)}


# ---------------------------------------------------------------- building
DTYPES_INT = ["INT64", "INT32", "FP64", "FP32", "INT16", "INT8"]


def np_dtype(name):
    return gb.dtypes.lookup_dtype(name)


def build(c, g, b):
    """Construct the library (or networkx) object for abstract graph g as told by b."""
    route = b.get("route", "matrix")
    sc = g.get("sc", 1)
    dt = b.get("dtype", "INT64")
    nd = g["nd"]
    pos = {v: i for i, v in enumerate(nd)}
    n = len(nd)
    N = len(g["a"])
    ent = [(u + 1, v + 1, g["w"][u][v]) for u in range(N) for v in range(N) if g["a"][u][v]]

    unit = b.get("unit", 1)

    def val(x):
        x = x * unit
        if dt == "BOOL":
            return bool(x)
        if dt.startswith("FP"):
            return x / sc
        assert x % sc == 0
        return x // sc

    def matrix():
        if not ent:
            return gb.Matrix(dt, nrows=n, ncols=n)
        r = [pos[u] for u, v, x in ent]
        co = [pos[v] for u, v, x in ent]
        xs = [val(x) for u, v, x in ent]
        if b.get("iso") and len(set(xs)) == 1:
            return gb.Matrix.from_coo(r, co, xs[0], nrows=n, ncols=n, dtype=dt)
        return gb.Matrix.from_coo(r, co, xs, nrows=n, ncols=n, dtype=dt)

    def nxgraph():
        G = nx.DiGraph() if g["dir"] else nx.Graph()
        G.add_nodes_from(c.Ls(nd))
        attr = b.get("attr", "weight")
        skip1 = b.get("skip1")
        k = 0
        for u, v, x in ent:
            if not g["dir"] and (u > v):
                continue
            k += 1
            x = val(x)
            if skip1 and x == 1 and k % 2:
                G.add_edge(c.L(u), c.L(v))
            else:
                G.add_edge(c.L(u), c.L(v), **{attr: x})
            if b.get("noise"):
                G[c.L(u)][c.L(v)]["other"] = 99
        return G

    def multigraph():
        """Parallel edges: `w` copies of an edge (count) or several edges whose values add up to w (sum)."""
        R = random.Random(b["seed"])
        G = nx.MultiDiGraph() if g["dir"] else nx.MultiGraph()
        G.add_nodes_from(c.Ls(nd))
        L = []
        for u, v, x in ent:
            if not g["dir"] and u > v:
                continue
            if b["multi"] == "count":
                parts = [None] * x
            else:
                parts = []
                for _ in range(R.choice([0, 0, 1, 2, 3])):
                    parts.append(R.randint(0, 3) if R.random() < 0.7 else R.randint(-3, 3))
                parts.append(x - sum(parts))
            for y in parts:
                d = {} if y is None or (y == 1 and R.random() < 0.5) else {b.get("attr", "weight"): y}
                if R.random() < 0.2:
                    d["other"] = R.randint(5, 9)
                L.append((c.L(v), c.L(u), d) if not g["dir"] and R.random() < 0.5 else (c.L(u), c.L(v), d))
        R.shuffle(L)
        G.add_edges_from(L)
        return G

    if route == "nxm":
        return multigraph()
    if route == "mobj":
        cls = ga.MultiDiGraph if g["dir"] else ga.MultiGraph
        attr = b.get("attr", "weight")
        if b["how"] == "matrix":
            return cls(matrix(), key_to_id={c.L(v): i for i, v in enumerate(nd)})
        if b["how"] == "from":
            return cls.from_networkx(multigraph(), weight=None if b["multi"] == "count" and b["seed"] % 2 else attr)
        if b["multi"] == "count" and b["seed"] % 2:
            return Dispatcher.convert_from_nx(multigraph())
        return Dispatcher.convert_from_nx(multigraph(), edge_attrs={attr: 1})
    if route == "raw":  # a bare Matrix handed to the functions
        return matrix()
    if route == "matrix":
        cls = ga.DiGraph if g["dir"] else ga.Graph
        M = matrix()
        if b.get("default_keys"):
            return cls(M)
        k2i = [(c.L(v), i) for i, v in enumerate(nd)]
        if "kord" in b:
            random.Random(b["kord"]).shuffle(k2i)
            c.kord = True
        return cls(M, key_to_id=dict(k2i))
    if route == "fromnx":
        G = nxgraph()
        cls = ga.DiGraph if g["dir"] else ga.Graph
        return cls.from_networkx(
            G, weight=b.get("attr", "weight"), dtype=None if b.get("autodt") else np_dtype(dt)
        )
    if route == "convert":
        G = nxgraph()
        attr = b.get("attr", "weight")
        return Dispatcher.convert_from_nx(G, edge_attrs={attr: 1})
    if route == "nx":
        return nxgraph()
    raise ValueError(route)


def isnx(G):
    return isinstance(G, nx.Graph)


_DISP = None


def disp():
    global _DISP
    if _DISP is None:
        _DISP = nx.utils.backends._registered_algorithms
    return _DISP


class Held(Exception):
    """The plan wants the raw result kept and read later."""


TAKES_WEIGHT = {"cut_size", "volume", "normalized_cut_size", "conductance", "edge_expansion", "pagerank", "google_matrix",
                "adjacency_matrix", "laplacian_matrix", "normalized_laplacian_matrix"}


def call(c, name, G, *args, **kw):
    """Call a public algorithm; its list, set and dict arguments must come out as they went in."""
    if c.give is not None:
        r, c.give = c.give[0], None
        return r
    if c.nowt and name in TAKES_WEIGHT:
        kw["weight"] = None
    given = [x for x in [*args, *kw.values()] if isinstance(x, (list, set, dict))]
    before = [copy.deepcopy(x) for x in given]
    r = _call(c, name, G, *args, **kw)
    for x, y in zip(given, before):
        if x != y or (not isinstance(x, set) and list(x) != list(y)):
            raise Bad("an argument was changed: %s is now %s" % (ascii(y)[:80], ascii(x)[:80]))
    if c.hold:
        c.hold = False
        raise Held(r)
    return r


def _call(c, name, G, *args, **kw):
    """Make the call the way the plan says (c.via)."""
    if c.via == "native":
        return disp()[name].orig_func(G, *args, **kw)
    if c.via == "kw":
        f = disp()[name]
        import inspect

        ps = list(inspect.signature(f.orig_func).parameters)
        pos = [G] + list(args)
        k = 2 if len(pos) > 1 and isinstance(pos[1], (nx.Graph, ga.Graph)) else 1
        kw.update(zip(ps, pos[:k]))
        kw.update(zip(ps[k:], pos[k:]))
        if isnx(G):
            kw["backend"] = "graphblas"
        return f(**kw)
    if isnx(G):
        if c.via == "api":  # nxapi functions accept networkx graphs too
            return getattr(Dispatcher, name)(G, *args, **kw)
        return disp()[name](G, *args, backend="graphblas", **kw)
    if c.via == "nx" and isinstance(G, ga.Graph):
        return disp()[name](G, *args, **kw)
    return getattr(Dispatcher, name)(G, *args, **kw)


def consume(c, e, G, it):
    """Drain a lazy result, reading properties of the graph in the middle if the plan says so."""
    h = e.get("h", {})
    if "mid" not in h or isnx(G) or not hasattr(it, "__next__"):
        return list(it)
    out = []
    for _ in range(h["at"]):
        try:
            out.append(next(it))
        except StopIteration:
            break
    for names in h["mid"]:
        G.get_properties(names)
    out += list(it)
    return out


OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f

    return deco


@op("graph")
def _graph(c, e):
    G = build(c, e["gr"], e["b"])
    c.objs[e["res"]] = G
    c.sc[e["res"]] = e["gr"].get("sc", 1)
    if "unit" in e["b"]:
        c.sc[e["res"]] = Fraction(1, e["b"]["unit"])
    return {"k": "graph", "g": e["gr"]}


@op("skip")
def _skip(c, e):
    return {"k": "none"}


@op("project")
def _project(c, e):
    G = c.obj(e["g"])
    if isinstance(G, gb.Matrix):
        M = G
        c2 = {"nd": e["nd"]}
        N = c.N
        a = [[0] * N for _ in range(N)]
        w = [[0] * N for _ in range(N)]
        r, co, v = M.to_coo()
        for i, j, x in zip(r.tolist(), co.tolist(), v.tolist()):
            a[c2["nd"][i] - 1][c2["nd"][j] - 1] = 1
            w[c2["nd"][i] - 1][c2["nd"][j] - 1] = ex(x, c.sc[e["g"]])
        return {"k": "graph", "g": {"nd": e["nd"], "dir": e["dir"], "a": a, "w": w, "sc": jsc(c.sc[e["g"]])}}
    c.weight = e.get("attr")
    return {"k": "graph", "g": enc_graph(c, G, c.sc[e["g"]])}


def exc_out(exc):
    return {"k": "exc", "c": [t.__name__ for t in type(exc).__mro__ if t is not object],
            "m": ascii(str(exc))[:120]}


OP_TIMEOUT = 40


def execute(session):
    """Run a session plan; return the list of events with outcomes."""
    c = Ctx(session["lab"], session["N"])
    evs = []
    timeouts = 0
    for e in session["ev"]:
        e = dict(e)
        e.pop("o", None)
        c.via = e.get("via", "api")
        c.weight = c.give = None
        c.nowt = isinstance(e.get("h"), dict) and e["h"].get("nowt", False)
        c.hold = False
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(OP_TIMEOUT)
        try:
            o = OPS[e["op"]](c, e)
            try:
                json.dumps(o)
            except (TypeError, ValueError):
                raise Bad("values that are not plain numbers or nodes: %s" % ascii(o)[:300]) from None
        except Skip:
            if "res" not in e:
                continue
            e = {"op": "skip", "g": 0, "res": e["res"]}
            o = {"k": "none"}
        except Bad as exc:
            o = {"k": "bad", "s": str(exc)}
        except OpTimeout as exc:
            o = exc_out(exc)
            timeouts += 1
        except Exception as exc:  # an outcome like any other; the specification judges it
            o = exc_out(exc)
        finally:
            signal.alarm(0)
        e["o"] = o
        evs.append(e)
        if timeouts:
            break
    return evs, timeouts
