"""Helpers to write session plans."""
import contextlib

import gen

LABK = ["id0", "id1", "rev", "off", "neg", "str", "tup", "float", "fs", "shift", "mix"]
CHUNKS = [1, 2, 3, 4, 5, 7, 100, None, "all", "10 MiB", "1 kb", "2 chunks", "3 chunks", "100 b", 2.5,
          "0.5 kB", "1_00", "5 b", "64 B", "128b", 0, -1]


UND_ONLY = {"is_connected", "node_connected_component", "efficiency", "triangles", "gen_degree", "sq_clust", "k_truss", "is_k_regular"}

# Build some graphs from a key_to_id dictionary that is not in storage order (set by the worker)
KORD = False
IN_ORDER = {"C03", "C22", "C25", "C26"}  # iteration order is compared there


class Sess:
    def __init__(self, rng, N, lab=None):
        self.rng = rng
        self.lab = lab or rng.choice(LABK)
        self.N = N
        self.ev = []
        self.n = 0

    def graph(self, gr, need=(), b=None, unit=0, **kw):
        self.n += 1
        b = b or route(self.rng, gr, self.lab, **kw)
        if unit and gr.get("sc", 1) == 1 and self.rng.random() < unit:
            in_units(self.rng, b)
        self.ev.append({"op": "graph", "g": 0, "gr": gr, "b": b, "need": list(need), "res": self.n})
        self.last = gr
        self.b = b
        return self.n

    def add(self, op, g, **kw):
        self.skipped = False
        if self.b.get("route") == "raw":
            # a bare matrix is read as undirected by undirected-only functions, else as directed
            if (op in UND_ONLY) == bool(self.last["dir"]):
                self.skipped = True
                return
        via = kw.pop("via", None) or self.rng.choice(["api", "api", "nx"])
        self.ev.append(dict(op=op, g=g, via=via, **kw))

    def res(self, op, g, need=(), **kw):
        """An operation that creates a graph."""
        self.n += 1
        self.add(op, g, need=list(need), res=self.n, **kw)
        if self.skipped:
            self.ev.append({"op": "skip", "g": 0, "res": self.n})
        return self.n

    def project(self, g, gr=None):
        gr = gr or self.last
        self.ev.append({"op": "project", "g": g, "nd": gr["nd"], "dir": gr["dir"],
                        **({"attr": self.b["attr"]} if self.b.get("attr") else {})})

    def done(self):
        return {"lab": self.lab, "N": self.N, "ev": self.ev}


def route(rng, gr, lab, nx_ok=True, raw_ok=False, dtypes=None, weighted=False):
    """Choose how the object is built; must be able to represent the weights exactly."""
    nd = gr["nd"]
    ws = [x for row in gr["w"] for x in row]
    ent = [gr["w"][i][j] for i in range(len(gr["w"])) for j in range(len(gr["w"])) if gr["a"][i][j]]
    n = len(nd)
    r = rng.random()
    if raw_ok and lab == "id0" and nd == list(range(1, n + 1)) and n and rng.random() < 0.5:
        rt = "raw"
    elif r < 0.5:
        rt = "matrix"
    elif r < 0.8:
        rt = "fromnx"
    elif r < 0.9 or not nx_ok:
        rt = "convert"
    else:
        rt = "nx"
    b = {"route": rt}
    sc = gr.get("sc", 1)
    if dtypes is None:
        if sc != 1:
            dtypes = ["FP64", "FP64", "FP32"]
        else:
            dtypes = ["INT64", "FP64", "FP64", "INT32", "FP32"]
            if all(x == 1 for x in ent):
                dtypes = dtypes + ["BOOL", "BOOL", "UINT64"] + (["UINT8", "INT8"] if n <= 40 else ["UINT16", "INT32"])
            elif all(0 <= x <= 5 for x in ent) and n <= 12:
                dtypes = dtypes + ["UINT32", "UINT64", "INT16"]
            elif all(0 <= x for x in ent):
                dtypes = dtypes + ["UINT32", "UINT64"]
    b["dtype"] = rng.choice(dtypes)
    if rt in ("convert", "nx") and b["dtype"] not in ("BOOL", "INT64"):
        b["dtype"] = "FP64" if sc != 1 or rng.random() < 0.5 else "INT64"
    if rt in ("matrix", "raw"):
        b["iso"] = rng.random() < 0.5
        if rt == "matrix" and lab == "id0" and nd == list(range(1, n + 1)):
            b["default_keys"] = rng.random() < 0.5
        if KORD and rt == "matrix" and not b.get("default_keys") and rng.random() < 0.12:
            b["kord"] = rng.randrange(10**6)
    if rt in ("fromnx", "convert", "nx"):
        if rt == "fromnx" or rt == "convert":
            if rng.random() < 0.3:
                b["attr"] = "cost"
        if rt == "fromnx" and sc == 1 and b["dtype"] in ("INT64", "FP64") and rng.random() < 0.5:
            b["autodt"] = True
        b["skip1"] = rng.random() < 0.3
        if rt == "fromnx":
            b["noise"] = rng.random() < 0.2
    return b


UNITS = [10**9 + 7, 2**33 + 1, 2**40 + 1]


def in_units(rng, b):
    """The weights of the real graph are those of the abstract one times a large number."""
    b["unit"] = rng.choice(UNITS)
    if b["dtype"] not in ("INT64", "FP64"):
        b["dtype"] = rng.choice(["INT64", "FP64"])


FAR = []  # nodes to prefer (those of large eccentricity, in large graphs)


@contextlib.contextmanager
def preferring(nodes):
    FAR[:] = nodes
    try:
        yield
    finally:
        FAR.clear()


def some(rng, nd):
    """A few different nodes."""
    return list(dict.fromkeys(FAR[:1] + rng.sample(nd, rng.randint(1, min(4, len(nd))))))


def pick(rng, nd, N, miss=0.06):
    """A node label, sometimes one that is not in the graph."""
    if FAR and rng.random() < 0.5:
        return rng.choice(FAR)
    if not nd or rng.random() < miss:
        out = [x for x in range(1, N + 1) if x not in nd]
        return rng.choice(out) if out and rng.random() < 0.7 else 0
    return rng.choice(nd)


def subset(rng, nd, kmin=0, kmax=None):
    kmax = len(nd) if kmax is None else min(kmax, len(nd))
    if kmax < kmin:
        return list(nd)
    k = rng.randint(kmin, kmax)
    return rng.sample(nd, k)
