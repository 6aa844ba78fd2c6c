import gen
from pcommon import Sess, route
from plans_reach import dim

NUMS = [0, 1, 2, 3, 5, 7]
API_D = ["degree_centrality", "in_degree_centrality", "out_degree_centrality", "clustering", "katz_centrality",
         "pagerank", "hits0", "hits1", "sspl", "bf", "apspl", "apbf", "reciprocity", "floyd_warshall", "fwp0", "fwp1"]
API_U = ["degree_centrality", "triangles", "clustering", "square_clustering", "katz_centrality",
         "eigenvector_centrality", "pagerank", "sspl", "bf", "apspl", "apbf", "generalized_degree",
         "generalized_degree", "floyd_warshall", "fwp0", "fwp1"]
SETS_D = ["descendants", "ancestors", "isolates", "node_boundary", "descendants_at_distance"]
SETS_U = SETS_D + ["node_connected_component"]


class Cont:
    """What the generator knows about a container it has put in the session."""

    def __init__(self, id, t, kind, dom, nest, fl, lab, nc=0):
        self.id, self.t, self.kind, self.dom, self.nest, self.fl, self.lab, self.nc = id, t, kind, dom, nest, fl, lab, nc
        self.known = None


def mk(s, g, gr, rng, kind, nd):
    dom = list(nd)
    n = len(nd)
    h = {}
    nest = kind in ("vnmap", "nnmap", "nnlab")
    fl = rng.random() < 0.5
    h["dtype"] = rng.choice(["FP64", "FP32"]) if fl else rng.choice(["INT64", "INT32", "UINT64"])
    if kind in ("labmap", "nnlab"):
        fl, h["dtype"] = False, "INT64"
    e = {"kind": kind, "fill": [], "rows": [], "nest": nest, "t": "map"}
    num = lambda: rng.choice(NUMS) * 1000000 + (500000 if fl and rng.random() < 0.3 else 0)  # noqa: E731
    nc = 0
    if kind == "nodeset":
        e["t"] = "set"
        h["dtype"] = rng.choice(["BOOL", "INT64", "FP64"])
        h["val"] = rng.choice([1, 1, 0])
        e["init"] = rng.sample(dom, rng.randint(0, n))
    elif kind == "nodemap":
        e["init"] = [[u, num()] for u in rng.sample(dom, rng.randint(0, n))]
        if rng.random() < 0.5:
            e["fill"] = [rng.choice([0, 0, 1000000])]
            if fl and rng.random() < 0.3:
                e["fill"] = [2147483002]
                fill_inf = True  # noqa: F841
    elif kind == "labmap":
        e["init"] = [[u, rng.choice(dom)] for u in rng.sample(dom, rng.randint(0, n))]
    elif kind == "vecmap":
        dom = list(range(rng.randint(0, 5)))
        e["init"] = [[u, num()] for u in rng.sample(dom, rng.randint(0, len(dom)))]
    else:
        nc = h["nc"] = rng.randint(1, 4) if kind == "vnmap" else n
        cols = list(range(nc)) if kind == "vnmap" else dom
        cells = [(u, v) for u in dom for v in cols]
        cells = rng.sample(cells, rng.randint(0, min(len(cells), 9)))
        e["init"] = [[u, v, rng.choice(dom) if kind == "nnlab" else num()] for u, v in cells]
        if kind == "nnmap" and rng.random() < 0.5:
            e["fill"] = [rng.choice([0, 1000000])]
        if kind == "vnmap":
            rs = {u for u, _ in cells}
            if rng.random() < 0.6:
                h["rows"] = 1
                e["rows"] = sorted(rs | set(rng.sample(dom, rng.randint(0, n))))
    s.n += 1
    s.ev.append({"op": "cont", "g": g, "via": "api", "h": h, "dom": dom, "res": s.n, **e})
    ct = Cont(s.n, e["t"], kind, dom, nest, fl, kind in ("labmap", "nnlab"), nc)
    ct.init = e["init"] if not nest and not e["fill"] and kind != "nodeset" else None
    return ct


def mk_api(s, g, nd, rng, dir, sets):
    if not nd:
        return None
    fn = rng.choice((SETS_D if dir else SETS_U) if sets else (API_D if dir else API_U))
    s.n += 1
    nest = fn in ("generalized_degree", "floyd_warshall", "fwp0", "fwp1")
    s.ev.append({"op": "capi", "g": g, "via": "api", "h": {}, "fn": fn, "u": rng.choice(nd), "dom": nd, "res": s.n,
                 "t": "set" if sets else "map", "nest": nest})
    n = len(nd)
    ct = Cont(s.n, "set" if sets else "map", fn, list(nd), nest, fn in
              ("katz_centrality", "pagerank", "clustering", "square_clustering", "hits0", "hits1", "degree_centrality",
               "in_degree_centrality", "out_degree_centrality", "reciprocity", "eigenvector_centrality"),
              fn == "fwp0", n - 1 if fn == "generalized_degree" else n)
    ct.api = True
    ct.init = None
    return ct


def a_key(ct, rng, foreign=0.12):
    if not ct.dom or rng.random() < foreign:
        return -1 if ct.kind == "vecmap" else 0
    return rng.choice(ct.dom)


def a_scalar(ct, rng):
    if ct.lab:
        return rng.choice(ct.dom)
    return rng.choice(NUMS) * 1000000 + (500000 if ct.fl and rng.random() < 0.4 else 0)


def a_val(ct, rng):
    if not ct.nest:
        return a_scalar(ct, rng)
    cols = list(range(ct.nc)) if ct.kind in ("vnmap", "generalized_degree") else ct.dom
    return [[v, a_scalar(ct, rng)] for v in rng.sample(cols, rng.randint(1, len(cols)))]


def inexact(ct):
    # values with rounding errors: comparing them for equality says nothing
    return getattr(ct, "api", False) and ct.fl


MAPOPS = ["c_item", "c_item", "c_get", "c_get", "c_in", "c_in", "c_len", "c_iter", "c_items", "c_items", "c_eqd", "c_eqd",
          "c_eqc", "c_bool", "c_set", "c_set", "c_set", "c_del", "c_del", "c_pop", "c_pop", "c_popitem", "c_setdefault",
          "c_setdefault", "c_update", "c_clear"]


def map_op(s, ct, cs, rng, op=None):
    op = op or rng.choice(MAPOPS)
    if op == "c_clear" and rng.random() < 0.6:
        op = "c_items"
    h = {"f": rng.randint(0, 4)}
    e = {"op": op, "c": ct.id, "via": "api", "h": h}
    if op in ("c_item", "c_get", "c_in", "c_del", "c_pop", "c_set", "c_setdefault"):
        e["u"] = a_key(ct, rng)
    if op in ("c_get", "c_pop"):
        e["d"] = [] if rng.random() < 0.5 else [4242]
    if op in ("c_in", "c_iter"):
        h["keys"] = int(rng.random() < 0.3)
    if op == "c_items":
        h["how"] = rng.randint(0, 3)
    if op in ("c_set", "c_setdefault"):
        if not ct.dom or ct.kind == "generalized_degree" and not ct.nc:
            return
        e["x"] = a_val(ct, rng)
        if ct.nest and ct.kind in ("nnmap", "nnlab") and rng.random() < 0.3:
            h["vform"] = "cont"
    if op in ("c_update", "c_eqd") and ct.kind == "generalized_degree" and not ct.nc:
        return
    if op == "c_update":
        e["d"] = [[u, a_val(ct, rng)] for u in rng.sample(ct.dom, rng.randint(0, len(ct.dom)))]
        h["how"] = rng.randint(0, 1)
    if op == "c_eqd" and inexact(ct):
        return
    if op == "c_eqd":
        e["neg"] = rng.random() < 0.3
        h["ref"] = int(rng.random() < 0.4)
        if ct.init is not None and rng.random() < 0.7:
            e["d"] = list(ct.init)
            if rng.random() < 0.2:
                e["d"] = e["d"][1:]
        elif ct.dom:
            e["d"] = [[u, a_val(ct, rng)] for u in rng.sample(ct.dom, rng.randint(0, min(2, len(ct.dom))))]
        else:
            e["d"] = []
        rng.shuffle(e["d"])
    if op == "c_eqc":
        peers = [x for x in cs if x.t == "map" and x.nest == ct.nest and x.lab == ct.lab and (x.kind == "vecmap") == (ct.kind == "vecmap")
                 and (x.kind in ("vnmap", "generalized_degree")) == (ct.kind in ("vnmap", "generalized_degree"))
                 and (x is ct or not inexact(x) and not inexact(ct))]
        e["other"] = rng.choice(peers).id
        e["neg"] = rng.random() < 0.3
    s.ev.append(e)


SETOPS = ["s_in", "s_in", "s_len", "s_iter", "s_iter", "s_rel", "s_rel", "s_rel", "s_bin", "s_bin", "s_bin", "s_ibin",
          "s_union", "s_bool", "s_add", "s_add", "s_discard", "s_remove", "s_pop", "s_clear", "s_copy"]


def a_operand(s, ct, cs, rng, foreign=True, lists=False):
    peers = [x for x in cs if x.t == "set"]
    r = rng.random()
    if r < 0.45:
        return {"k": "c", "c": rng.choice(peers).id}
    v = rng.sample(ct.dom, rng.randint(0, len(ct.dom)))
    if foreign and rng.random() < 0.2:
        v.append(0)
    return {"k": rng.choice(["py", "py", "fs"] + (["lst"] if lists else [])), "v": v}


def set_op(s, ct, cs, rng, op=None):
    op = op or rng.choice(SETOPS)
    if op == "s_clear" and rng.random() < 0.6:
        op = "s_iter"
    h = {"ref": int(rng.random() < 0.4)}
    e = {"op": op, "c": ct.id, "via": "api", "h": h}
    if op in ("s_in", "s_add", "s_discard", "s_remove"):
        e["u"] = a_key(ct, rng)
    if op == "s_rel":
        e["f"] = rng.choice(["eq", "eq", "ne", "le", "lt", "ge", "gt", "disjoint", "disjoint"])
        e["x"] = a_operand(s, ct, cs, rng, lists=e["f"] == "disjoint")
    if op == "s_bin":
        e["f"] = rng.choice(["and", "or", "sub", "rsub", "xor"])
        e["x"] = a_operand(s, ct, cs, rng)
    if op == "s_ibin":
        e["f"] = rng.choice(["and", "or", "sub", "xor"])
        e["x"] = a_operand(s, ct, cs, rng, foreign=e["f"] in ("and", "sub"))
        if e["x"]["k"] == "c" and e["f"] in ("or", "xor") and set(next(x for x in cs if x.id == e["x"]["c"]).dom) - set(ct.dom):
            return
    if op == "s_union":
        e["xs"] = [a_operand(s, ct, cs, rng, lists=True) for _ in range(rng.randint(0, 2))]
    if op == "s_copy":
        s.n += 1
        e["res"] = s.n
        e["g"] = 1
    s.ev.append(e)
    if op == "s_copy":
        c2 = Cont(s.n, "set", "nodeset", ct.dom, False, False, False)
        c2.init = None
        cs.append(c2)


def twin(s, cs, rng, g2, nd2, mv, moved):
    """The first container again for the other graph: the same entries by label, or by position."""
    ct = cs[0]
    e = next(e for e in s.ev if e.get("res") == ct.id)
    f = (lambda u: mv[u]) if moved else (lambda u: u)
    s.n += 1
    t = dict(e, g=g2, res=s.n, dom=list(nd2))
    if e["op"] == "capi":
        t["u"] = f(e["u"])
    else:
        lab = f if ct.lab else (lambda x: x)
        if ct.t == "set":
            t["init"] = [f(u) for u in e["init"]]
        elif not ct.nest:
            t["init"] = [[f(u), lab(x)] for u, x in e["init"]]
        else:
            col = f if ct.kind in ("nnmap", "nnlab") else (lambda x: x)
            t["init"] = [[f(u), col(v), lab(x)] for u, v, x in e["init"]]
            t["rows"] = sorted(f(u) for u in e["rows"])
    s.ev.append(t)
    c2 = Cont(s.n, ct.t, ct.kind, list(nd2), ct.nest, ct.fl, ct.lab, ct.nc)
    c2.api = getattr(ct, "api", False)
    c2.init = None
    cs.append(c2)
    for x, y in ((ct, c2), (c2, ct)):
        if ct.t == "set":
            for r in rng.sample(["eq", "ne", "le", "lt", "ge", "gt", "disjoint"], 3):
                s.ev.append({"op": "s_rel", "c": x.id, "via": "api", "h": {"ref": 0}, "f": r, "x": {"k": "c", "c": y.id}})
        elif not inexact(ct):
            s.ev.append({"op": "c_eqc", "c": x.id, "via": "api", "h": {"ref": 0}, "other": y.id, "neg": rng.random() < 0.3})


def session(rng, sets, api):
    gr = gen.rand_graph(rng, rng.choice([2, 3, 4, 5]), wkinds=["one", "pos", "iso"])
    N = dim(gr)
    s = Sess(rng, N)
    lib = dict(nx_ok=False)
    g = s.graph(gr, b=route(rng, gr, s.lab, **lib))
    b1 = s.b
    # the same nodes in another order, and a graph with other nodes
    nd2 = list(gr["nd"])
    rng.shuffle(nd2)
    gr2 = dict(gr, nd=nd2)
    mv = dict(zip(gr["nd"], nd2))
    moved = rng.random() < 0.4
    if moved:  # the same adjacency matrix under other labels
        gr2.update({k: [[0] * N for _ in range(N)] for k in "aw"})
        for u, x in mv.items():
            for v, y in mv.items():
                for k in "aw":
                    gr2[k][x - 1][y - 1] = gr[k][u - 1][v - 1]
    g2 = s.graph(gr2, b=route(rng, gr2, s.lab, **lib))
    b2 = s.b
    gr3 = gr2
    g3 = None
    if rng.random() < 0.4:
        sub = rng.sample(range(1, N + 1), rng.randint(1, N))
        z = [[0] * N for _ in range(N)]
        gr3 = {"nd": sub, "dir": gr["dir"], "a": z, "w": z, "sc": 1}
        g3 = s.graph(gr3, b=route(rng, gr3, s.lab, **lib))
        b3 = s.b
    cs = []
    kinds = ["nodeset"] if sets else ["nodemap", "nodemap", "labmap", "vecmap", "vnmap", "nnmap", "nnlab"]
    kind = rng.choice(kinds)
    for i in range(2 + (rng.random() < 0.5)):
        gi, gri = (g, gr) if i == 0 or rng.random() < 0.4 else (g2, gr2)
        if i == 2 and g3:
            gi, gri = g3, gr3
        nd = gri["nd"]
        if api and (i == 0 or rng.random() < 0.6):
            ct = mk_api(s, gi, nd, rng, gr["dir"], sets)
        elif not nd and kind in ("labmap", "nnlab", "vnmap", "nnmap"):
            ct = None
        else:
            ct = mk(s, gi, gri, rng, kind if not api or sets else "nodemap", nd)
        if ct:
            cs.append(ct)
    if not cs:
        return None
    if rng.random() < 0.4 and cs[0].kind != "vecmap" and cs[0].dom == gr["nd"] != []:
        twin(s, cs, rng, g2, nd2, mv, moved and rng.random() < 0.7)
    for _ in range(rng.randint(10, 22)):
        ct = cs[0] if rng.random() < 0.6 else rng.choice(cs)
        (set_op if sets else map_op)(s, ct, cs, rng)
    for ct in cs:
        s.ev.append({"op": "s_iter", "c": ct.id, "via": "api", "h": {}} if sets else
                    {"op": "c_items", "c": ct.id, "via": "api", "h": {}})
        if getattr(ct, "api", False):
            s.ev.append({"op": "again", "c": ct.id, "via": "api", "h": {}})
    for x, y, bb in ((g, gr, b1), (g2, gr2, b2)) + (((g3, gr3, b3),) if g3 else ()):
        s.b = bb
        s.project(x, y)
    return s.done()


def edgeless(rng, n):
    nd = rng.sample(range(1, n + 1), n)
    z = [[0] * n for _ in range(n)]
    return {"nd": nd, "dir": rng.random() < 0.5, "a": z, "w": z, "sc": 1}


def map_replay(s, g, t, rng):
    """One transition of ContainerModel (with the history that leads to it) on a fresh real container."""
    M = 1000000
    m, K = t["init"]["m"], len(t["init"]["m"])
    nest = isinstance(m[0], list)
    kind = "nodemap"
    if nest:
        kind = "nnmap" if t["init"]["fill"] or rng.random() < 0.5 else "vnmap"
    col = (lambda x: x - 1) if kind == "vnmap" else (lambda x: x)
    val = (lambda x: [[col(v), y * M] for v, y in x]) if nest else (lambda x: x * M)
    s.n += 1
    init = ([[k + 1, col(v), y * M] for k in range(K) for v, y in m[k]] if nest else
            [[k + 1, m[k] * M] for k in range(K) if m[k]])
    s.ev.append({"op": "cont", "g": g, "via": "api", "h": {"dtype": rng.choice(["INT64", "FP64"]), "nc": 2},
                 "dom": list(range(1, K + 1)), "res": s.n, "kind": kind, "nest": nest, "t": "map", "rows": [],
                 "fill": [x * M for x in t["init"]["fill"]], "init": rng.sample(init, len(init))})
    for e in t["ev"]:
        e = dict(e, c=s.n, via="api", h={"f": rng.randint(0, 4)})
        if "x" in e:
            e["x"] = val(e["x"])
        if "d" in e:
            e["d"] = [[u, val(x)] for u, x in e["d"]] if e["op"] == "c_update" else [4242] * len(e["d"])
        s.ev.append(e)
    after = [{"op": "c_items", "h": {"how": rng.randint(0, 3)}}, {"op": "c_len", "h": {}}, {"op": "c_iter", "h": {}}]
    after += [{"op": "c_in", "h": {}, "u": u} for u in range(1, K + 1)]
    for e in rng.sample(after, len(after)) + [{"op": "c_items", "h": {"how": 0}}]:
        s.ev.append(dict(e, c=s.n, via="api"))


def set_replay(s, gs, t, rng):
    """One transition of SetModel: the sets it starts from, the operation, and what is left of them."""
    ids = []
    for x in t["init"]:
        if x["k"] != "c":
            ids.append(None)
            continue
        s.n += 1
        ids.append(s.n)
        s.ev.append({"op": "cont", "g": gs[x["g"] - 1], "via": "api", "kind": "nodeset", "nest": False, "t": "set",
                     "h": {"dtype": rng.choice(["BOOL", "INT64", "FP64"]), "val": rng.choice([1, 1, 0])}, "rows": [],
                     "fill": [], "dom": x["dom"], "res": s.n, "init": rng.sample(x["v"], len(x["v"]))})
    opd = lambda i: ({"k": "c", "c": ids[i - 1]} if ids[i - 1] else  # noqa: E731
                     {"k": rng.choice(["py", "fs"]), "v": t["init"][i - 1]["v"]})
    for e in t["ev"]:
        e = dict(e, c=ids[0], via="api", h={"ref": rng.randint(0, 1), "f": rng.randint(0, 4)})
        if "y" in e:
            e["x"] = opd(e.pop("y"))
        if "ys" in e:
            e["xs"] = [opd(i) for i in e.pop("ys")]
        s.ev.append(e)
    for i in ids:
        if i:
            after = [{"op": "s_len"}, {"op": "s_iter"}, {"op": "s_bool"}] + [{"op": "s_in", "u": u} for u in (1, 2, 3)]
            s.ev.extend(dict(x, c=i, via="api", h={}) for x in rng.sample(after, len(after)))


def emitted(module, *cfgs):
    """The transitions of a model, as TLC prints them."""
    import json

    import tlc

    out = []
    for c in cfgs:
        r = tlc.run_tlc(module, c + ".cfg", timeout=300)
        if not r["ok"]:
            raise RuntimeError("model %s: %s" % (c, r["out"][-2000:]))
        out += sorted({line for line in r["out"].splitlines() if line.startswith('"{')})
    return [json.loads(json.loads(x)) for x in out]


def covers(rng, sets, shard, nsh):
    """Sessions that together take every transition of the design model on the real containers."""
    T = emitted("SetModel", "Set_gen") if sets else emitted("ContainerModel", "Cont_flat_gen", "Cont_nest_gen")
    T = T[shard::nsh]
    rng.shuffle(T)
    by = {}
    for t in T:
        by.setdefault(0 if sets else len(t["init"]["m"]), []).append(t)
    for n, ts in sorted(by.items()):
        for i in range(0, len(ts), 16):
            gr = edgeless(rng, n or 3)
            s = Sess(rng, n or 3)
            g = s.graph(gr, b=route(rng, gr, s.lab, nx_ok=False))
            b1, gs = s.b, [g]
            if sets:
                gr2 = dict(gr, nd=[3, 1, 2] if gr["nd"] != [3, 1, 2] else [1, 3, 2])
                gs.append(s.graph(gr2, b=route(rng, gr2, s.lab, nx_ok=False)))
            for t in ts[i:i + 16]:
                if sets:
                    set_replay(s, gs, t, rng)
                else:
                    map_replay(s, g, t, rng)
            s.b = b1
            s.project(g, gr)
            yield s.done()


def plan(sets):
    def f(rng, tier, shard, nsh):
        yield from covers(rng, sets, shard, nsh)
        for i in range(900 if tier == "quick" else 12000):
            r = session(rng, sets, rng.random() < 0.4)
            if r:
                yield r
    return f


PLANS = {"C19": plan(False), "C20": plan(True)}
