from vlib import *  # noqa: F403
from ops_matrices import dense


def opt(c, e, h, *names):
    kw = {}
    for name, f in names:
        if e[f]:
            items = [(c.L(k), x / h.get("den", 1)) for k, x in e[f][0]]
            kw[name] = dict(items)
    return kw


def wkw(c, e, G, default):
    """weight keyword; `default` is what the function uses when it is not given."""
    h = e["h"]
    if isnx(G):
        want = h.get("attr", "weight") if e["wt"] else None
    else:
        want = "weight"
    if want == default and not h.get("explicit"):
        return {}
    return {"weight": want}


def common(e, kw, tol0, mi0):
    h = e["h"]
    t = h.get("rtol", e["tol"] * 1e-6)
    if t != tol0 or h.get("explicit"):
        kw["tol"] = t
    if e["mi"] != mi0:
        kw["max_iter"] = e["mi"]
    return kw


@op("pagerank")
def _(c, e):
    G = c.obj(e["g"])
    h = e["h"]
    kw = opt(c, e, h, ("personalization", "pers"), ("nstart", "nst"), ("dangling", "dang"))
    kw.update(wkw(c, e, G, "weight"))
    common(e, kw, 1e-6, 100)
    if e["al"] != [17, 20]:
        kw["alpha"] = e["al"][0] / e["al"][1]
    return o_map(c, call(c, "pagerank", G, **kw), fix)


@op("google_matrix")
def _(c, e):
    G = c.obj(e["g"])
    h = e["h"]
    kw = opt(c, e, h, ("personalization", "pers"), ("dangling", "dang"))
    kw.update(wkw(c, e, G, "weight"))
    if e["nl"]:
        nl = c.Ls(e["nl"][0])
        kw["nodelist"] = tuple(nl) if h.get("tup") else nl
    if e["al"] != [17, 20]:
        kw["alpha"] = e["al"][0] / e["al"][1]
    return o_mat(c, dense(call(c, "google_matrix", G, **kw)), fix)


@op("hits")
def _(c, e):
    G = c.obj(e["g"])
    h = e["h"]
    kw = opt(c, e, h, ("nstart", "nst"))
    common(e, kw, 1e-8, 100)
    if not e["norm"]:
        kw["normalized"] = False
    r = call(c, "hits", G, **kw)
    if not isinstance(r, tuple) or len(r) != 2:
        raise Bad("hits does not return a pair")
    return {"k": "hits", "h": o_map(c, r[0], fix), "a": o_map(c, r[1], fix)}


@op("katz")
def _(c, e):
    G = c.obj(e["g"])
    h = e["h"]
    kw = opt(c, e, h, ("nstart", "nst"))
    kw.update(wkw(c, e, G, None))
    common(e, kw, 1e-6, 1000)
    if e["al"] != [1, 10]:
        kw["alpha"] = e["al"][0] / e["al"][1]
    if e["beta"]["k"] == "d":
        kw["beta"] = {c.L(k): x for k, x in e["beta"]["v"]}
    elif e["beta"]["v"] != 1:
        kw["beta"] = e["beta"]["v"]
    if not e["norm"]:
        kw["normalized"] = False
    return o_map(c, call(c, "katz_centrality", G, **kw), lambda x: fix(x, 100000))


@op("eigenvector")
def _(c, e):
    G = c.obj(e["g"])
    h = e["h"]
    kw = opt(c, e, h, ("nstart", "nst"))
    kw.update(wkw(c, e, G, None))
    common(e, kw, 1e-6, 100)
    return o_map(c, call(c, "eigenvector_centrality", G, **kw), lambda x: fix(x, 10000))
