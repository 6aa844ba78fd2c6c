from vlib import *  # noqa: F403


def arg(c, ids, kind):
    x = c.Ls(ids)
    return {"list": list, "set": set, "fs": frozenset, "tup": tuple,
            "dict": dict.fromkeys, "iter": lambda x: (y for y in x)}[kind](x)


def ST(c, e):
    h = e["h"]
    a = [arg(c, e["S"], h["ks"])]
    if e["hasT"]:
        a.append(arg(c, e["T"], h["kt"]))
    elif h.get("explicit"):
        a.append(None)
    return a


def wk(c, e):
    return {"weight": e["h"].get("attr", "weight")} if e["wt"] else {}


def units(c, e, x):
    """A result that is a number of weight units."""
    sc = c.sc[e["g"]]
    if not e["wt"] or not isinstance(sc, Fraction):
        return o_num(c, x)
    if e["op"].endswith("expansion"):
        return o_num(c, float(num(x)) * float(sc))
    x = ex(x, sc)
    return {"k": "num", "v": x * MIL if abs(x) < 2147 else x}


@op("edge_boundary", "edge_boundary_m")
def _(c, e):
    G = c.obj(e["g"])
    sc = c.sc[e["g"]]
    kw = {}
    name = e["h"].get("attr", "weight")
    if e["data"] == "true":
        kw["data"] = True
    elif e["data"] == "attr":
        kw["data"] = name
        kw["default"] = 1
    out = []
    for t in call(c, "edge_boundary", G, *ST(c, e), **kw):
        u, v = c.D(t[0]), c.D(t[1])
        if len(t) != (2 if e["data"] == "none" else 3):
            raise Bad("edge tuple of length %d" % len(t))
        if e["data"] == "none":
            out.append([u, v])
        elif e["data"] == "true":
            if c.via == "native" and t[2] == {}:  # an edge without the attribute weighs 1
                out.append([u, v, sc])
                continue
            if not isinstance(t[2], dict) or len(t[2]) != 1:
                raise Bad("edge data is %s" % type(t[2]).__name__)
            out.append([u, v, ex(next(iter(t[2].values())), sc)])
        else:
            out.append([u, v, ex(t[2], sc)])
    return {"k": "edges", "v": out}


@op("node_boundary")
def _(c, e):
    return o_set(c, call(c, "node_boundary", c.obj(e["g"]), *ST(c, e)))


@op("cut_size", "normalized_cut_size", "conductance", "edge_expansion", "mixing_expansion")
def _(c, e):
    x = call(c, e["op"], c.obj(e["g"]), *ST(c, e), **wk(c, e))
    return units(c, e, x) if e["op"] in ("cut_size", "edge_expansion", "mixing_expansion") else o_num(c, x)


@op("volume", "node_expansion", "boundary_expansion")
def _(c, e):
    x = call(c, e["op"], c.obj(e["g"]), ST(c, e)[0], **wk(c, e))
    return units(c, e, x) if e["op"] == "volume" else o_num(c, x)


@op("is_dominating_set")
def _(c, e):
    return o_bool(c, call(c, e["op"], c.obj(e["g"]), ST(c, e)[0]))
