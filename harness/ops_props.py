from vlib import *  # noqa: F403


@op("touch")
def _(c, e):
    G = c.obj(e["g"])
    G.get_properties(list(e["names"]))
    return {"k": "none"}


ALIAS = {
    "degrees": ("red", "count", "row"), "row_degrees": ("red", "count", "row"),
    "column_degrees": ("red", "count", "col"),
}


def describe(name):
    """What a property name means (documented naming scheme)."""
    fixed = {"A": ("mat", "A"), "AT": ("mat", "AT"), "offdiag": ("mat", "off"), "diag": ("diag", ""),
             "is_iso": ("iso", ""), "iso_value": ("isoval", ""), "has_negative_diagonal": ("negdiag", ""),
             "has_self_edges": ("loops", "")}
    d = {"n": name, "off": name.endswith("-"), "ax": "row", "pop": ""}
    if name in fixed:
        d["pk"], d["pop"] = fixed[name]
        return d
    if name.endswith("_diagonal"):
        d["pk"], d["pop"] = "dg", name.split("_")[0]
        return d
    base = name[:-1]
    if base in ("U", "L"):
        d["pk"], d["pop"] = "mat", base
    elif base in ALIAS:
        d["pk"], d["pop"], d["ax"] = ALIAS[base]
    elif base.endswith("_rowwise"):
        d["pk"], d["pop"], d["ax"] = "red", base.split("_")[0], "row"
    elif base.endswith("_columnwise"):
        d["pk"], d["pop"], d["ax"] = "red", base.split("_")[0], "col"
    elif base.endswith("_element"):
        d["pk"], d["pop"] = "el", base.split("_")[0]
    elif base == "has_negative_edges":
        d["pk"] = "neg"
    elif base == "recip_degrees":
        d["pk"] = "recip"
    elif base == "total_degrees":
        d["pk"] = "total"
    elif base == "total_recip":
        d["pk"] = "trecip"
    else:
        raise ValueError(name)
    return d


COUNTING = {"recip", "total", "trecip"}


def enc_prop(c, e, d, G, x):
    sc = 1 if d["pk"] in COUNTING or d["pop"] == "count" else c.sc[e["g"]]
    v = lambda y: ex(y, sc)
    i2k = G.id_to_key
    if d["pk"] == "mat":
        r, co, vals = x.to_coo()
        return {"k": "mm", "r": [], "v": [[c.D(i2k[i]), c.D(i2k[j]), v(y)]
                                          for i, j, y in zip(r.tolist(), co.tolist(), vals.tolist())]}
    if d["pk"] in ("diag", "red", "recip", "total"):
        if x.size != len(G):
            raise Bad("vector size")
        ii, vals = x.to_coo()
        return {"k": "map", "v": [[c.D(i2k[i]), v(y)] for i, y in zip(ii.tolist(), vals.tolist())]}
    if d["pk"] in ("iso", "negdiag", "neg", "loops"):
        return o_bool(c, x)
    if isinstance(x, gb.Scalar):
        x = x.value
    if x is None:
        return {"k": "none"}
    return {"k": "int", "v": v(x)}


@op("prop")
def _(c, e):
    G = c.obj(e["g"])
    mask = G.list_to_mask(c.Ls(e["m"][0])) if e["m"] else None
    h = e.get("h", {})
    if mask is not None and h.get("value"):
        mask = mask.parent.V
    if h.get("plural"):
        (x,) = G.get_properties(e["n"], mask=mask)
    elif mask is None:
        x = G.get_property(e["n"])
    else:
        x = G.get_property(e["n"], mask=mask)
    return enc_prop(c, e, e, G, x)


@op("props")
def _(c, e):
    G = c.obj(e["g"])
    names = [d["n"] for d in e["ps"]]
    h = e.get("h", {})
    mask = None
    r = G.get_properties({0: names, 1: " ".join(names), 2: ", ".join(names), 3: tuple(names)}[h.get("form", 0)], mask=mask)
    if len(r) != len(names):
        raise Bad("get_properties returned %d values" % len(r))
    return {"k": "seq", "v": [enc_prop(c, e, d, G, x) for d, x in zip(e["ps"], r)]}
