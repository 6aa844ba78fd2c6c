"""Requests that make no sense."""
from inv_tables import N1, N2, PART  # noqa: F401
from vlib import *  # noqa: F403

def drain(r):
    if hasattr(r, "__next__"):
        return list(r)
    return r


@op("inv")
def _(c, e):
    G = c.obj(e["g"])
    fn = e["fn"]
    a, kw = [], {}
    if e["h2"]:
        a.append(c.obj(e["h2"]))
    a += [c.L(i) for i in e["ns"]]
    if fn in PART:
        a.append([set(c.Ls(S)) for S in e["ss"]])
    else:
        a += [c.Ls(S) for S in e["ss"]]
    if e["nl"]:
        kw["nodelist"] = c.Ls(e["nl"][0])
    if fn in ("k_truss", "is_k_regular"):
        a.append(2)
    if fn == "descendants_at_distance":
        a.append(1)
    if e["bad"]:
        kw["max_iter"] = e["h"]["mi"]
    drain(call(c, fn, G, *a, **kw))
    return {"k": "answered"}
