"""One request made in several ways."""
from vlib import *  # noqa: F403
import vlib


def to_lib(c, G, attr):
    if isnx(G):
        return Dispatcher.convert_from_nx(G, edge_attrs={attr: 1})
    return G


def copied(c, G):
    """The same graph in a new object that has answered nothing yet."""
    if isnx(G):
        return G.copy()
    return type(G)(G.matrix.dup(), key_to_id=dict(G._key_to_id) if c.kord else {k: i for i, k in enumerate(G)})


@op("hold")
def _(c, e):
    """Ask, and leave the result unread until an `agree` event reads it."""
    inner = dict(e["h"]["in"])
    if "res" in inner:
        inner["res"] = -1
    c.via = inner.get("via", "api")
    c.hold = True
    try:
        OPS[inner["op"]](c, inner)
    except vlib.Held as exc:
        c.held[e["h"]["slot"]] = exc.args[0]
    except (Skip, vlib.OpTimeout):
        raise
    except Exception as exc:
        c.held[e["h"]["slot"]] = exc
    c.hold = False
    return {"k": "none"}


@op("agree")
def _(c, e):
    h = e["h"]
    inner = dict(h["in"])
    ids = [inner["g"]] + ([inner["g2"]] if inner.get("g2") else [])
    own = {i: c.obj(i) for i in ids}
    keep = (dict(c.objs), dict(c.sc))
    rs = []
    for mode in e["modes"]:
        objs = dict(own)
        if mode.startswith("conv"):
            objs = {i: to_lib(c, G, h.get("attr", "weight")) for i, G in own.items()}
        if mode == "fresh":
            objs = {i: build(c, h["gr"][str(i)], h["bs"][str(i)]) if str(i) in h["gr"] else copied(c, G)
                    for i, G in own.items()}
        c.objs.update(objs)
        c.via = {"native": "native", "nx": "nx", "kw": "kw", "api": "api", "conv": "nx", "convkw": "kw", "convapi": "api",
                 }.get(mode, inner.get("via", "api"))
        if mode == "held":
            if h["slot"] not in c.held:
                raise Skip
            x = c.held[h["slot"]]
            if isinstance(x, Exception):
                rs.append(exc_out(x))
                continue
            c.give = (x,)
        inner2 = dict(inner)
        if "res" in inner:
            inner2["res"] = -1
            c.sc[-1] = 1
        try:
            o = OPS[inner["op"]](c, inner2)
        except vlib.OpTimeout:
            raise
        except Bad as exc:
            o = {"k": "bad", "s": "%s: %s" % (mode, exc)}
        except Exception as exc:
            o = exc_out(exc)
        c.give = None
        c.objs.update(own)
        rs.append(o)
    c.objs.clear()
    c.objs.update(keep[0])
    c.sc.clear()
    c.sc.update(keep[1])
    return {"k": "agree", "rs": rs}


@op("registry")
def _(c, e):
    import networkx as nx
    from networkx.utils import backends

    what = e["what"]
    bad = []
    import importlib.metadata as md

    info = {}
    for ep in md.entry_points(group="networkx.backend_info"):
        if ep.name == "graphblas":
            info = ep.load()()
    fns = info.get("functions", {})
    impl = [k for k in dir(Dispatcher) if not k.startswith("_") and
            k not in ("convert_from_nx", "convert_to_nx", "on_start_tests")]
    reg = disp()
    if what == "advertised":  # every advertised function is there, and NetworkX knows it
        if not fns:
            bad.append("nothing advertised")
        for k in fns:
            if not callable(getattr(Dispatcher, k, None)):
                bad.append("not implemented: " + k)
            if k not in reg:
                bad.append("unknown to NetworkX: " + k)
    elif what == "implemented":  # everything implemented under a dispatched name is advertised
        bad = ["not advertised: " + k for k in impl if k in reg and k not in fns]
    else:  # NetworkX finds the backend
        if "graphblas" not in backends.backends:
            bad.append("backend not found")
        elif backends.backends["graphblas"].load() is not Dispatcher:
            bad.append("another dispatcher")
    return {"k": "names", "v": bad}
