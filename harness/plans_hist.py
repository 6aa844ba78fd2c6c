"""Histories (C02): many calls on the same objects, compared with freshly built ones."""
import copy

import gen
import plans_all
import plans_props
from pcommon import Sess, route
from plans_agree import TOL, agree
from plans_reach import dim
from plans_sub import derived

# answers that are not unique, or events that are not requests
LOOSE = {"graph", "skip", "project", "touch", "agree", "hold", "prop", "props", "chunk_bad"}
WK = ["one", "one", "iso", "pos", "pos", "zero", "mixed", "isozero", "bigpos"]


def requests(s, g, gr, rng):
    """The events one random call would add, taken out of the session again; new operands stay."""
    n0, m0 = len(s.ev), s.n
    plans_all.add_any(s, g, gr, rng)
    new, s.ev[n0:] = s.ev[n0:], []
    s.n = m0
    out, ids = [], {i: i for i in range(m0 + 1)}
    for e in new:
        if e["op"] == "graph":
            s.n += 1
            ids[e["res"]] = e["res"] = s.n
            s.ev.append(e)
        elif e["op"] != "skip" and ("res" in e or e["op"] not in LOOSE) and e["g"] in ids and e.get("g2", 0) in ids:
            e["g"] = ids[e["g"]]
            if "g2" in e:
                e["g2"] = ids[e["g2"]]
            out.append(e)
    return out


def compare(s, ev, modes, gs, **kw):
    a = agree(copy.deepcopy(ev), modes, gr={str(i): x for i, (x, b) in gs.items()},
              bs={str(i): b for i, (x, b) in gs.items()}, **kw)
    a["skipexc"] = a["narrow"] = False
    s.ev.append(a)


def session(rng, size, steps):
    gr = gen.rand_graph(rng, size, wkinds=WK)
    s = Sess(rng, dim(gr))
    b = route(rng, gr, s.lab, nx_ok=False)
    g = s.graph(gr, ["hop", "wd"], b=b)
    gs = {g: (gr, b)}
    # mostly the same few requests again and again: that is where remembered answers matter
    hot, held, nslot = [], [], 0
    for _ in range(steps):
        r = rng.random()
        if r < 0.12:
            plans_props.history(s, g, gr, rng, 2, plans_props.names(gr["dir"]), algs=False)
        elif r < 0.2:
            s.project(g)
        elif r < 0.3 and held:
            ev, slot = held.pop(rng.randrange(len(held)))
            compare(s, ev, ["fresh", "held"], gs, slot=slot)
        else:
            if hot and rng.random() < 0.45:
                evs = [copy.deepcopy(rng.choice(hot))]
            else:
                evs = requests(s, g, gr, rng)
            for ev in evs:
                if "res" in ev:  # graph results: create the object, then compare
                    s.n += 1
                    ev["res"] = s.n
                    s.ev.append(ev)
                    if rng.random() < 0.5:
                        compare(s, ev, ["fresh", "used"], gs)
                    if rng.random() < 0.3:
                        derived(s, s.n, rng, gr["dir"] and ev["op"] != "to_undirected")
                    continue
                if len(hot) < 6 and rng.random() < 0.5:
                    hot.append(ev)
                q = rng.random()
                if q < 0.2 and ev.get("via") != "core":
                    nslot += 1
                    s.ev.append({"op": "hold", "g": ev["g"], "h": {"in": copy.deepcopy(ev), "slot": nslot}})
                    held.append((ev, nslot))
                elif q < 0.75:
                    compare(s, ev, ["fresh", "used"] + rng.choice([[], ["used"]]), gs)
                else:
                    s.ev.append(ev)
        # operands made on the way
        for e in s.ev:
            if e["op"] == "graph":
                gs.setdefault(e["res"], (e["gr"], e["b"]))
    for ev, slot in held:
        compare(s, ev, ["fresh", "held"], gs, slot=slot)
    for i, (x, bb) in gs.items():
        s.b = bb
        s.project(i, x)
    return s.done()


def c02(rng, tier, shard, nsh):
    big = tier == "thorough"
    for i in range(220 if not big else 6000):
        yield session(rng, rng.choice([3, 5, 7]), rng.choice([10, 18, 30]))


PLANS = {"C02": c02}
