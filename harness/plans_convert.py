import gen
from pcommon import UNITS, Sess, route
from plans_reach import dim

DT = ["INT64", "INT32", "FP64", "FP32", "INT16", "INT8", "UINT8", "UINT64", "BOOL"]


def source(rng, gr, multi):
    """The abstract graph as a list of edges, inserted in some order and orientation."""
    nd = gr["nd"]
    E = []
    sc = gr.get("sc", 1)
    skip = rng.random() < 0.5
    for u in nd:
        for v in nd:
            if gr["a"][u - 1][v - 1] and (gr["dir"] or u <= v):
                a, b = (v, u) if not gr["dir"] and rng.random() < 0.5 else (u, v)
                has = not (skip and rng.random() < 0.4)
                E.append([a, b, int(has), gr["w"][u - 1][v - 1] if has else 0])
                if multi:
                    for _ in range(rng.choice([0, 0, 1, 2])):
                        if not gr["dir"] and rng.random() < 0.5:
                            a, b = b, a
                        has = rng.random() < 0.7
                        E.append([a, b, int(has), rng.randint(-2, 4) * sc if has else 0])
    rng.shuffle(E)
    return {"nd": nd, "dir": gr["dir"], "multi": multi, "E": E}


def nx_in(s, gr, rng):
    multi = rng.random() < 0.15
    sc = gr.get("sc", 1)
    src = source(rng, gr, multi)
    ws = [w for _, _, has, w in src["E"] if has] + [sc]
    attr = rng.choice(["weight", "weight", "cost", "a b", "w"])
    h = {"attr": attr, "ask": attr, "fl": sc != 1 or rng.random() < 0.4}
    h["how"] = rng.choice(["cls", "cls", "cls", "edge_attrs", "edge_attrs", "weight", "preserve", "two", "both", "nattrs"])
    refuse = False
    use = True
    dt = ""
    if not h["fl"] and not multi and all(w in (0, 1) for w in ws) and rng.random() < 0.5:
        h["bools"] = True
    if h["how"] in ("two", "both", "nattrs") and rng.random() < 0.7:
        h["how"] = "cls"
    if h["how"] == "cls" and rng.random() < 0.6:
        ok = []
        for d in DT:
            if d == "BOOL":
                if not multi:
                    ok.append(d)
            elif not d.startswith("FP") and sc != 1:
                continue
            elif d.startswith("U") and (any(w < 0 for w in ws) or multi):
                continue
            elif d in ("INT8", "UINT8") and multi:
                continue
            else:
                ok.append(d)
        dt = rng.choice(ok)
        h["npdt"] = rng.random() < 0.5
    r = rng.random()
    if h["how"] in ("cls", "edge_attrs", "weight"):
        if r < 0.2:
            h["ask"], use = None, False
        elif r < 0.35:
            h["ask"], use = "absent", False
        h["noise"] = rng.random() < 0.3
    if h["how"] == "edge_attrs":
        h["dflt"] = rng.choice([1, 1, None, 0, 2] if rng.random() < 0.3 else [1, None])
        if h["dflt"] in (0, 2) and h["ask"] is not None:
            refuse = True
    if h["how"] in ("two", "both", "nattrs"):
        refuse = True
    if h["how"] == "preserve":
        h["noise"] = rng.random() < 0.15
        if h["noise"] and src["E"]:
            if any(x[2] for x in src["E"]):
                refuse = True
            else:
                h["noise"] = False
        use = any(x[2] for x in src["E"])
    if h["how"] != "cls":
        h["keepg"] = rng.random() < 0.4
        h["gattr"] = rng.random() < 0.5
        h["nattr"] = rng.random() < 0.2
        if rng.random() < 0.15 and h["how"] != "both":
            h["keepn"] = True
            if h["nattr"] and src["nd"]:
                refuse = True
    if (rng.random() < 0.35 and sc == 1 and use and not refuse and h["how"] in ("cls", "edge_attrs", "weight")
            and dt in ("", "INT64", "FP64", "UINT64") and not h.get("bools") and all(x[2] for x in src["E"])):
        h["unit"] = rng.choice(UNITS)
    s.n += 1
    s.ev.append({"op": "nx_in", "g": 0, "via": "api", "src": src, "sc": sc, "N": s.N, "use": use, "bool": dt == "BOOL",
                 "dt": dt, "h": h, "refuse": refuse, "both": h["how"] == "both", "need": [], "res": s.n})
    return None if refuse else s.n


def nx_out(s, g, gr, rng):
    h = {"how": rng.choice(["attr", "attr", "default", "disp"]), "mutate": rng.random() < 0.4}
    a = rng.choice(["weight", "cost", "", "x y"]) if h["how"] == "attr" else "weight"
    s.ev.append({"op": "nx_out", "g": g, "via": "api", "h": h, "attr": a, "nd": gr["nd"]})


WK = ["one", "iso", "pos", "zero", "neg1", "mixed", "isoneg", "isozero", "bits", "bits"]


def wt(rng, gr):
    if rng.random() < 0.15 and all(0 <= x <= 1 for r in gr["w"] for x in r) is False:
        gr["sc"] = rng.choice([2, 4])
    return gr


def c03(rng, tier, shard, nsh):
    big = tier == "thorough"
    from plans_props import noise_props
    for i, (n, d, E) in enumerate(gen.all_small(3, 3)):
        if i % nsh != shard:
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(WK), extra=rng.choice([0, 1]))
        s = Sess(rng, dim(gr))
        for _ in range(2):
            r = nx_in(s, gr, rng)
            if r:
                nx_out(s, r, gr, rng)
        g = s.graph(gr, b=route(rng, gr, s.lab, nx_ok=False))
        nx_out(s, g, gr, rng)
        s.project(g, gr)
        yield s.done()
    for i in range(600 if not big else 9000):
        gr = wt(rng, gen.rand_graph(rng, rng.choice([3, 5, 8, 12]), wkinds=WK))
        s = Sess(rng, dim(gr))
        for _ in range(4):
            r = nx_in(s, gr, rng)
            if r:
                nx_out(s, r, gr, rng)
        g = s.graph(gr, b=route(rng, gr, s.lab, nx_ok=False), unit=0.2)
        for _ in range(3):
            if rng.random() < 0.5:
                for p in noise_props(rng, gr["dir"], s.b["dtype"]):
                    s.add("touch", g, names=p)
            nx_out(s, g, gr, rng)
        s.project(g, gr)
        yield s.done()


PLANS = {"C03": c03}
