import gen
from pcommon import Sess, pick, preferring, some, subset, CHUNKS
from plans_reach import dim, long_graph

WK = ["one", "iso", "isoneg", "isozero", "pos", "pos", "zero", "neg1", "neg1", "mixed", "negall", "bigpos",
      "potential", "potential", "potential"]
NONNEG = ["one", "iso", "isozero", "pos", "zero", "bigpos"]


def scale(rng, gr):
    """Sometimes make the real weights fractional (w / sc)."""
    if rng.random() < 0.2:
        gr["sc"] = rng.choice([2, 4])
    return gr


def nonneg(gr):
    return all(x >= 0 for r in gr["w"] for x in r)


def attr(s):
    """nx inputs and custom attribute names: the weight keyword to pass."""
    if s.b["route"] == "nx":
        return s.b.get("attr", "weight")
    return ""


def add_bf(s, g, gr, rng, op=None):
    nd, N = gr["nd"], dim(gr)
    op = op or rng.choice(["ss_bf", "ss_bf", "ap_bf", "ap_bf", "bf_len", "bf_len", "negcycle"])
    isga = s.b["route"] not in ("nx", "raw")
    via = rng.choice(["api", "api", "nx"])
    kw = {"attr": attr(s)} if s.b["route"] == "nx" else {}
    if op == "ss_bf":
        u = pick(rng, nd, N)
        if isga and u in nd and rng.random() < 0.4:
            ct = []
            h = {}
            if nonneg(gr) and rng.random() < 0.8:
                ct = [rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 20, 40])]
                h = {"f": int(rng.random() < 0.5)}
            s.add(op, g, u=u, cut=ct, h=h, via="core")
        else:
            s.add(op, g, u=u, cut=[], via=via, **kw)
    elif op == "ap_bf":
        if isga and rng.random() < 0.4:
            h = {"expand": int(rng.random() < 0.4)}
            if rng.random() < 0.3:
                s.add(op, g, all=True, S=[], h=h, via="core")
            else:
                s.add(op, g, all=False, S=subset(rng, nd, 1 if nd else 0), h=h, via="core")
        else:
            h = {}
            if rng.random() < 0.75:
                h["chunk"] = rng.choice(CHUNKS)
            s.add(op, g, all=True, S=[], h=h, via=via, **kw)
    elif op in ("bf_len", "bf_path"):
        u, v = pick(rng, nd, N), pick(rng, nd, N)
        if isga and u in nd and v in nd and rng.random() < 0.2:
            via, kw = "core", {}
        s.add(op, g, u=u, v=v, via=via, **kw)
    elif op == "negcycle":
        if isga and rng.random() < 0.2:
            via, kw = "core", {}
        s.add(op, g, via=via, **kw)


def noise(s, g, rng):
    """A property read that populates the cache (public get_property)."""
    if s.b["route"] in ("nx", "raw") or rng.random() < 0.6:
        return
    from plans_props import noise_props
    for p in noise_props(rng, s.last["dir"], s.b["dtype"]):
        s.add("touch", g, names=p)


def all_pairs(s, g, gr, ops):
    for u in gr["nd"]:
        for v in gr["nd"]:
            for o in ops:
                s.add(o, g, u=u, v=v)


def c06(rng, tier, shard, nsh):
    big = tier == "thorough"
    for gr in small_weighted(rng, tier, shard, nsh, 900):
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["wd"], nx_ok=False, unit=0.1)
        noise(s, g, rng)
        s.add("negcycle", g)
        for u in gr["nd"]:
            s.add("ss_bf", g, u=u, cut=[])
        s.add("ap_bf", g, all=True, S=[], h={"chunk": rng.choice([None, 1, 2])})
        all_pairs(s, g, gr, ["bf_len"])
        s.project(g)
        yield s.done()
    for i in range(380 if not big else 8000):
        gr = scale(rng, gen.rand_graph(rng, rng.choice([4, 6, 8, 10]), wkinds=WK))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["wd"], raw_ok=gr["dir"], unit=0.15)
        noise(s, g, rng)
        for _ in range(12):
            add_bf(s, g, gr, rng)
        s.project(g)
        yield s.done()
    for i in range(14 if not big else 250):
        gr = long_graph(rng, WK, 10, 22)
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["wd"])
        for _ in range(8):
            add_bf(s, g, gr, rng)
        s.project(g)
        yield s.done()
    yield from huge_sessions(rng, 25 if not big else 400, 6, None)
    for n, kind, d in gen.big_set(shard) * (1 if not big else 12):
        yield big_bf(rng, n, kind, d, ["ss_bf", "ss_bf", "bf_len", "some"])


def small_weighted(rng, tier, shard, nsh, k):
    """Small graphs with adversarial weights: the interesting negative-cycle cases."""
    small = gen.all_small(3, 3)
    small = [x for x in small if x[0] > 0 or x[2] == []]
    for i, (n, d, E) in enumerate(small):
        if i % nsh != shard:
            continue
        for _ in range(1 if tier == "quick" else 6):
            yield gen.relabel(rng, n, d, E, rng.choice(WK))
    m = (k // nsh) if tier == "quick" else k
    for i in range(m):
        n = 4
        d = rng.random() < 0.8
        code = rng.randrange(gen.n_codes(n, d, True))
        yield gen.relabel(rng, n, d, gen.from_code(n, d, True, code), rng.choice(["mixed", "neg1", "potential", "zero"]))


def c07(rng, tier, shard, nsh):
    big = tier == "thorough"
    for gr in small_weighted(rng, tier, shard, nsh, 1600):
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["wd"], nx_ok=False, unit=0.1)
        noise(s, g, rng)
        all_pairs(s, g, gr, ["bf_path"])
        s.project(g)
        yield s.done()
    for i in range(450 if not big else 10000):
        gr = scale(rng, gen.rand_graph(rng, rng.choice([4, 6, 8, 10]), wkinds=WK))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["wd"], raw_ok=gr["dir"], unit=0.15)
        noise(s, g, rng)
        for _ in range(12):
            add_bf(s, g, gr, rng, "bf_path" if rng.random() < 0.9 else None)
        s.project(g)
        yield s.done()
    for i in range(14 if not big else 250):
        gr = long_graph(rng, WK, 10, 22)
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["wd"])
        for _ in range(8):
            add_bf(s, g, gr, rng, "bf_path")
        s.project(g)
        yield s.done()
    yield from huge_sessions(rng, 25 if not big else 400, 6, "bf_path")
    for n, kind, d in gen.big_set(shard) * (1 if not big else 12):
        yield big_bf(rng, n, kind, d, ["bf_path", "bf_path", "bf_len"])




def huge_sessions(rng, count, k, op):
    """Weights that need more than 16 or 24 bits."""
    for _ in range(count):
        gr = gen.rand_graph(rng, rng.choice([4, 6, 8]), wkinds=["huge", "hugepot"])
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["wd"], raw_ok=gr["dir"], dtypes=["INT64", "FP64"])
        for _ in range(k):
            add_bf(s, g, gr, rng, op)
        s.project(g)
        yield s.done()


def big_bf(rng, n, kind, d, ops):
    gr = scale(rng, gen.big_graph(rng, n, wkinds=("one", "pos", "zero", "bigpos"), kind=kind, dir=d))
    s = Sess(rng, dim(gr))
    g = s.graph(gr, ["lazy"], raw_ok=gr["dir"])
    with preferring(gen.far(gr)):
        for _ in range(6):
            op = rng.choice(ops)
            if op == "some":
                if s.b["route"] not in ("nx", "raw"):
                    s.add("ap_bf", g, all=False, S=some(rng, gr["nd"]), h={}, via="core")
                continue
            add_bf(s, g, gr, rng, op)
    s.project(g)
    return s.done()


def add_fw(s, g, gr, rng, op=None, unw=None):
    nd, N = gr["nd"], dim(gr)
    op = op or rng.choice(["fw", "fw_np", "fw_np", "fw_pred", "fw_pred"])
    via = rng.choice(["api", "api", "nx"])
    unw = (rng.random() < 0.25) if unw is None else unw
    kw = {"attr": attr(s)} if s.b["route"] == "nx" and not unw else {}
    if op == "fw":
        if s.b["route"] not in ("nx", "raw") and rng.random() < 0.25:
            via, kw = "core", {}
        s.add(op, g, unw=unw, via=via, **kw)
    elif op == "fw_pred":
        s.add(op, g, unw=unw, via=via, **kw)
    else:
        nl = list(nd)
        r = rng.random()
        h = {}
        if r < 0.2:
            h = {"nolist": 1}
        else:
            rng.shuffle(nl)
            if r < 0.3 and len(nl) > 1:
                nl = nl[:-1] if rng.random() < 0.5 else nl[:-1] + [nl[0]]
            h = {"tuple": int(rng.random() < 0.2)}
        s.add(op, g, nl=nl, unw=unw, h=h, via=via, **kw)


FWK = ["one", "iso", "isozero", "pos", "pos", "zero", "bigpos", "potential", "potential", "mixed"]


def huge_fw(rng):
    d = rng.random() < 0.6
    return dict(gen.rand_graph(rng, 8, dir=d, wkinds=["huge", "hugepot"] if d else ["huge"]), huge=1)


def c08(rng, tier, shard, nsh):
    big = tier == "thorough"
    small = gen.all_small(3, 4)
    for i, (n, d, E) in enumerate(small):
        if i % nsh != shard:
            continue
        gr = gen.relabel(rng, n, d, E, rng.choice(FWK if d else NONNEG))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["wd", "hop"], nx_ok=False, unit=0.1)
        for o in ("fw", "fw_np", "fw_pred"):
            add_fw(s, g, gr, rng, o, False)
        add_fw(s, g, gr, rng, None, True)
        s.project(g)
        yield s.done()
    for i in range(520 if not big else 8000):
        d = rng.random() < 0.5
        gr = scale(rng, gen.rand_graph(rng, rng.choice([4, 6, 8, 9]), dir=d, wkinds=FWK if d else NONNEG))
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["wd", "hop"], raw_ok=gr["dir"], unit=0.15)
        noise(s, g, rng)
        for _ in range(6):
            add_fw(s, g, gr, rng)
        s.project(g)
        yield s.done()
    for i in range(10 if not big else 150):
        gr = long_graph(rng, NONNEG, 10, 16) if rng.random() < 0.6 else huge_fw(rng)
        s = Sess(rng, dim(gr))
        g = s.graph(gr, ["wd", "hop"], **({"dtypes": ["INT64", "FP64"]} if "huge" in gr else {}))
        for _ in range(4):
            add_fw(s, g, gr, rng)
        s.project(g)
        yield s.done()


PLANS = {"C06": c06, "C07": c07, "C08": c08}
