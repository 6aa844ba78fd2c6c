"""Translation between labels and positions."""
from vlib import *  # noqa: F403


def receiver(c, e):
    """Every class of the library offers the translation helpers."""
    G = c.obj(e["g"])
    r = e["h"].get("recv", "G")
    n = len(G)
    if r == "nm":
        return G, G.vector_to_nodemap(gb.Vector(int, n))
    if r == "ns":
        return G, G.vector_to_nodeset(gb.Vector(bool, n))
    if r == "nn":
        return G, G.matrix_to_nodenodemap(gb.Matrix(int, n, n))
    if r == "vn":
        return G, G.matrix_to_vectornodemap(gb.Matrix(int, n, n))
    return G, G


def o_vec(v):
    i, x = v.to_coo()
    return {"k": "vec", "size": v.size, "v": [[a, fix(b)] for a, b in zip(i.tolist(), x.tolist())]}


def vec(n, L, dt):
    v = gb.Vector.from_coo([p for p, _ in L], [x / MIL for _, x in L], size=n, dtype=dt)
    return v


@op("lb")
def _(c, e):
    G, R = receiver(c, e)
    f = e["f"]
    h = e["h"]
    n = len(G)
    coll = {"list": list, "tuple": tuple, "set": set, "fs": frozenset, "iter": iter, "keys": dict.fromkeys}.get(
        h.get("coll", "list"))
    kw = {}
    if e.get("size", -1) >= 0:
        kw["size"] = e["size"]
    elif R is not G:
        kw["size"] = n
    dt = h.get("dtype")
    if f == "ids":
        x = R.list_to_ids(coll(c.Ls(e["S"])))
        return {"k": "ilist", "v": [int(i) for i in x]}
    if f == "keys":
        ids = np.array(e["I"], dtype=np.uint64) if h.get("np") else list(e["I"])
        return o_list(c, R.list_to_keys(ids))
    if f == "none":
        r = [R.list_to_ids(None), R.list_to_keys(None), R.dict_to_vector(None), R.list_to_vector(None),
             R.list_to_mask(None), R.set_to_vector(None)]
        return {"k": "nones" if all(x is None for x in r) else "some"}
    if f == "d2v":
        d = {c.L(u): (x / MIL if dt == "FP64" else x // MIL) for u, x in e["D"]}
        return o_vec(R.dict_to_vector(d, dtype=dt and gb.dtypes.lookup_dtype(dt), **kw))
    if f == "l2v":
        v = R.list_to_vector(coll(c.Ls(e["S"])), dtype=dt and gb.dtypes.lookup_dtype(dt), values=e["x"] // MIL, **kw)
        return o_vec(v)
    if f == "mask":
        m = R.list_to_mask(coll(c.Ls(e["S"])), **kw)
        if not (m.structure and not m.complement):
            raise Bad("not a structural mask")
        v = gb.Vector(int, m.parent.size)
        v(m) << 1
        return o_vec(v)
    if f == "s2v":
        return o_vec(R.set_to_vector(coll(c.Ls(e["S"])), ignore_extra=e["ign"], **kw))
    if f in ("v2d", "v2nm"):
        v = vec(n, e["v"], dt)
        mask = None
        if e["mask"]:
            mask = gb.Vector.from_coo(e["mask"][0], True, size=n, dtype=bool).S
        kw = {"mask": mask}
        if e["fill"]:
            kw["fill_value"] = e["fill"][0] // MIL
        d = R.vector_to_dict(v, **kw) if f == "v2d" else R.vector_to_nodemap(v, **kw)
        return {"k": "items", "v": [[c.D(k), fix(x)] for k, x in d.items()]}
    if f == "v2l":
        if e["vk"]:
            v = gb.Vector.from_coo([p for p, _ in e["v"]], [x for _, x in e["v"]], size=n, dtype="INT64")
        else:
            v = vec(n, e["v"], dt)
        return o_list(c, R.vector_to_list(v, values_are_keys=e["vk"]))
    if f == "v2s":
        return o_set(c, R.vector_to_set(vec(n, e["v"], dt)))
    if f == "v2ns":
        return o_set(c, R.vector_to_nodeset(vec(n, e["v"], dt)))
    if f == "m2d":
        M = e["M"]
        xs = [x if e["vk"] else x / MIL for _, _, x in M]
        if h.get("iso") and len(set(xs)) == 1:
            xs = xs[0]
        t = h.get("t")
        A = gb.Matrix.from_coo([x[1 if t else 0] for x in M], [x[0 if t else 1] for x in M], xs, nrows=n, ncols=n,
                               dtype="INT64" if e["vk"] else dt)
        d = R.matrix_to_dicts(A.T if t else A, use_row_index=e["ri"], use_column_index=e["ci"], values_are_keys=e["vk"])
        return {"k": "items", "v": [[i if e["ri"] else c.D(i), j if e["ci"] else c.D(j), c.D(x) if e["vk"] else fix(x)]
                                    for i, r in d.items() for j, x in r.items()]}
    if f == "renum":
        d = G.renumber_key_to_id(np.array(e["I"], dtype=np.uint64).tolist() if h.get("np") else list(e["I"]))
        return {"k": "items", "v": [[c.D(k), int(i)] for k, i in d.items()]}
    if f == "i2k":
        return {"k": "items", "v": [[int(i), c.D(k)] for i, k in R.id_to_key.items()]}
    raise Skip
