from vlib import *  # noqa: F403


def dense(M):
    if hasattr(M, "toarray"):
        D = M.toarray()
    elif isinstance(M, np.ndarray):
        D = M
    elif isinstance(M, gb.Matrix):
        D = M.to_dense(fill_value=0)
    else:
        raise Bad("not a matrix: %s" % type(M).__name__)
    if D.ndim != 2 or D.shape[0] != D.shape[1]:
        raise Bad("shape")
    return D


@op("adjacency_matrix", "laplacian_matrix", "normalized_laplacian_matrix", "modularity_matrix",
    "directed_modularity_matrix", "bethe_hessian_matrix")
def _(c, e):
    G = c.obj(e["g"])
    h = e["h"]
    kw = {}
    if e["nl"]:
        nl = c.Ls(e["nl"][0])
        kw["nodelist"] = tuple(nl) if h.get("tup") else nl
    if e["op"] == "bethe_hessian_matrix":
        if e["r"]:
            kw["r"] = e["r"][0] / e["r"][1]
    elif e["op"].endswith("modularity_matrix"):
        if e["wt"]:
            kw["weight"] = h.get("attr", "weight")
        elif h.get("explicit"):
            kw["weight"] = None
    elif not e["wt"]:
        kw["weight"] = None
    elif h.get("attr") or h.get("explicit"):
        kw["weight"] = h.get("attr", "weight")
    if h.get("dtype"):
        kw["dtype"] = {"float": float, "f32": np.float32}[h["dtype"]]
    r = dense(call(c, e["op"], G, **kw))
    U = c.sc[e["g"]] if e["wt"] else 1
    if isinstance(U, Fraction) and h.get("dtype") == "f32":
        raise Skip
    if e["op"] in ("adjacency_matrix", "laplacian_matrix"):
        return o_mat(c, r, lambda x: ex(x, U))
    if e["op"] == "normalized_laplacian_matrix":
        return o_mat(c, r, lambda x: fix(x, 10000))
    if isinstance(U, Fraction):
        if e["op"] == "bethe_hessian_matrix" or not (isinstance(G, ga.Graph) and G.matrix.dtype.name == "FP64"):
            raise Skip  # not linear in the weights; products of sums that overflow integers in NetworkX, too
        return o_mat(c, r, lambda x: fix(float(num(x)) * float(U)))
    return o_mat(c, r, fix)
