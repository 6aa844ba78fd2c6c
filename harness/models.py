"""Design-level models (exhaustive TLC runs) attached to each property.

Theorems: laws the declarative definitions (layer 1) must satisfy on every small
graph.  *Model: algorithms and the property cache (layer 2) refine those
definitions.  None of them looks at /repo: they guard the specification itself.
"""
import concurrent.futures as cf
import time

import tlc


def _thm(*names):
    return [(n, "Theorems", n + ".cfg", 2) for n in names]


def _m(module, *names):
    return [(n, module, n + ".cfg", 2) for n in names]


CACHE = _m("CacheModel", "Cache_tri_d", "Cache_tri_u", "Cache_deg_d", "Cache_rec_d", "Cache_sig_d")
CACHE3 = _m("CacheModel", "Cache_tri_d3", "Cache_deg_d3", "Cache_rec_d3")

# property -> ([quick], [further ones of the thorough tier])
_TABLE = {
    "C01": (_thm("Thm_C01_d", "Thm_C01_u") + CACHE, CACHE3),
    "C02": (CACHE, CACHE3),
    "C03": (_thm("Thm_C03_d", "Thm_C03_u"), []),
    "C04": (_thm("Thm_C04_d", "Thm_C04_u") + _m("BfsModel", "Bfs_u"), _thm("Thm_C04_d4") + _m("BfsModel", "Bfs_d", "Bfs_d4")),
    "C05": (_thm("Thm_C05_d", "Thm_C05_u") + _m("BfsModel", "Bfs_d"), _m("BfsModel", "Bfs_u", "Bfs_d4")),
    "C06": (_thm("Thm_C06_d", "Thm_C06_u") + _m("BellmanFordModel", "BF_d"), _thm("Thm_C06_d4") + _m("BellmanFordModel", "BF_dl", "BF_u4")),
    "C07": (_thm("Thm_C07_d", "Thm_C07_u") + _m("BellmanFordModel", "BF_u"), _m("BellmanFordModel", "BF_d", "BF_dl", "BF_u4")),
    "C08": (_thm("Thm_C08_d", "Thm_C08_u") + _m("FloydWarshallModel", "FW_d", "FW_u"), _m("FloydWarshallModel", "FW_dl")),
    "C09": (_thm("Thm_C09_d", "Thm_C09_u"), _thm("Thm_C09_d4", "Thm_C09_u5")),
    "C10": (_thm("Thm_C10_u"), []),
    "C11": (_thm("Thm_C11_d", "Thm_C11_u") + _m("PeelModel", "Peel_u4"), _thm("Thm_C11_u5") + _m("PeelModel", "Peel_u5")),
    "C12": (_thm("Thm_C12_d", "Thm_C12_u", "Thm_C12_uw"), []),
    "C13": (_thm("Thm_C13_d", "Thm_C13_d2"), _thm("Thm_C13_u3")),
    "C14": (_thm("Thm_C14_d", "Thm_C14_u"), []),
    "C15": (_thm("Thm_C15_d", "Thm_C15_u"), _thm("Thm_C15_d4")),
    "C16": (_thm("Thm_C16_d", "Thm_C16_u"), []),
    "C17": (_thm("Thm_C17_d", "Thm_C17_dw"), []),
    "C18": (_thm("Thm_C17_d"), _thm("Thm_C17_dw")),
    "C19": (_m("ContainerModel", "Cont_flat", "Cont_nest"), []),
    "C20": (_m("SetModel", "Set"), []),
    "C21": (_thm("Thm_C21_d", "Thm_C21_u"), []),
    "C22": (_thm("Thm_C24_dl"), _thm("Thm_C24_d", "Thm_C24_u")),
    "C23": (_m("ChunkModel", "Chunk"), []),
    "C24": (_thm("Thm_C24_d", "Thm_C24_dl", "Thm_C24_u"), []),
}
MODELS = {p: {"quick": q, "thorough": q + t} for p, (q, t) in _TABLE.items()}


def run_models(pid, tier):
    by_tier = MODELS.get(pid, {})
    todo = by_tier.get(tier, by_tier.get("quick", []))

    def one(m):
        name, module, cfg, workers = m
        t = time.time()
        r = tlc.run_tlc(module, cfg, workers=workers, heap="3000m", gc="Parallel",
                        timeout=200 if tier == "quick" else 3000)
        # an incomplete run (machine too slow) is recorded as such; only a refuted model is an error
        return {"name": name, "ok": r["ok"], "timeout": r["rc"] == 124, "distinct": r["distinct"],
                "generated": r["generated"], "wall_s": round(time.time() - t, 1), "tail": r["out"][-2500:]}

    with cf.ThreadPoolExecutor(4) as tp:
        return list(tp.map(one, todo))
