"""Chunk sizes that mean nothing."""
from vlib import *  # noqa: F403

BAD = ["abc", "10 xb", "1.2.3", "ten", "5 chunkz", "MiB5x", [], (3,), {}, b"5", object(), "1/2", "-", "3 zzb"]


@op("chunk_bad")
def _(c, e):
    G = c.obj(e["g"])
    r = call(c, e["fn"], G, chunksize=BAD[e["bad"]])
    list(r.items() if hasattr(r, "items") else r)
    return {"k": "accepted"}
