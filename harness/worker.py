"""One shard: generate plans, run them on the real library, validate the trace with TLC."""
import hashlib
import json
import os
import random
import re
import sys
import time

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ.setdefault("NETWORKX_TEST_BACKEND", "")
os.environ.pop("NETWORKX_TEST_BACKEND", None)
os.environ.pop("NETWORKX_AUTOMATIC_BACKENDS", None)
import warnings

warnings.filterwarnings("ignore")

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

DROP = {"gr", "b", "via", "h"}


def clean(e):
    return {k: v for k, v in e.items() if k not in DROP}


def graph_key(session):
    return json.dumps([e.get("gr") for e in session["ev"] if e["op"] == "graph"])


CANNOT = re.compile(r"threw an unexpected exception|Overflow when computing|Attempted to ")


def main():
    pid, shard, nsh, outdir, tier, seed = sys.argv[1:7]
    shard, nsh, seed = int(shard), int(nsh), int(seed)
    replay = sys.argv[7] if len(sys.argv) > 7 else None
    t0 = time.time()
    import vlib
    import allops  # noqa: F401  (registers every operation)
    import pcommon
    import plans
    import tlc

    pcommon.KORD = pid not in pcommon.IN_ORDER

    rng = random.Random(f"{seed}/{pid}/{shard}")
    tpath = os.path.join(outdir, f"trace_{shard}.ndjson")
    ppath = os.path.join(outdir, f"plan_{shard}.ndjson")
    cap = float(os.environ.get("VERIF_CAP", "420" if tier == "quick" else "3000"))
    if replay:
        with open(replay) as f:
            it = [json.load(f)["session"]]
    else:
        it = plans.PLANS[pid](rng, tier, shard, nsh)
    nev = nses = ntime = 0
    ops = {}
    excs = 0
    distinct = set()
    nontriv = set()
    samples = []
    capped = False
    expected_states = 0
    with open(tpath, "w") as tf, open(ppath, "w") as pf:
        for session in it:
            evs, to = vlib.execute(session)
            if not evs:
                continue
            ntime += to
            nses += 1
            nev += len(evs)
            expected_states += len(evs) + 1
            gk = graph_key(session)
            nonempty = '1' in gk.split('"a"', 1)[-1].split('"w"', 1)[0] if gk else True
            nonempty = any(
                any(1 in row for row in e["gr"]["a"]) for e in session["ev"] if e["op"] == "graph"
            ) or not any(e["op"] == "graph" for e in session["ev"])
            for e in evs:
                ops[e["op"]] = ops.get(e["op"], 0) + 1
                if e["o"]["k"] == "exc":
                    excs += 1
                if e["op"] in ("graph", "project"):
                    continue
                c = clean(e)
                key = hashlib.md5((gk + json.dumps(c, sort_keys=True)).encode()).digest()[:8]
                distinct.add(key)
                if nonempty and e["o"]["k"] != "exc":
                    nontriv.add(key)
            if len(samples) < 2 and nonempty and nses % 7 == 3:
                samples.append([clean(e) for e in evs][:4])
            tf.write(json.dumps({"ev": [clean(e) for e in evs]}) + "\n")
            session = dict(session)
            session["ev"] = evs
            pf.write(json.dumps(session) + "\n")
            if ntime >= 2:
                capped = True
                break
            if time.time() - t0 > cap:
                capped = True
                break
    t1 = time.time()
    res = {"sessions": nses, "events": nev, "ops": ops, "exceptions": excs,
           "distinct": [d.hex() for d in distinct], "nontrivial": [d.hex() for d in nontriv],
           "samples": samples, "capped": capped, "t_exec": t1 - t0, "viol": []}
    if nses:
        with open(ppath) as pf:
            lines = pf.readlines()
        skip = set()
        v = []
        for attempt in range(6):
            r = tlc.run_tlc("GraphSession", env={"TRACE": tpath}, heap="3000m", timeout=6000)
            v = tlc.viols(r["out"])
            if r["ok"]:
                break
            # an outcome the specification cannot even evaluate is not one it allows
            m = re.search(r"^/\\ sid = (\d+)", r["out"], re.M)
            ml = re.findall(r"^/\\ l = (\d+)", r["out"], re.M)
            if not m or not ml or not CANNOT.search(r["out"]):
                break
            sid, l = int(m.group(1)), int(ml[-1])
            if sid in skip:
                break
            skip.add(sid)
            res["viol"].append([sid, l, "outcome-outside-specification", lines[sid - 1]])
            res.setdefault("notes", []).append(r["out"][:20000][-3000:])
            with open(tpath) as tf:
                tl = tf.readlines()
            expected_states -= len(json.loads(tl[sid - 1])["ev"])
            tl[sid - 1] = '{"ev": []}\n'
            with open(tpath, "w") as tf:
                tf.writelines(tl)
        res["t_tlc"] = time.time() - t1
        res["states"] = r["distinct"]
        res["generated"] = r["generated"]
        if not r["ok"] or r["distinct"] != expected_states:
            res["error"] = "TLC did not consume the whole trace: rc=%s ok=%s states=%s expected=%s\n%s" % (
                r["rc"], r["ok"], r["distinct"], expected_states, r["out"][-3000:])
        for sid, l, clause in sorted(set(v))[:200]:
            res["viol"].append([sid, l, clause, lines[sid - 1] if len(res["viol"]) < 40 else ""])
    with open(os.path.join(outdir, f"res_{shard}.json"), "w") as f:
        json.dump(res, f)


main()
