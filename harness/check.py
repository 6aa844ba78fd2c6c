"""check.py <property> [--tier quick|thorough] [--replay FILE] [--keep]"""
import argparse
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import models  # noqa: E402
import tlc  # noqa: E402

PY = "/opt/venv/bin/python"


def known():
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--shards", type=int, default=8)
    a = ap.parse_args()
    pid = a.prop
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    out = os.path.join(ROOT, "out", pid)
    if not a.replay:
        shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif_" + pid + "_")
    try:
        rc = run(a, pid, seed, t0, out, tmp)
    finally:
        if a.keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(a, pid, seed, t0, out, tmp):
    nsh = 1 if a.replay else a.shards
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    procs = []
    for s in range(nsh):
        cmd = [PY, os.path.join(HERE, "worker.py"), pid, str(s), str(nsh), tmp, a.tier, str(seed)]
        if a.replay:
            cmd.append(os.path.abspath(a.replay))
        procs.append(subprocess.Popen(cmd, env=env, cwd=HERE, stdout=subprocess.PIPE,
                                      stderr=subprocess.STDOUT, text=True))
    outs = []
    with cf.ThreadPoolExecutor(nsh) as tp:
        for p, (o, _) in zip(procs, tp.map(lambda p: p.communicate(), procs)):
            outs.append((p.returncode, o))
    errors = []
    res = []
    for s, (rc, o) in enumerate(outs):
        f = os.path.join(tmp, f"res_{s}.json")
        if rc != 0 or not os.path.exists(f):
            errors.append(f"worker {s} failed rc={rc}\n{o[-3000:]}")
            continue
        with open(f) as fh:
            r = json.load(fh)
        if r.get("error"):
            errors.append(r["error"])
        res.append(r)
    # design-level models (exhaustive)
    mres = []
    if not a.replay:
        mres = models.run_models(pid, a.tier)
        for m in mres:
            if not m["ok"] and not m["timeout"]:
                errors.append(f"design model {m['name']} failed:\n{m['tail']}")
    # verdicts
    kf = [k for k in known().get("known", []) if k["property"] == pid]
    nviol = 0
    nknown = 0
    shown = {}
    lines = []
    for s, r in enumerate(res):
        for sid, l, clause, line in r["viol"]:
            hit = None
            if line:
                ses = json.loads(line)
                ev = ses["ev"][l - 1]
                for k in kf:
                    if k["clause"] == clause and all(ev.get(x) == y for x, y in k.get("event", {}).items()):
                        hit = k
            if hit:
                nknown += 1
                lines.append(f"KNOWN-FINDING: property={pid} {hit['what']}")
                continue
            nviol += 1
            shown[clause] = shown.get(clause, 0) + 1
            if shown[clause] > 3 or not line or len(shown) > 12:
                continue
            rp = a.replay
            if not rp:
                rp = os.path.join(out, f"replay_{len(os.listdir(out)) + 1}.json")
                with open(rp, "w") as fh:
                    json.dump({"property": pid, "clause": clause, "event": l, "session": ses}, fh, indent=1)
            print(f"VIOLATION property={pid} replay={rp}")
            e = {k: v for k, v in ev.items() if k not in ("gr",)}
            print("   clause", clause, "event", json.dumps(e)[:700])
    for line in sorted(set(lines)):
        print(line)
    distinct = set()
    nontriv = set()
    ops = {}
    for r in res:
        distinct.update(r["distinct"])
        nontriv.update(r["nontrivial"])
        for k, v in r["ops"].items():
            ops[k] = ops.get(k, 0) + v
    samples = [x for r in res for x in r["samples"]][:3]
    cov = {
        "states": sum(r.get("states", 0) for r in res) + sum(m["distinct"] for m in mres),
        "transitions": sum(r.get("events", 0) for r in res) + sum(m["generated"] for m in mres),
        "traces_validated_against_impl": sum(r["sessions"] for r in res),
        "evaluations": sum(v for k, v in ops.items() if k not in ("graph", "project")),
        "distinct_nontrivial": len(nontriv),
        "distinct_cases": len(distinct),
        "rule": "a case is one API call on one abstract graph; distinct up to (graphs of the session, call, arguments, outcome); "
                "non-trivial if some graph of the session has an edge and the call returned a value",
        "events_by_operation": ops,
        "calls_ending_in_an_exception": sum(r["exceptions"] for r in res),
        "design_models": [{k: m[k] for k in ("name", "distinct", "generated", "ok", "timeout", "wall_s")} for m in mres],
        "shards_cut_short": sum(bool(r["capped"]) for r in res),
        "samples": samples or ["(no sample)"],
        "exhaustive": False,
    }
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking", "coverage": cov,
          "assumptions": ["TLC evaluates the specification correctly",
                          "the harness' projection of objects and results (vlib.py) is faithful"],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if not a.replay:
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid}: {cov['traces_validated_against_impl']} sessions, {cov['transitions']} transitions, "
          f"{cov['states']} states, exec {max([r['t_exec'] for r in res] or [0]):.1f}s "
          f"tlc {max([r.get('t_tlc', 0) for r in res] or [0]):.1f}s wall {ev['wall_s']}s"
          + (f", known findings hit {nknown}" if nknown else "")
          + (f", VIOLATIONS {nviol} {shown}" if nviol else ""))
    if nviol:
        return 1
    if errors:
        for e in errors[:1]:
            ls = [x for x in e.splitlines() if x.strip() and not x.startswith(("Parsing file", "Semantic "))]
            print("ERROR", "\n".join(list(dict.fromkeys(ls))[:25])[:1800])
        return 2
    return 0


main()
