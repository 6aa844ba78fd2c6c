"""Running TLC."""
import os
import re
import shutil
import subprocess
import tempfile

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def run_tlc(module, cfg=None, env=None, workers=1, heap="1500m", extra=(), timeout=800, gc="Serial"):
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    cmd = [
        "java", f"-Xmx{heap}", "-Xss16m", f"-XX:+Use{gc}GC", "-cp", JARS, "tlc2.TLC",
        "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-deadlock" if False else "-nowarning",
        "-config", cfg or module + ".cfg", *extra, module + ".tla",
    ]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(
            cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=timeout, text=True, errors="replace",
        )
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as exc:
        out = (exc.stdout or b"").decode(errors="replace") if isinstance(exc.stdout, bytes) else (exc.stdout or "")
        rc = 124
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in re.finditer(r"^([\d,]+) states generated.*?, ([\d,]+) distinct states found", out, re.M):
        pass
    gen = int(m.group(1).replace(",", "")) if m else 0
    dist = int(m.group(2).replace(",", "")) if m else 0
    ok = "Model checking completed. No error has been found." in out
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist, "ok": ok}


VIOL = re.compile(r'<<\s*"VIOL",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>')


def viols(out):
    return [(int(a), int(b), c) for a, b, c in VIOL.findall(out)]
