"""setup_cmd: nothing is compiled; verify that the toolchain and every specification module parse."""
import glob
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", os.path.basename(f)], cwd=SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        bad = 1
        print("cannot parse", f, p.stdout[-2000:])
r = subprocess.run(["/opt/venv/bin/python", "-c", "import graphblas_algorithms, networkx; print('library importable')"])
sys.exit(bad or r.returncode)
