"""dev helper: python3 -m vx.gen unit [--probe] -> /tmp/vx/unit.rs and run verus, human output"""
import os, subprocess, sys
from . import merge, verus
u = sys.argv[1]
probe = "--probe" in sys.argv
os.makedirs("/tmp/vx", exist_ok=True)
t, infos, missing = merge.build("/verif/specs/%s.vrs" % u, os.environ.get("REPO", "/repo"), probe)
open("/tmp/vx/%s.rs" % u, "w").write(t)
for k, v in infos.items():
    if not v["identical"]:
        print("DIFF", k, v["diff"], v["lost_rewrites"], v["displaced_ghost"])
print("missing", missing)
extra = [a for a in sys.argv[2:] if a != "--probe"]
subprocess.run(["verus", "/tmp/vx/%s.rs" % u] + extra, env=verus.env())
