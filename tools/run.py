#!/usr/bin/env python3
"""run.py kind target [np] [args...]: build one harness and run it (development)."""
import sys, os, json, subprocess, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vf")
import driver
kind, target, np = sys.argv[1], sys.argv[2], int(sys.argv[3])
try:
    d = driver.build(kind, os.environ.get("SAN", "asan"), [target])
except driver.CheckError as e:
    print("\n".join(l for l in str(e).split("\n") if "error:" in l)[:6000]); sys.exit(1)
w = "/tmp/vfrun-%d" % os.getpid(); os.makedirs(w)
job = driver.Job("x", target, sys.argv[4:], np=np, timeout=800)
reps, crash, info = driver.run_job(job, d, w, int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick"))
for ri, r in enumerate(reps):
    if ri and not os.environ.get("ALL"): break
    print("ev", r["evaluations"], "cases", r["cases"], "distinct", len(r["distinct"]), "finished", r["finished"], r["counters"])
    for s in r["samples"][-2:]: print("   sample", s)
    for v in sorted(r["violations"], key=lambda v: -v["count"])[:int(os.environ.get("TOP","25"))]:
        print("  V", v["count"], v["key"], "|", v["detail"][:170], "|", v["case"][:150])
if crash: print("CRASH", crash["key"], crash["case"][:300], crash["detail"][-int(os.environ.get("TAIL","3000")):])
print("seconds", info["seconds"])
shutil.rmtree(w)
