#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  - decide one property by monitored runs."""
import concurrent.futures as cf
import json, os, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vf"))
import driver
from specs import SPECS


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = SPECS[pid]
    t0 = time.time()
    evdir = os.path.join(driver.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    try:
        dirs, build_s = {}, time.time()
        jobs = spec["jobs"](seed, tier)
        need = {}
        for cfg, job in jobs:
            need.setdefault(cfg, set()).add(job.binary)
        for cfg, extra in spec.get("extra_targets", {}).items():
            need.setdefault(cfg, set()).update(extra)
        for cfg, targets in need.items():
            dirs[cfg] = driver.build(cfg[0], cfg[1], sorted(targets))
        build_s = time.time() - build_s
        if spec.get("prepare"):
            spec["prepare"](dirs, work, seed, tier)
        results = []
        # jobs carry a weight (processes used); run several next to each other
        slots = os.cpu_count() or 8
        import threading
        cond, free = threading.Condition(), [slots]

        def go(item):
            cfg, job = item
            w = min(slots, max(1, job.np, job.weight))
            with cond:
                while free[0] < w:
                    cond.wait()
                free[0] -= w
            try:
                return cfg, job, driver.run_job(job, dirs[cfg], work, seed, tier)
            finally:
                with cond:
                    free[0] += w
                    cond.notify_all()

        with cf.ThreadPoolExecutor(max_workers=slots) as ex:
            results = list(ex.map(go, jobs))
        evaluations = cases = 0
        distinct, counters, samples, viol, infos = set(), {}, [], [], []
        for cfg, job, (reports, crash, info) in results:
            infos.append({k: info[k] for k in ("job", "rc", "seconds")})
            for r in reports:
                evaluations += r["evaluations"]
                cases += r["cases"]
                distinct.update(r["distinct"])
                for k, v in r["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                samples += r["samples"][:6]
                for v in r["violations"]:
                    viol.append({"key": v["key"], "detail": v["detail"], "case": v["case"],
                                 "count": v["count"], "job": job.name, "cmd": info["cmd"]})
            if crash:
                viol.append({"key": crash["key"], "detail": crash["detail"], "case": crash["case"],
                             "count": 1, "job": job.name, "cmd": info["cmd"]})
        known = [k for k in driver.load_known() if k["property"] == pid and k.get("status") == "known"]
        seen_known, fresh = {}, []
        for v in viol:
            hit = next((k for k in known if v["key"] == k["key"]), None)
            if hit:
                seen_known[hit["key"]] = hit
            else:
                fresh.append(v)
        for k in seen_known.values():
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        minimum = spec.get("min_evaluations", 100)
        cov = {"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": spec["rule"],
               "samples": sorted(set(samples))[:20], "cases": cases, "counters": counters, "jobs": infos}
        if spec.get("coverage_extra"):
            cov.update(spec["coverage_extra"](counters))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
              "assumptions": spec.get("assumptions", []), "known_findings": sorted(seen_known),
              "build_s": round(build_s, 1), "tree": driver.tree_id()}
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if fresh:
            rdir = os.path.join(evdir, "replay")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%s-seed%d.json" % (pid, tier, seed))
            with open(rp, "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": seed,
                           "replay": "VERIF_SEED=%d python3 %s %s %s" % (seed, os.path.abspath(__file__), pid, tier),
                           "violations": fresh}, f, indent=1)
            for v in fresh[:8]:
                print("  %s [%s] %s" % (v["key"], v["job"], v["detail"][:300].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if evaluations < minimum or len(distinct) < spec.get("min_distinct", 2):
            print("INCONCLUSIVE: only %d evaluations, %d distinct situations observed" % (evaluations, len(distinct)))
            return 2
        for name, low in spec.get("min_counters", {}).items():
            if counters.get(name, 0) < low:
                print("INCONCLUSIVE: counter %s = %d < %d" % (name, counters.get(name, 0), low))
                return 2
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d cases=%d build=%.0fs total=%.0fs" % (
            pid, tier, seed, evaluations, len(distinct), cases, build_s, time.time() - t0))
        return 0
    except driver.CheckError as e:
        print("CHECK-ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work dir", work)


sys.exit(main())
