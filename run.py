#!/usr/bin/env python3
"""run.py CNN [quick|thorough]      decide one property (exit 0 / 1)
   run.py --replay FILE             decide one saved case again"""
import json
import os
import subprocess
import sys
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = sys.executable
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


# cases per facet, against the numbers written in the checks
SCALE = dict({"C%02d" % i: 4 for i in range(1, 42)}, C06=2, C09=1.5, C10=2.5, C11=2, C12=2,
             C14=3, C16=1.5, C17=1.2, C23=3, C27=4, C29=1, C33=3, C34=3, C35=3, C37=1.5, C38=1, C39=2, C40=2, C41=1)


def findings():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


def shard_main(pid, tier, seed, i, n, out):
    from vf import core
    mod = core.load(pid)
    budget = float(os.environ.get("VERIF_BUDGET_S", 300 if tier == "quick" else 3000))
    deadline = time.time() + budget
    res = {"facets": [], "known": [], "shard": i}
    if i == 0:
        for probe in getattr(mod, "PROBES", []):
            msg = probe()
            if msg:
                res["known"].append(msg)
    facets = mod.facets()
    only = os.environ.get("VERIF_FACET")
    for f in facets:
        if only and f.name not in only.split(","):
            continue
        total = int((f.quick if tier == "quick" else f.thorough) * SCALE[pid] *
                    float(os.environ.get("VERIF_SCALE", "1")))
        per = total // n + (1 if i < total % n else 0)
        if per == 0:
            continue
        s = zlib.crc32(("%s/%s/%s/%s" % (pid, f.name, seed, i)).encode())
        t0 = time.time()
        r = core.run_facet(pid, f, per, s, deadline, i)
        r["wall"] = time.time() - t0
        r["rule"] = f.rule
        res["facets"].append(r)
        if r["violation"] or r["error"]:
            break
    fin = getattr(mod, "shard_end", None)
    if fin:
        fin()
    tmp = out + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(res, fh)
    os.replace(tmp, out)
    import threading
    if threading.active_count() > 1:        # one that does not return
        lane = sys.modules.get("vf.lane")
        if lane:
            lane.stop()
        os._exit(0)


def main(pid, tier):
    import shutil
    import tempfile
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=work)
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)
    try:
        pend = list(range(SHARDS))
        live, results, bad = {}, [], None
        tkill = None
        while pend or live:
            while pend and len(live) < jobs and bad is None:
                i = pend.pop(0)
                out = os.path.join(work, "s%d.json" % i)
                log = open(os.path.join(work, "s%d.log" % i), "w")
                live[i] = (subprocess.Popen(
                    [PY, os.path.abspath(__file__), "--shard", pid, tier, str(seed), str(i),
                     str(SHARDS), out], env=env, cwd=work, stdout=log, stderr=log), out, log)
            if bad is not None:
                pend = []
            for i in list(live):
                p, out, log = live[i]
                if p.poll() is None:
                    continue
                log.close()
                del live[i]
                if p.returncode == 0 and os.path.exists(out):
                    r = json.load(open(out))
                    results.append(r)
                    if any(f["violation"] for f in r["facets"]):
                        bad = bad or "violation"
                        tkill = tkill or time.time() + 3
                else:
                    txt = open(log.name).read()[-6000:]
                    results.append({"facets": [], "known": [], "crash": txt, "shard": i})
            if tkill and time.time() > tkill and live:
                for p, _, _ in live.values():
                    p.kill()
            time.sleep(0.02)
        return report(pid, tier, seed, results, time.time() - t0, bad)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(pid, tier, seed, results, wall, bad):
    results.sort(key=lambda r: r["shard"])
    known, viol, errors = [], [], []
    fac = {}
    for r in results:
        for k in r["known"]:
            if k not in known:
                known.append(k)
        if r.get("crash") and bad is None:
            errors.append(r["crash"])
        for f in r["facets"]:
            d = fac.setdefault(f["facet"], {"evaluations": 0, "skips": 0, "nt": set(),
                                            "labels": {}, "samples": [], "rule": f["rule"],
                                            "cpu_s": 0.0, "max": 0.0, "skip_reasons": {}})
            d["evaluations"] += f["evaluations"]
            d["skips"] += f["skips"]
            d["cpu_s"] += f["wall"]
            d["max"] = max(d["max"], f["max_cpu"])
            d["nt"].update(f["nontrivial"])
            for k, v in f["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
            for k, v in f["skip_reasons"].items():
                d["skip_reasons"][k] = d["skip_reasons"].get(k, 0) + v
            d["samples"].extend(f["samples"][:1])
            if f["violation"]:
                viol.append((f["facet"], f["violation"]))
            if f["error"]:
                errors.append(f["error"])
    openf = [k for k in findings() if k["status"] == "open" and k["property"] == pid]
    listed = openf
    for k in known:
        if any(f["signature"] in k for f in openf):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        else:
            viol.append(("probe", {"msg": k, "case": {"probe": k}, "reproduced": True}))
    viol = [v for v in viol if not any(k.get("signature") and k["signature"] in v[1]["msg"]
                                       for k in listed)]
    samples = []
    for name, d in fac.items():
        for s in d["samples"][:2]:
            t = json.dumps(s)
            samples.append({"facet": name, "case": s if len(t) < 1500 else t[:1500] + "..."})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in fac.values()),
            "distinct_nontrivial": sum(len(d["nt"]) for d in fac.values()),
            "rule": " || ".join("%s: %s" % (n, d["rule"]) for n, d in fac.items()),
            "inconclusive": sum(d["skips"] for d in fac.values()),
            "facets": {n: {"evaluations": d["evaluations"],
                           "distinct_nontrivial": len(d["nt"]),
                           "inconclusive": d["skips"], "skip_reasons": d["skip_reasons"],
                           "labels": d["labels"], "cpu_s": round(d["cpu_s"], 1),
                           "largest_case_cpu_s": round(d["max"], 2)}
                       for n, d in fac.items()},
            "samples": samples,
        },
        "assumptions": [
            "convst's compiled functions are decided on their Python source, run on the "
            "stand-ins of /verif/shims (no numba runtime is installed)",
            "generated inputs only: absence of violations is not established beyond them"],
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    outdir = os.environ.get("VERIF_OUT", HERE)      # planted-bug runs write elsewhere
    os.makedirs(os.path.join(outdir, "evidence"), exist_ok=True)
    with open(os.path.join(outdir, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        viol.sort(key=lambda v: len(json.dumps(v[1]["case"])))
        name, v = viol[0]
        d = os.path.join(outdir, "replays", pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_seed%d.json" % (name, seed))
        with open(path, "w") as f:
            json.dump({"property": pid, "facet": name, "message": v["msg"],
                       "case": v["case"]}, f, indent=1)
        print("facet %s: %s%s" % (name, v["msg"], "" if v["reproduced"]
                                  else " [not reproduced on immediate replay]"))
        print("case: %s" % json.dumps(v["case"])[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("HARNESS ERROR in %s:\n%s" % (pid, errors[0]))
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial, %d inconclusive) in %.1fs"
          % (pid, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
             ev["coverage"]["inconclusive"], wall))
    for n, d in fac.items():
        print("  %-22s n=%d nt=%d skip=%d cpu=%.1fs %s" % (
            n, d["evaluations"], len(d["nt"]), d["skips"], d["cpu_s"],
            json.dumps(d["labels"]) if os.environ.get("VERIF_VERBOSE") else ""))
    return 0


def replay(path):
    from vf import core
    r = json.load(open(path))
    mod = core.load(r["property"])
    if r["facet"] == "probe":
        msgs = [m for m in (p() for p in mod.PROBES) if m == r["message"]]
        print(msgs)
        if msgs:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1 if msgs else 0
    f = [f for f in mod.facets() if f.name == r["facet"]][0]
    status, msg, _ = core.run_case(f, r["case"])
    print(status, msg)
    if status == "violation":
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    return 0 if status in ("ok", "skip") else 2


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--shard":
        shard_main(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6])
    elif a[0] == "--replay":
        sys.exit(replay(a[1]))
    else:
        sys.exit(main(a[0].upper(), a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
