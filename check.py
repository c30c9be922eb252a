#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the simulator around /repo and explores one property.

Exit 0: held on everything explored. Exit 1: violation (line "VIOLATION property=... replay=..."). Exit 2: no answer."""
import json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import simbuild, props

KNOWN = os.path.join(VERIF, "known-findings.txt")


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    info = props.PROPS[prop]
    t0 = time.time()
    variants = info.get("variants", ["pattern"])
    evdir = os.path.join(VERIF, "evidence")
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(evdir, exist_ok=True)
    os.makedirs(rdir, exist_ok=True)
    budget = 780 if tier == "thorough" else 120
    covs, rc, out = [], 0, ""
    exe = simbuild.build(variants[0])
    build_s = time.time() - t0
    cov_path = os.path.join(evdir, ".%s.cov" % prop)
    cmd = [exe, "explore", prop, "--seed", str(seed), "--workers", str(os.cpu_count() or 8), "--wall", str(budget), "--out", cov_path,
           "--replays", rdir]
    if len(variants) > 1:
        cmd += ["--compare", simbuild.build(variants[1])]
    if os.environ.get("SIM_RUNS"):
        cmd += ["--runs", os.environ["SIM_RUNS"]]
    if tier == "thorough":
        cmd.append("--thorough")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout)
    rc = r.returncode
    if rc not in (0, 1):
        print("check of %s gave no answer (status %d)" % (prop, rc))
        return 2
    cov = json.load(open(cov_path))
    os.unlink(cov_path)
    cov["build_s"] = round(build_s, 2)
    cov["real_code"] = info["real"]
    cov["stub_components"] = props.STUBS
    if not info.get("meters", True):
        cov["stub_components"] = [s for s in props.STUBS if not s.startswith("M-Bus meters")]
    cov["distinct_measure"] = props.MEASURE
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": info["assumptions"] + props.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
          "violations": 1 if rc == 1 else 0}
    path = os.path.join(evdir, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)
    if cov["evaluations"] == 0 or (rc == 0 and cov["distinct_nontrivial"] == 0):
        print("nothing was explored")
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
