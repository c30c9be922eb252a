#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import props
PURE = "pure function of its argument: no concurrency, time, I/O, fault or multi-party behaviour for a simulated schedule to vary; "
WHY = {
 "N01": PURE + "round trip over values is decided by enumeration or proof, not by simulation",
 "N02": PURE + "packing and parsing of a frame in memory is decided by enumeration or proof (frames arriving over a line are C01, C15)",
 "N03": PURE + "well-formedness of text produced from bytes is decided by input generation or proof (memory safety of the same code under hostile traffic is C11)",
 "N04": PURE + "a comparison of constant tables with the standard (the units that reach a readout are C18)",
 "N05": PURE + "the correspondence of text and bytes is decided by enumeration (its effect on selection is C08)",
 "N06": PURE + "conversion of a text buffer",
 "N07": PURE + "a finite table of three-letter codes",
}
checks = []
pend = []
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, deliveries and faults of the real code on a simulated operating system, line and meters",
            "level": "exploration",
            "level_note": p["note"],
        })
na = [{"property": i, "reason": WHY.get(i, "check not built yet")} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "python3 tools/simbuild.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the libc symbol boundary (objcopy --redefine-syms on objects compiled from /repo). Replay a violation with: python3 replay.py FILE"}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
