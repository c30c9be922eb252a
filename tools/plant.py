#!/usr/bin/env python3
"""Plants a bug and keeps it in /verif/seeded.  usage: plant.py SPEC.py [ID...]   (SPEC defines BUGS = [dict(...), ...])
   plant.py --recheck [ID...]   runs the checks against the bugs already kept
dict: id, property, needs, breaks, edits=[(file, old, new), ...], demo (Python source using lab.py)."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh("git -C %s checkout -- ." % R)
    assert not sh("git -C %s status --porcelain --untracked-files=no" % R).stdout




def foreign(d):
    """removed lines of the patch that are not the original repository's"""
    f, n, bad, good = None, 0, [], 0
    for l in open(d + "/patch.diff", encoding="latin1"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh("git -C /repo blame -s -L %d,%d HEAD -- %s" % (n, n, f)).stdout
            c = b.split()[0].lstrip("^")
            if sh("git -C /repo merge-base --is-ancestor %s 73e35fb" % c).returncode: bad.append(b.strip())
            else: good += 1
            n += 1
        elif l.startswith(" "): n += 1
    if bad: print("   NOT ORIGINAL:", bad)
    if not good: print("   NO ORIGINAL LINE CHANGED")


def check(prop):
    t = time.time()
    r = sh("python3 check.py %s quick" % prop, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    line = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=%s " % prop)]
    return r.returncode == 1 and bool(line), r.returncode, time.time() - t, r.stdout


def demo(d):
    t = time.time()
    try:
        r = sh("bash %s/demo.sh" % d, cwd=R, timeout=280)
        return r.returncode, time.time() - t, r.stdout[-1500:]
    except subprocess.TimeoutExpired:
        return 124, 280, "timeout"


def plant(b):
    d = "/tmp/plant/" + b["id"]
    shutil.rmtree(d, True)
    os.makedirs(d)
    shutil.copy(V + "/tools/demo/lab.py", d)
    open(d + "/demo.py", "w").write("from lab import *\n" + b["demo"].strip() + "\ndone()\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout -k 5 120 python3 -B "$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    clean()
    rc, s, out = demo(d)
    if rc:
        print(b["id"], "DEMO FAILS ON CLEAN", rc, out)
        return
    try:
        for f, old, new in b["edits"]:
            p = R + "/" + f
            t = open(p, encoding="latin1").read()
            if t.count(old) != 1:
                print(b["id"], "EDIT MATCHES", t.count(old), repr(old[:60]))
                return
            open(p, "w", encoding="latin1").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        foreign(d)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            print(b["id"], "DOES NOT BUILD", r.stdout[-1500:])
            return
        sh("bash /opt/vp/test.sh /tmp/plant/t.json")
        passed = set(json.load(open("/tmp/plant/t.json"))["passed"])
        miss = [x for x in STABLE if x not in passed]
        if miss:
            print(b["id"], "TESTS FAIL", miss[:5])
            return
        rc2, s2, out2 = demo(d)
        if rc2 == 0:
            print(b["id"], "DEMO PASSES WITH THE BUG", out2)
            return
        ok, crc, cs, cout = check(b["property"])
    finally:
        clean()
        sh("bash /opt/vp/build.sh")
    dst = V + "/seeded/" + b["id"]
    shutil.rmtree(dst, True)
    shutil.copytree(d, dst)
    shutil.rmtree(d)
    last = [l for l in out2.strip().split("\n") if l][-1:] or ["?"]
    print(b["id"], "CAUGHT" if ok else "MISSED rc=%d" % crc, "check %.0fs demo %.0f/%.0fs (%s)" % (cs, s, s2, last[0][:100]))
    if not ok:
        print(cout[-600:])
    sys.stdout.flush()


def recheck(ids):
    """in a scratch clone, so that /repo stays free"""
    global R
    R = "/tmp/plant-repo"
    shutil.rmtree(R, True)
    sh("git clone -q /repo " + R)
    os.environ["VERIF_REPO"] = R
    for i in ids or sorted(os.listdir(V + "/seeded")):
        d = V + "/seeded/" + i
        if not os.path.exists(d + "/meta.json"):
            continue
        prop = json.load(open(d + "/meta.json"))["property"]
        clean()
        r = sh("git -C %s apply %s/patch.diff" % (R, d))
        if r.returncode:
            print(i, "DOES NOT APPLY")
            continue
        try:
            ok, rc, s, out = check(prop)
        finally:
            clean()
        print(i, prop, "CAUGHT" if ok else "MISSED rc=%d" % rc, "%.0fs" % s)
        sys.stdout.flush()


if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        recheck(sys.argv[2:])
    else:
        g = {}
        exec(open(sys.argv[1]).read(), g)
        for b in g["BUGS"]:
            if len(sys.argv) < 3 or b["id"] in sys.argv[2:]:
                plant(b)
