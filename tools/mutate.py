#!/usr/bin/env python3
"""Mutation testing of the checks: small changes to the library and the tools that the existing tests do not notice.
usage: mutate.py OUT.jsonl [--workers N] [--seed S] [--limit N] [--runs N] [--files a,b] [--again IN.jsonl] [--wide] [--kind RE]
Everything happens in scratch copies under /tmp/mut; survivors (not caught by any check) are written to OUT.jsonl."""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = re.compile(r"^mbus_data_product_name$|set_debug$|^mbus_data_variable_medium_lookup$|^mbus_frame_internal_pack$|^mbus_manufacturer_id$|parse_abort$|^mbus_inspect")
PRINTS = re.compile(r"_print$|^mbus_hex_dump$|^mbus_dump_")
PROPS = ["C%02d" % i for i in range(1, 35)]


def functions(path):
    L = open(path, encoding="latin1").read().split("\n")
    st, out = None, {}
    for i, l in enumerate(L):
        if re.match(r"^[a-zA-Z].*\(", l) and not l.rstrip().endswith(";"):
            st = (i, re.search(r"(\w+)\s*\(", l).group(1))
        if re.match(r"^(static )?(const )?\w.*\[\].*=\s*\{?\s*$|^\w.*\[\] = ", l): st = (i, "table")
        if l.startswith("}") and st:
            for k in range(st[0], i): out[k] = st[1]
            st = None
    return L, out


def mutants(repo, files):
    res = []
    for f in files:
        L, fn = functions(os.path.join(repo, f))
        comment = False
        for i, l in enumerate(L):
            if i not in fn or SKIP.search(fn[i]): continue
            code = l
            if "/*" in code and "*/" not in code: comment = True
            if comment:
                if "*/" in code: comment = False
                continue
            code = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group(0)), code)
            code = re.sub(r"//.*", lambda m: " " * len(m.group(0)), code)
            masked = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', code)
            st = masked.strip()
            if not st or st.startswith("#") or st in "{}": continue
            if re.search(r"MBUS_ERROR|fprintf\(stderr|printf\(\"|error_str|\bdebug\b|parse_debug|PRETTY_FUNCTION", l) and fn[i] != "table" and not PRINTS.search(fn[i]): continue

            def add(a, b, new, kind):
                res.append(dict(file=f, line=i + 1, fn=fn[i], kind=kind, old=l, new=l[:a] + new + l[b:]))
            for m in re.finditer(r"(<=|>=|==|!=|&&|\|\||<<|>>|(?<![<\-=])>(?![>=])|(?<![<])<(?![<=]))", masked):
                o = m.group(1)
                if st.startswith(("#", "case")): continue
                for n in {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<<": [">>"], ">>": ["<<"]}[o]:
                    add(m.start(), m.end(), n, "op")
            for m in re.finditer(r"(?<![+\-\w(,=] )(?<![+\-eE])([+\-])(?![+\-=>])(?=\s*[\w(])", masked):
                if re.search(r"[\w)\]]\s*$", masked[:m.start()]): add(m.start(), m.end(), "-" if m.group(1) == "+" else "+", "arith")
            for m in re.finditer(r"\+\+|--|\+=|-=", masked):
                add(m.start(), m.end(), {"++": "--", "--": "++", "+=": "-=", "-=": "+="}[m.group(0)], "arith")
            for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])", masked):
                v = int(m.group(1), 0)
                if re.search(r"(?:return|==|=|!=)\s*-$", masked[:m.start()]): continue
                fm = (lambda x: "0x%X" % x) if m.group(1).startswith("0x") else str
                for n in ([v + 1, v - 1] if v else [1]):
                    add(m.start(), m.end(), fm(n), "const")
            for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:[eE][+\-]?\d+)?)(?![\w.])", masked):
                add(m.start(), m.end(), m.group(1) + " * 10", "float")
            if fn[i] != "table" and st.endswith(";") and not re.match(r"(return|case|default|goto|else|for|if|while|do)\b|(unsigned |const |static |struct )?(char|int|long|size_t|ssize_t|mbus_\w+|double|float|speed_t|time_t|struct \w+|unsigned) \W*\w+", st):
                a = len(l) - len(l.lstrip())
                if st.count("(") == st.count(")"): add(a, len(l), ";", "delete")
            m = re.match(r"(\s*(?:else )?if \()(.*)\)\s*$", masked)
            if m and m.group(2).count("(") == m.group(2).count(")"):
                a, b = m.start(2), m.end(2)
                if re.search(r"NULL|^!?\w+$", l[a:b]): continue
                add(a, b, "!(" + l[a:b] + ")", "negate")
                add(a, b, "0 && (" + l[a:b] + ")", "never")
                add(a, b, "1 || (" + l[a:b] + ")", "always")
            m = re.match(r"\s*return (-?\w+);", masked)
            if m and re.match(r"-?\d+$", m.group(1)):
                for n in {"0": ["-1", "1"], "-1": ["0"], "1": ["0", "-1"]}.get(m.group(1), ["0"]): add(m.start(1), m.end(1), n, "return")
    return res

TYPES = r"(?:unsigned char|unsigned int|unsigned long|long long|signed char|size_t|ssize_t|time_t|double|int|long|char|short)"
NARROW = {"int": ["signed char", "unsigned char", "short"], "size_t": ["unsigned char", "signed char"], "ssize_t": ["signed char", "unsigned short"], "long": ["short", "int"], "long long": ["int"],
          "double": ["float"], "time_t": ["int", "short"], "unsigned int": ["unsigned char"], "unsigned char": ["signed char"], "char": ["unsigned char"], "unsigned long": ["unsigned int"]}


def wide(repo, files):
    """types too narrow, the wrong variable or member, arguments in the wrong order"""
    res = []
    members = {}
    for h in ("mbus/mbus-protocol.h", "mbus/mbus-protocol-aux.h"):
        st = []
        for i, l in enumerate(open(os.path.join(repo, h), encoding="latin1").read().split("\n")):
            m = re.match(r"\s+(%s)\s+(\w+)(\[[^\]]*\])?;" % TYPES, l)
            if re.match(r"(typedef )?struct", l): st = []
            if not m: continue
            for o in st:
                if o[0] == m.group(1) and bool(o[2]) == bool(m.group(3)):
                    members.setdefault(o[1], []).append(m.group(2)); members.setdefault(m.group(2), []).append(o[1])
            st.append((m.group(1), m.group(2), m.group(3)))
            for n in NARROW[m.group(1)]: res.append(dict(file=h, line=i + 1, fn="struct", kind="narrow", old=l, new=l[:m.start(1)] + n + l[m.end(1):]))
    for f in files:
        L, fn = functions(os.path.join(repo, f))
        loc = {}
        start = {}
        for i in fn: start.setdefault(fn[i], []).append(i)
        for name, idx in start.items():
            v = {}
            for i in sorted(idx):
                for m in re.finditer(r"(?<!\w)(?:const )?(%s)\s+(\*?)\s*(\w+)(\[)?" % TYPES, L[i] if i > idx[0] or True else ""):
                    v[m.group(3)] = (m.group(1), m.group(2) or m.group(4))
            loc[name] = v
        for i, l in enumerate(L):
            if i not in fn or fn[i] == "table" or SKIP.search(fn[i]): continue
            masked = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', re.sub(r"//.*", "", l))
            if re.search(r"MBUS_ERROR|fprintf\(stderr|error_str|\bdebug\b|parse_debug|PRETTY_FUNCTION|^\s*\*|/\*", l): continue

            def add(a, b, new, kind): res.append(dict(file=f, line=i + 1, fn=fn[i], kind=kind, old=l, new=l[:a] + new + l[b:]))
            d = re.match(r"\s+(?:static |const )*(%s)\s+[^*(]*;" % TYPES, masked)
            if d:
                if d.group(1) == "char" or re.search(r"\b(ret|retval|result)\b", masked): continue
                for n in NARROW.get(d.group(1), []):
                    if n != "short" or not re.search(r"\b(i|j|k|n|c)\b", masked): add(d.start(1), d.end(1), n, "narrow")
            elif l.strip() not in "{}" and masked.startswith(" "):
                v = loc[fn[i]]
                for m in re.finditer(r"(?<![\w.>\"])([A-Za-z_]\w*)(?![\w(])", masked):
                    if m.group(1) in v:
                        for o in v:
                            if o != m.group(1) and v[o] == v[m.group(1)]: add(m.start(), m.end(), o, "ident")
                for m in re.finditer(r"(?:->|\.)(\w+)(?![\w(])", masked):
                    for o in members.get(m.group(1), []): add(m.start(1), m.end(1), o, "member")
                for m in re.finditer(r"\w+\(([^(),]+), ([^(),]+)([,)])", masked):
                    add(m.start(1), m.end(2), l[m.start(2):m.end(2)] + ", " + l[m.start(1):m.end(1)], "swap")
    return res


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def relevant(m):
    f, fn = m["file"], m["fn"]
    if f.startswith("bin/"):
        t = os.path.basename(f)
        if "raw-send" in t: return ["C15", "C29", "C31", "C32"]
        if "scan-secondary" in t: return ["C07", "C23", "C10", "C31", "C32"]
        if "scan" in t: return ["C20", "C29", "C31", "C32"]
        if "request" in t: return ["C21", "C26", "C23", "C27", "C10", "C29", "C31", "C32"]
        return ["C22", "C23", "C10", "C29", "C31", "C32"]
    if PRINTS.search(fn): return ["C31", "C33"]
    if fn == "table" or re.search(r"lookup|fixed_unit|fixed_medium|unit_prefix|duration_|normalize|_xml|tm_decode|float_decode|long_decode|int_decode|bcd_|value_decode|record_decode|parse_\w+_record|data_record_(stor|tar|dev|fun|unit|val)|fixed_parse|variable_parse|manufacturer|bin_decode|str_decode|product|error_lookup|fixed_func|data_float|frame_data_new|record_new|record_free|record_append", fn):
        return ["C18", "C25", "C26", "C27", "C05", "C10", "C11", "C19", "C21", "C03"]
    return PROPS


class Worker:
    def __init__(self, k, cpus):
        self.d = "/tmp/mut/w%d" % k
        self.repo, self.v, self.cpus = self.d + "/repo", self.d + "/verif", cpus
        shutil.rmtree(self.d, True)
        os.makedirs(self.d)
        subprocess.check_call(["git", "clone", "-q", "/repo", self.repo])
        os.makedirs(self.v)
        for x in ("sim", "tools"): shutil.copytree(V + "/" + x, self.v + "/" + x)
        os.makedirs(self.d + "/inc/a")
        open(self.d + "/inc/config.h", "w").write('#define VERSION "0.9.0"\n')
        self.base = self.outputs()
        assert self.base

    def outputs(self):
        exe = self.d + "/parse"
        r = sh(["gcc", "-w", "-O1", "-I" + self.repo, "-I" + self.repo + "/mbus", self.repo + "/test/mbus_parse_hex.c", "-I" + self.d + "/inc/a", *glob.glob(self.repo + "/mbus/*.c"), "-lm", "-o", exe])
        if r.returncode: return None
        out = []
        for f in sorted(glob.glob(self.repo + "/test/*-frames/*.hex")):
            for n in ([], ["-n"]):
                try:
                    r = subprocess.run([exe, *n, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=3)
                    out.append((r.returncode, r.stdout))
                except subprocess.TimeoutExpired:
                    return "timeout"
        return out

    def sim(self):
        r = sh([sys.executable, self.v + "/tools/simbuild.py"], env=dict(os.environ, VERIF_REPO=self.repo))
        return r.stdout.decode().strip().split("\n")[-1] if r.returncode == 0 else None

    def judge(self, m, runs, order):
        p = self.repo + "/" + m["file"]
        t = open(p, encoding="latin1").read()
        L = t.split("\n")
        assert L[m["line"] - 1] == m["old"], m
        L[m["line"] - 1] = m["new"]
        open(p, "w", encoding="latin1").write("\n".join(L))
        try:
            o = self.outputs()
            if o is None: return "nobuild"
            if o != self.base: return "tests"
            exe = self.sim()
            if not exe: return "nosim"
            for prop in order:
                try:
                    r = sh([exe, "explore", prop, "--seed", "1", "--runs", str(runs if prop not in ("C17", "C20") else max(400, runs // 5)), "--workers", str(self.cpus), "--wall", "60", "--out", self.d + "/j.json", "--replays", self.d], timeout=180)
                    if r.returncode == 1 and b"VIOLATION" in r.stdout: return prop
                    if r.returncode not in (0, 1): return "odd %s %d" % (prop, r.returncode)
                except subprocess.TimeoutExpired:
                    return "odd timeout " + prop
            return "SURVIVED"
        finally:
            open(p, "w", encoding="latin1").write(t)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out"); a.add_argument("--workers", type=int, default=4); a.add_argument("--seed", type=int, default=1)
    a.add_argument("--limit", type=int, default=10**9); a.add_argument("--runs", type=int, default=2500)
    a.add_argument("--files"); a.add_argument("--again"); a.add_argument("--fn"); a.add_argument("--wide", action="store_true"); a.add_argument("--kind")
    o = a.parse_args()
    files = o.files.split(",") if o.files else [os.path.relpath(x, "/repo") for x in sorted(glob.glob("/repo/mbus/*.c") + glob.glob("/repo/bin/*.c"))]
    ms = [json.loads(l) for l in open(o.again)] if o.again else (wide if o.wide else mutants)("/repo", files)
    if o.again: ms = [m for m in ms if m.get("result", "SURVIVED") == "SURVIVED"]
    if o.kind: ms = [m for m in ms if re.search(o.kind, m["kind"])]
    if o.fn: ms = [m for m in ms if re.search(o.fn, m["fn"])]
    random.Random(o.seed).shuffle(ms)
    done = set()
    if os.path.exists(o.out) and not o.again:
        for l in open(o.out):
            d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    ms = [m for m in ms if (m["file"], m["line"], m["new"]) not in done][:o.limit]
    print(len(ms), "mutants")
    lock, count, heat = threading.Lock(), {}, {p: 0 for p in PROPS}
    it = iter(ms)

    def run(k):
        w = Worker(k, max(1, 8 // o.workers))
        while True:
            with lock:
                m = next(it, None)
                local = dict(heat)
            if m is None: return
            seen = [p for p in PROPS if local[p]]
            order = sorted(PROPS, key=lambda p: -local[p])
            rel = relevant(m)
            m["result"] = w.judge(m, o.runs if len(rel) > 11 else o.runs * 2, [p for p in order if p in rel])
            with lock:
                if m["result"] in heat: heat[m["result"]] += 1
                count[m["result"]] = count.get(m["result"], 0) + 1
                open(o.out, "a").write(json.dumps(m) + "\n")
                n = sum(count.values())
                if n % 25 == 0: print(n, count, flush=True)
    ts = [threading.Thread(target=run, args=(k,)) for k in range(o.workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    print(count)
    shutil.rmtree("/tmp/mut", True)


if __name__ == "__main__":
    main()
