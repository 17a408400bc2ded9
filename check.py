#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property: compiles /repo's current sources to LLVM IR, executes the property's harnesses symbolically
(engine/), lets z3 decide every assertion over all input values within the stated bounds, replays every
counterexample against a natively compiled build of the same sources (ASan/UBSan or valgrind) and reports only what
reproduces.  Exit 0: held on everything explored.  Exit 1: VIOLATION printed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPINE_REPO", "/repo")
ENG = os.path.join(VERIF, "engine")
NCPU = min(8, os.cpu_count() or 4)
T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
IRFLAGS = ["-std=gnu++17", "-DNATIVE", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-O1", "-Xclang", "-disable-llvm-passes",
           "-fno-threadsafe-statics", "-ffp-contract=off", "-fno-math-errno", "-gline-tables-only", "-w", "-Wno-c++11-narrowing", "-emit-llvm", "-c"]
NATFLAGS = ["-std=gnu++17", "-DNATIVE", "-O1", "-g1", "-w", "-Wno-c++11-narrowing", "-ffp-contract=off", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all"]


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf-8", "replace")


class Cfg:
    """directives in the harness source: lines starting with //@"""

    def __init__(self, prop):
        self.prop = prop
        self.file = os.path.join(VERIF, "harness", prop + ".cpp")
        self.harnesses, self.bounds, self.assumptions, self.outside, self.defs, self.findings = [], [], [], [], [], []
        for line in open(self.file):
            m = re.match(r"\s*//@\s*(\w+)\s*(.*)", line)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k in ("harness", "finding"):
                w = v.split()
                h = {"name": w[0], "kind": k}
                for x in w[1:]:
                    a, _, b = x.partition("=")
                    h[a] = b
                (self.harnesses if k == "harness" else self.findings).append(h)
            elif k == "bounds": self.bounds.append(v)
            elif k == "assume": self.assumptions.append(v)
            elif k == "outside": self.outside.append(v)
            elif k == "defs": self.defs += [x.replace("@/", os.path.join(VERIF, "harness") + "/") for x in v.split()]


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith((".cpp", ".cc", ".c")) and f != "main.cpp":
                out.append(os.path.join(d, f))
    return sorted(out)


def build_engine(tmp):
    b = os.environ.get("SYMX_BUILD", os.path.join(tmp, "engine"))
    rc, out = run(["make", "-s", "-j3", "-C", ENG, "B=" + b])
    if rc:
        raise RuntimeError("engine build failed:\n" + out)
    return os.path.join(b, "symx")


def compile_all(pool, tmp, cfg, tier):
    """returns futures for bitcode files and native objects"""
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + ENG, "-I" + os.path.join(VERIF, "harness")]
    defs = cfg.defs + ["-DTHOROUGH=%d" % (tier == "thorough")]

    def cc(src, obj, flags):
        rc, out = run(["clang++-18"] + flags + inc + defs + ["-o", obj, src])
        if rc:
            raise RuntimeError("compiling %s failed:\n%s" % (src, out))
        return obj

    bc, nat = [], []
    srcs = [cfg.file] + sources()
    for i, s in enumerate(srcs + [os.path.join(ENG, "rt.cpp")]):
        fl = IRFLAGS + (["-fno-builtin"] if s.endswith("/rt.cpp") else [])
        bc.append(pool.submit(cc, s, os.path.join(tmp, "b%d.bc" % i), fl))
    for i, s in enumerate(srcs + [os.path.join(ENG, "native.cpp")]):
        nat.append(pool.submit(cc, s, os.path.join(tmp, "n%d.o" % i), NATFLAGS + SAN + ["-c"]))
    return bc, nat


class Native:
    def __init__(self, tmp, cfg, tier, futs):
        self.tmp, self.cfg, self.tier, self.futs = tmp, cfg, tier, futs
        self.exe = self.plain = None

    def get(self):
        if not self.exe:
            objs = [f.result() for f in self.futs]
            exe = os.path.join(self.tmp, "replay")
            rc, out = run(["clang++-18"] + SAN + ["-rdynamic", "-o", exe] + objs + ["-ldl"])
            if rc:
                raise RuntimeError("linking the replay failed:\n" + out)
            self.exe = exe
        return self.exe

    def getPlain(self):
        if not self.plain:
            exe = os.path.join(self.tmp, "replay_plain")
            srcs = [self.cfg.file] + sources() + [os.path.join(ENG, "native.cpp")]
            inc = ["-I" + os.path.join(REPO, "src"), "-I" + ENG, "-I" + os.path.join(VERIF, "harness")]
            rc, out = run(["clang++-18", "-std=gnu++17", "-DNATIVE", "-O0", "-g1", "-w", "-Wno-c++11-narrowing", "-rdynamic"] + inc + self.cfg.defs +
                          ["-DTHOROUGH=%d" % (self.tier == "thorough"), "-o", exe] + srcs + ["-ldl"])
            if rc:
                raise RuntimeError("building the plain replay failed:\n" + out)
            self.plain = exe
        return self.plain

    def replay(self, harness, inputs, uninit=False):
        """-> (reproduced, exitcode, output)"""
        f = tempfile.NamedTemporaryFile("w", dir=self.tmp, delete=False, suffix=".in")
        for n, b, v in inputs:
            f.write("%s %d %s\n" % (n.replace(" ", "_"), b, v))
        f.close()
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=78")
        rc, out = run([self.get(), harness, f.name], timeout=60, env=env)
        if rc in (0, 43, 44) and uninit:
            rc, out = run(["valgrind", "-q", "--error-exitcode=79", self.getPlain(), harness, f.name], timeout=120)
        return rc not in (0, 2, 43, 44), rc, out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    cfg = Cfg(prop)
    tmp = tempfile.mkdtemp(prefix="symx_%s_" % prop)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for f in os.listdir(evdir):
        if f.startswith(prop + ".replay"):
            os.unlink(os.path.join(evdir, f))
    try:
        return check(prop, tier, cfg, tmp, evdir, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, cfg, tmp, evdir, only):
    budget = 270.0 if tier == "quick" else 780.0
    pool = ThreadPoolExecutor(NCPU)
    feng = pool.submit(build_engine, tmp)
    bcf, natf = compile_all(pool, tmp, cfg, tier)
    notes = []
    bcs = [f.result() for f in bcf]
    symx = feng.result()
    linked = os.path.join(tmp, "all.bc")
    rc, out = run(["llvm-link-18", "-o", linked] + bcs)
    if rc:
        raise RuntimeError("llvm-link failed:\n" + out)
    log("built engine and bitcode of %d sources" % len(sources()))
    native = Native(tmp, cfg, tier, natf)

    jobs = []
    hs = [h for h in cfg.harnesses + cfg.findings if not only or h["name"] in only]
    for h in hs:
        if tier == "quick" and h.get("tier") == "thorough":
            continue
        parts = int(h.get("parts", 1)) if tier == "quick" else int(h.get("tparts", h.get("parts", 1)))
        tl = float(h.get("time", 120)) if tier == "quick" else float(h.get("ttime", 500))
        for p in range(parts):
            jobs.append((h, p, parts, tl))

    def work(j):
        h, p, parts, tl = j
        tl = max(5.0, min(tl, budget - (time.time() - T0) - 30))
        o = os.path.join(tmp, "r_%s_%d.json" % (h["name"], p))
        cmd = [symx, "--harness", h["name"], "--out", o, "--time", str(tl), "--part", "%d/%d" % (p, parts),
               "--part-depth", h.get("pdepth", "8"), "--steps", h.get("steps", "3000000"), "--qtimeout", h.get("qtimeout", "20000"),
               "--samples", h.get("samples", "6"), "--src-root", os.path.join(REPO, "src") + "/", "--seed", str(SEED), linked]
        rc, out = run(cmd, timeout=tl + 90)
        try:
            r = json.load(open(o))
        except Exception:
            return j, None, "engine failed (rc=%d): %s" % (rc, out[-600:])
        return j, r, out

    results = list(pool.map(work, jobs))
    tot = dict(paths=0, queries=0, solver_s=0.0, steps=0, asserts=0, forks=0)
    functions, perh = set(), {}
    viols, samples = [], []
    for (h, p, parts, tl), r, msg in results:
        d = perh.setdefault(h["name"], dict(complete=True, paths=0, reached=set(), expected=set(), why=[], queries=0, asserts=0))
        if r is None:
            d["complete"] = False
            d["why"].append(msg)
            continue
        d["paths"] += r["paths"]
        d["queries"] += r["queries"]
        d["asserts"] += r.get("asserts", 0)
        d["reached"] |= set(r["reached"])
        d["expected"] |= set(r["expected"])
        if not r["complete"]:
            d["complete"] = False
            d["why"].append(json.dumps({k: r[k] for k in r if k in ("timed_out", "undecided", "unknown_branch", "dropped", "unsupported") and r[k]}))
        for k in tot:
            tot[k] += r.get(k, 0)
        functions |= set(r["functions"])
        for v in r["violations"]:
            viols.append((h, v))
        for s in r["samples"]:
            samples.append((h, s))
    inconclusive = []
    for n, d in perh.items():
        miss = sorted(d["expected"] - d["reached"])
        log("harness %-34s paths=%-7d queries=%-7d asserts=%-8d %s%s" % (n, d["paths"], d["queries"], d["asserts"], "complete" if d["complete"] else "INCOMPLETE " + "; ".join(d["why"])[:600],
            (" NOT-REACHED " + ",".join(miss)) if miss else ""))
        if not d["complete"]:
            inconclusive.append("%s: exploration incomplete: %s" % (n, "; ".join(d["why"])[:300]))
        if miss:
            inconclusive.append("%s: witness never reached: %s" % (n, ",".join(miss)))

    # ---- replay counterexamples against the real code
    seen, confirmed, known = set(), [], []
    viols.sort(key=lambda x: (x[0]["name"], x[1]["msg"]))
    perkey = {}
    for h, v in viols:
        key = (h["name"], v["kind"], v["msg"], v["where"])
        if perkey.get(key, 0) >= 3 or key in seen:
            continue
        perkey[key] = perkey.get(key, 0) + 1
        ok, rc, out = native.replay(h["name"], v["inputs"], v["kind"] == "uninit")
        desc = "%s: %s [%s] at %s" % (h["name"], v["msg"], v["kind"], v["where"])
        if not ok:
            log("counterexample did not reproduce natively (rc=%d): %s\n%s" % (rc, desc, json.dumps(v["inputs"])[:600]))
            log(out[-400:])
            inconclusive.append("not reproduced: " + desc)
            continue
        seen.add(key)
        if h["kind"] == "finding":
            known.append((h, v))
        else:
            confirmed.append((h, v, rc, out))
    # ---- conformance: sampled paths, replayed natively, must show the same observations
    validated = mismatched = 0

    def conf(hs):
        h, s = hs
        rc, rc2, out = native.replay(h["name"], s["inputs"])
        obs = re.findall(r"^OBS (\S+) (\S+)$", out, re.M)
        want = [(o[0], "%x" % int(o[2], 16)) for o in s["obs"]]
        return h, s, (rc2 == 0 and obs == want), rc2, out, want
    if samples:
        native.get()
        for h, s, ok, rc2, out, want in pool.map(conf, samples):
            if ok:
                validated += 1
            elif not any(c[0]["name"] == h["name"] for c in confirmed):
                mismatched += 1
                log("conformance mismatch in %s (rc=%d)\n want %s\n%s\n inputs %s" % (h["name"], rc2, want, out[-1500:], json.dumps(s["inputs"])[:500]))
                inconclusive.append("conformance mismatch in " + h["name"])

    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["forks"], "transitions": tot["steps"],
            "traces_validated_against_impl": validated,
            "samples": [{"harness": h["name"], "inputs": s["inputs"][:40], "observed": s["obs"][:20]} for h, s in samples[:6]] or [{"harness": h["name"]} for h in hs[:1]],
            "meaning": "states = symbolic path states (completed paths + forks); transitions = IR instructions executed symbolically; every assertion on every path is decided by z3 over all values of the symbolic inputs",
            "paths": tot["paths"], "assertions_checked": tot["asserts"], "solver_queries": tot["queries"], "solver_seconds": round(tot["solver_s"], 2),
            "functions_encoded": sorted(functions), "functions_encoded_count": len(functions),
            "harnesses": {n: {"paths": d["paths"], "queries": d["queries"], "complete": d["complete"], "witnesses": sorted(d["reached"])} for n, d in perh.items()},
            "bounds": cfg.bounds, "outside_the_claim": cfg.outside,
            "exhaustive": not inconclusive, "inconclusive": inconclusive,
            "conformance_mismatches": mismatched,
        },
        "assumptions": cfg.assumptions,
        "violations": len(confirmed), "wall_s": round(time.time() - T0, 2),
    }
    for h, v in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, h["name"], v["msg"]))
    for i, (h, v, rc, out) in enumerate(confirmed):
        path = os.path.join(evdir, "%s.replay%d.txt" % (prop, i))
        with open(path, "w") as f:
            f.write("property %s\nharness %s\nkind %s\nmessage %s\nwhere %s\n" % (prop, h["name"], v["kind"], v["msg"], v["where"]))
            f.write("call trace\n  " + "\n  ".join(v["trace"]) + "\ninputs (name bits hex)\n")
            for n, b, x in v["inputs"]:
                f.write("  %s %d %s\n" % (n, b, x))
            f.write("native replay: exit code %d\n%s\n" % (rc, out[-4000:]))
        log("violated: %s: %s [%s] at %s" % (h["name"], v["msg"], v["kind"], v["where"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for n in inconclusive:
        print("INCONCLUSIVE: " + n)
    if not only:
        json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    log("paths=%d queries=%d solver=%.1fs validated=%d violations=%d" % (tot["paths"], tot["queries"], tot["solver_s"], validated, len(confirmed)))
    pool.shutdown(wait=False)
    return 1 if confirmed else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # the machinery itself failed: no verdict, and no alarm
        import traceback
        traceback.print_exc()
        print("INCONCLUSIVE: " + str(e)[:2000])
        rc = 0
    sys.stdout.flush()
    os._exit(rc)
