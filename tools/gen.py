#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md
from tools/table.py and the directives at the top of each harness."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import P
try:
    from table import NA
except ImportError:
    NA = {}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the compiled code (LLVM IR from /repo's sources) with every assertion decided by an SMT solver (z3); counterexamples replayed natively"
checks, na, props, sect = [], [], [], []
for p in sorted(P, key=lambda p: p["id"]):
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert len(re.findall(r"\.(?: |$)", p["statement"])) <= 3, p["id"]
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]},
                  "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
    h = os.path.join(V, "harness", p["id"] + ".cpp")
    if p["id"] in NA or not os.path.exists(h):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
        sect.append("### %s %s\n\n%s\n\nNot decided: %s\n" % (p["id"], p["title"], p["statement"], na[-1]["reason"]))
        continue
    d = {}
    src = open(h).read()
    for m in re.finditer(r"^//@ (\w+) (.*)$", src, re.M):
        d.setdefault(m.group(1), []).append(m.group(2).strip())
    bounds, ass, out = (" ".join(d.get(k, ["none stated"])) for k in ("bounds", "assume", "outside"))
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": TECH, "level": "model_checking",
                   "level_note": "Every assertion is decided by the solver for all values of the symbolic inputs within the bounds: %s. Assumes: %s. Outside the claim: %s. Trusts clang's IR, the runtime models in engine/rt.cpp (spot-checked by native replay of sampled paths) and z3." % (bounds, ass, out)})
    names = [x.split()[0] for x in d.get("harness", [])]
    what = []
    for m in re.finditer(r'(?:CHECK|sym_assert)\((?:[^"\\]|\\.|"(?=[^"]*"[^"]*;))*?"([^"]*)"\);', src):
        if m.group(1) not in what:
            what.append(m.group(1))
    sect.append("### %s %s\n\n%s\n\n- decided by: harness/%s.cpp (%s)\n- bounds: %s\n- assumes: %s\n- outside: %s\n%s" % (
        p["id"], p["title"], p["statement"], p["id"], ", ".join(names), bounds, ass, out, ("- " + p["note"] + "\n") if p["note"] else ""))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: the harnesses call the public interface and the engine reads the compiler's IR. Findings and repairs: KNOWN_FINDINGS.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
dp = os.path.join(V, "DESIGN.md")
s = open(dp).read()
a, b = "<!-- properties -->\n", "<!-- end properties -->\n"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "\n" + "\n".join(sect) + "\n" + s[j:]
sd = os.path.join(V, "seeded")
if os.path.isdir(sd):  # the table of planted bugs in DESIGN.md (documentation only)
    rows = ["| id | what is planted | needs |", "|---|---|---|"]
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, "meta.json")))
        rows.append("| %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "/").replace("\n", " "), m["needs"].replace("|", "/").replace("\n", " ")))
    a, b = "<!-- seeded -->\n", "<!-- end seeded -->"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "\n".join(rows) + "\n\n" + s[j:]
open(dp, "w").write(s)
print(len(checks), "checks,", len(na), "not applicable")
