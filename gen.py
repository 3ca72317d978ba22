#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the lists below and from scenarios.py."""
import json, subprocess
from scenarios import PROPS
from properties import ALL, NOT_APPLICABLE

ids = [p["id"] for p in ALL]
assert len(set(ids)) == len(ids)
with open("properties.jsonl", "w") as f:
    for p in ALL:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif")]
checks = []
for p in ALL:
    i = p["id"]
    if i not in PROPS:
        assert i in NOT_APPLICABLE, i
        continue
    s = PROPS[i]
    note = ("Every input within the bounds: " + "; ".join(n for sc in s["scenarios"] for _, n in sc["quick"]) + ". Outside: " + s["outside"] +
            ". Trusts rustc's LLVM IR, the symbolic executor (paths sampled and re-run natively each time) and Z3.")
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "symbolic execution of the LLVM IR of /repo's code, assertions decided by Z3 for all values within bounds, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": note,
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 build.py",
    "hooks": {"guard": "cfg(ced_verif)", "enable": "RUSTFLAGS='--cfg ced_verif' (set by build.py)", "source_commits": hooks[::-1]},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(NOT_APPLICABLE), "not applicable")


# DESIGN.md: what is between the markers
import glob, re
MOD = {1: "text", 2: "text", 3: "text", 4: "text", 5: "text", 6: "text", 7: "text", 8: "text", 9: "text", 10: "editor", 11: "requests", 12: "menus", 13: "scripts", 20: "remote", 30: "ffi", 40: "server",
       41: "misc", 42: "tui", 43: "threads"}
out = []
for p in ALL:
    i = p["id"]
    if i not in PROPS:
        continue
    s = PROPS[i]
    out.append("### %s: %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    out.append("*Why not by tests:* %s\n*Code:* %s.\n*Observed:* %s.\n" % (p["why_tests_cant"].rstrip(".") + ".", "; ".join("%s (`%s`)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]),
               ", ".join(p["anchors"].get("observe_at", ["the result"]))))
    out.append("| scenario | quick | thorough |\n|---|---|---|")
    for sc in s["scenarios"]:
        f = lambda l: "<br>".join("%s (%d)" % (n, k) for k, n in l)
        out.append("| %d, `%s.rs`: %s | %s | %s |" % (sc["idx"], MOD[sc["idx"] // 100], sc["what"], f(sc["quick"]), "the same" if sc["thorough"] == sc["quick"] else f(sc["thorough"])))
    out.append("\n*Outside:* " + s["outside"] + ".")
    if s.get("assumptions"):
        out.append("*Assumed:* " + "; ".join(s["assumptions"]) + ".")
    out.append("")
seeds = ["| bug | property | what it breaks | what it needs |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.append("| %s | %s | %s | %s |" % (d.split("/")[1], m["property"], m["what_it_breaks"], m["needs"]))
found = ["| property | commit | what failed |", "|---|---|---|"]
for l in open("known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        found.append("| %s | %s | %s |" % m.groups())
t = open("DESIGN.md").read()
for k, v in (("properties", out), ("na", ["* **%s**: %s." % x for x in NOT_APPLICABLE.items()] or ["No property of `properties.jsonl`: each has a check."]), ("findings", found), ("seeds", seeds)):
    t = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (k, k), lambda m: m.group(1) + "\n" + "\n".join(v).strip() + "\n\n" + m.group(2), t, flags=re.S)
open("DESIGN.md", "w").write(t)
