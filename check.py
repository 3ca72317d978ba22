#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution of /repo's code.
check.py --replay FILE: runs one recorded counterexample natively against /repo's code."""
import fcntl, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import build
from scenarios import PROPS

W = "/tmp/cedsym-w"
LOCK = "/tmp/cedsym.lock"


def say(*a):
    print(*a, flush=True)


class Native:
    """Runs of the real build, one at a time, in a scratch directory that is removed afterwards."""

    def __init__(self, binary):
        self.binary = binary
        self.runs = 0

    def run(self, idx, arg, inputs, timeout=20):
        self.runs += 1
        with open(LOCK, "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            shutil.rmtree(W, ignore_errors=True)
            os.makedirs(W)
            env = {"CEDSYM_INPUTS": inputs, "CEDSYM_IDX": str(idx), "CEDSYM_ARG": str(arg), "USER": "u", "TMPDIR": "/tmp/cedsym-w/t",
                   "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": W}
            if os.environ.get("CEDSYM_VERBOSE"):
                env["CEDSYM_VERBOSE"] = "1"
            try:
                p = subprocess.Popen([""], executable=self.binary, cwd=W, env=env, stdin=subprocess.DEVNULL,
                                     stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
                try:
                    _, err = p.communicate(timeout=timeout)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    _, err = p.communicate()
                    rc = "timeout"
            finally:
                shutil.rmtree(W, ignore_errors=True)
        lines = [x[7:] for x in err.decode(errors="replace").split("\n") if x.startswith("CEDSYM ")]
        done = [x[5:] for x in lines if x.startswith("DONE ")]
        return {
            "rc": rc,
            "done": done[0] if done else None,
            "asserts": [x[7:] for x in lines if x.startswith("ASSERT ")],
            "panics": [x[6:] for x in lines if x.startswith("PANIC ")],
            "invalid": rc in (3, 4),
            "lines": lines,
        }


def failed(r):
    if r["invalid"]:
        return None
    if r["asserts"]:
        return "assertion failed: " + r["asserts"][0]
    if r["panics"]:
        return "panic: " + r["panics"][0]
    if r["rc"] == "timeout":
        return "does not terminate"
    if r["rc"] != 0:
        return "ended with status %s" % r["rc"]
    return None


def demangle(n):
    if n.startswith("_ZN"):
        out, k = [], 3
        while k < len(n) and n[k].isdigit():
            m = re.match(r"\d+", n[k:])
            w = int(m.group(0))
            k += len(m.group(0))
            out.append(n[k:k + w])
            k += w
        s = "::".join(x for x in out if not re.fullmatch(r"h[0-9a-f]{16}", x))
        for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("..", "::"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}")):
            s = s.replace(a, b)
        return s
    if n.startswith("_R"):
        return "::".join(re.findall(r"\d+([A-Za-z_][A-Za-z_0-9]*)", n)) or n
    return n


def findings():
    """known_findings.txt: finding: property=<id> scenario=<idx> match=<regex on the failure> | <what fails>"""
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\d+) match=(.*?) \| (.*)", l.strip())
            if m:
                out.append((m.group(1), int(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    if sys.argv[1] == "--replay":
        b = build.build_all()
        r = json.load(open(sys.argv[2]))
        res = Native(b["native"]).run(r["idx"], r["arg"], r["inputs"])
        say("\n".join(res["lines"]))
        f = failed(res)
        say("reproduced: " + f if f else "not reproduced")
        sys.exit(1 if f else 0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    b = build.build_all()
    nat = Native(b["native"])
    out = os.path.join(build.B, "run-" + prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    ev = os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith(prop + "-replay-"):
            os.remove(os.path.join(ev, f))
    known = [k for k in findings() if k[0] == prop]
    tot = {}
    errors, viols, matched, samples, funcs, runs, asserts, validated = [], [], {}, [], set(), [], {}, 0
    budget = spec.get("budget", {}).get(tier, 700 if tier == "quick" else 3000)
    seen_covers, want_covers = {}, set()
    for sc in spec["scenarios"]:
        for k, (param, note) in enumerate(sc[tier]):
            arg = (sc.get("hash", seed) << 32) | param
            res = os.path.join(out, "%d-%d.json" % (sc["idx"], k))
            left = max(20, int(budget - (time.time() - t0)))
            cmd = [b["engine"], "--ir", b["ir"], "--entry", "cedsym_entry", "--idx", str(sc["idx"]), "--arg", str(arg), "--jobs", str(os.cpu_count() or 4),
                   "--time", str(left), "--out", res, "--cwd", W, "--pass", build.REPO, "--samples", "12", "--seed", str(seed), "--max-viol", "60",
                   "--max-insns", str(sc.get("max_insns", 400_000_000))]
            say("scenario %d (%s): %s" % (sc["idx"], sc["what"], note))
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)
            if p.returncode != 0 or not os.path.exists(res):
                errors.append("engine failed on scenario %d: %s" % (sc["idx"], p.stdout.decode(errors="replace")[-600:]))
                continue
            o = json.load(open(res))
            for x in ("paths", "discarded", "insns", "forks", "asserts", "asserts_symbolic", "concretizations", "z3_queries", "z3_sat", "z3_unsat",
                      "z3_unknown", "z3_us", "dom_queries", "cross_checked"):
                tot[x] = tot.get(x, 0) + o[x]
            for x, n in o["covers"].items():
                seen_covers[x] = seen_covers.get(x, 0) + n
            for x, n in o["asserts_by_tag"].items():
                a = asserts.setdefault(x, [0, 0])
                a[0] += n[0]
                a[1] += n[1]
            funcs.update(o["functions"])
            say("  paths %d, assertions %d (%d symbolic), solver queries %d + %d by enumeration, %.1fs" %
                (o["paths"], o["asserts"], o["asserts_symbolic"], o["z3_queries"], o["dom_queries"], o["wall_s"]))
            runs.append({"scenario": sc["idx"], "what": sc["what"], "bounds": note, "paths": o["paths"], "assertions": o["asserts"], "wall_s": o["wall_s"], "complete": o["complete"]})
            bad = bool(o["violations"])
            if not o["complete"]:
                errors.append("scenario %d incomplete: %s" % (sc["idx"], "; ".join("%s x%d" % (x["what"][:300], x["count"]) for x in o["problems"][:4])))
            if o["z3_unknown"]:
                errors.append("scenario %d: solver gave no answer %d times" % (sc["idx"], o["z3_unknown"]))
            # counterexamples, replayed against the real build
            for v in o["violations"]:
                hit = None
                for c in v["cases"]:
                    r = nat.run(sc["idx"], arg, c["inputs"])
                    f = failed(r)
                    if f:
                        hit = (c, f)
                        break
                desc = "%s: %s" % (v["kind"], v["msg"])
                if not hit:
                    errors.append("scenario %d: counterexample does not reproduce natively: %s %s" % (sc["idx"], desc, v["cases"][0] if v["cases"] else ""))
                    continue
                kf = [x for x in known if x[1] == sc["idx"] and x[2].search(hit[1])]
                if kf:
                    matched[kf[0][3]] = matched.get(kf[0][3], 0) + v["count"]
                    continue
                path = os.path.join(ev, "%s-replay-%d.json" % (prop, len(viols)))
                json.dump({"property": prop, "idx": sc["idx"], "arg": arg, "inputs": hit[0]["inputs"], "what": hit[1], "symbolic": desc, "paths_failing": v["count"],
                           "scenario": sc["what"], "stack": hit[0].get("stack", "")}, open(path, "w"), indent=1)
                viols.append((path, hit[1]))
            # some explored paths, run natively: the observations must be the same
            for s in o["samples"]:
                r = nat.run(sc["idx"], arg, s["inputs"])
                if r["done"] == s["obs"] and not failed(r):
                    validated += 1
                elif not bad:
                    errors.append("scenario %d: the real build disagrees with the encoding on inputs %s: %s" % (sc["idx"], s["inputs"], r["lines"][-3:]))
                    break
            if len(samples) < 6:
                samples += [{"scenario": sc["what"], "inputs": s["inputs"], "observations": s["obs"]} for s in o["samples"][:2]]
            want_covers.update(sc.get("covers", []))
            if viols and len(viols) > 5:
                break
    missing = [c for c in want_covers if not seen_covers.get(c)]
    if missing and not viols:
        errors.append("never reached (vacuous): " + ", ".join(sorted(missing)))
    shutil.rmtree(out, ignore_errors=True)
    own = sorted({demangle(f) for f in funcs if re.search(r"(3ced|10ced_remote|6remote)\d", f) and "harness" not in f})
    wall = time.time() - t0
    cov = {
        "states": tot.get("paths", 0),
        "transitions": tot.get("forks", 0),
        "traces_validated_against_impl": validated,
        "samples": samples or ["none"],
        "runs": runs,
        "assertions_by_property_part": asserts,
        "assertions_evaluated": tot.get("asserts", 0),
        "assertions_with_symbolic_operands": tot.get("asserts_symbolic", 0),
        "solver_queries_z3": tot.get("z3_queries", 0),
        "solver_sat": tot.get("z3_sat", 0),
        "solver_unsat": tot.get("z3_unsat", 0),
        "solver_unknown": tot.get("z3_unknown", 0),
        "solver_seconds": round(tot.get("z3_us", 0) / 1e6, 3),
        "queries_decided_by_exhaustive_evaluation_of_small_domains": tot.get("dom_queries", 0),
        "of_which_cross_checked_with_z3": tot.get("cross_checked", 0),
        "instructions_executed": tot.get("insns", 0),
        "paths_discarded_by_assumptions": tot.get("discarded", 0),
        "functions_encoded": len(funcs),
        "functions_of_ced_encoded": own,
        "reachability_witnesses": seen_covers,
        "bounds": [r["bounds"] for r in runs],
        "outside": spec.get("outside", ""),
        "exhaustive": not errors,
        "native_runs": nat.runs,
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall, 2),
               "violations": len(viols), "assumptions": spec.get("assumptions", []) + COMMON}, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    for m, n in matched.items():
        say("KNOWN-FINDING: property=%s %s" % (prop, m))
    for e in errors:
        say("ERROR: " + e)
    for path, f in viols:
        say("  " + f)
        say("VIOLATION property=%s replay=%s" % (prop, path))
    say("%s %s: %d paths, %d assertions, %d validated natively, %.1fs" % (prop, tier, tot.get("paths", 0), tot.get("asserts", 0), validated, wall))
    sys.exit(1 if viols else 2 if errors else 0)


COMMON = [
    "the encoding is the LLVM IR rustc produces for /repo's crates, their dependencies and the standard library (and clang's for Lua), at opt-level 1 with overflow checks",
    "one thread; allocation never fails; the clock is strictly increasing; files are a model file system; HashMap seeds are fixed",
    "the symbolic executor and Z3 are trusted; sampled paths are re-run natively and must give the same observations",
]

if __name__ == "__main__":
    main()
