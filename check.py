#!/usr/bin/env python3
"""check.py ID [--replay FILE]  -- decide one property; see DESIGN.md

Rebuilds the harnesses of the property from /repo's working tree, runs their generated-input searches, rewrites
evidence/ID.json. Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not run.
"""
import os, sys, json, time, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/lib")
import vbuild
from registry import CHECKS

def main():
    pid = sys.argv[1]
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    only = os.environ.get("VERIF_ONLY")         # development: a single sub-check
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:allow_user_segv_handler=1",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", MALLOC_ARENA_MAX="2")
    os.makedirs(HERE + "/build/replay", exist_ok=True)
    work = tempfile.mkdtemp(prefix="w.%s." % pid, dir=HERE + "/build/replay")
    env["VERIF_DIR"] = HERE
    env["REPO_DIR"] = vbuild.REPO

    bins = {}
    def binary(part):
        key = part["src"] + "|" + part["profile"]
        if key not in bins:
            bins[key] = vbuild.build(os.path.splitext(os.path.basename(part["src"]))[0], [part["src"]], part["sets"], part["profile"],
                                     libs=tuple(part.get("libs", ["-lsecp256k1"])))
        return bins[key]

    if "--replay" in sys.argv:
        f = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        name = open(f).readline().split()[1]
        for part in chk["parts"]:
            if name in part["props"]:
                r = subprocess.run([binary(part), "--replay", f, "--work", work], env=env, cwd=work)
                shutil.rmtree(work)
                if r.returncode == 1:
                    print("VIOLATION property=%s replay=%s" % (pid, f))
                return r.returncode
        print("no part of %s has the property %s" % (pid, name))
        return 2

    evals = nontriv = 0
    samples, details, violations, errors = [], [], [], []
    try:
        for part in chk["parts"]:
            binary(part)
    except vbuild.BuildError as ex:
        print("BUILD-ERROR %s" % ex)
        shutil.rmtree(work)
        return 2
    t_build = time.time() - t0
    known = [k for k in json.load(open(HERE + "/known_findings.json")) if k["property"] == pid and k["status"] == "known"]
    n_known = 0
    for k in known:
        for part in chk["parts"]:
            if k["reproducer"] in part.get("findings", []):
                r = subprocess.run([binary(part), "--finding", k["reproducer"], "--work", work + "/f"], env=env, cwd=work, capture_output=True, text=True)
                if r.returncode == 1:
                    n_known += 1
                    print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                elif r.returncode != 0:
                    errors.append("finding %s: exit %d" % (k["reproducer"], r.returncode))
                break
    for part in chk["parts"]:
        b = binary(part)
        for name, budget in part["props"].items():
            if only and name not in only.split(","):
                continue
            cases, cap = budget[tier][0], budget[tier][1]
            out = work + "/out.json"
            if os.path.exists(out):
                os.remove(out)
            w = "%s/%s" % (work, name)
            r = subprocess.run([b, "--prop", name, "--seed", str(seed), "--cases", str(max(1, int(cases * scale))), "--time", str(cap),
                                "--out", out, "--work", w, "--jobs", str(part.get("jobs", vbuild.JOBS))], env=env, cwd=work, capture_output=True, text=True)
            try:
                res = json.load(open(out))
            except Exception as ex:
                errors.append("%s: exit %d, no result (%s) %s" % (name, r.returncode, ex, r.stderr[-500:]))
                continue
            evals += res["evaluations"]
            nontriv += res["distinct_nontrivial"]
            samples += [{"sub_check": name, "case": s} for s in res["samples"][:2]]
            details.append({"sub_check": name, "what": budget.get("what", ""), "profile": part["profile"], "evaluations": res["evaluations"], "requested": res["requested"],
                            "distinct_nontrivial": res["distinct_nontrivial"], "wall_s": round(res["wall_s"], 2), "labels": res["labels"]})
            if "NOT-REPRODUCED" in r.stdout:
                print(r.stdout.strip())
                errors.append("%s: a failure did not reproduce" % name)
            if res["failed"]:
                dst = "%s/build/replay/%s_%s" % (HERE, pid, os.path.basename(res["replay"]))
                os.replace(res["replay"], dst)
                print("sub-check %s: %s\n%s" % (name, res["message"], res["log"]))
                violations.append(dst)
                break
            if res["evaluations"] and res["distinct_nontrivial"] == 0 and not only:
                errors.append("%s: no non-trivial case among %d" % (name, res["evaluations"]))
        if violations:
            break
    shutil.rmtree(work)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": chk["level"],
        "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": chk["rule"], "samples": samples[:12], "sub_checks": details,
                     "known_findings_present": n_known, "build_s": round(t_build, 1), "errors": errors},
        "assumptions": chk["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, pid), "w") as f:
        json.dump(ev, f, indent=1)
    for v in violations:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(v, HERE)))
    if violations:
        return 1
    if errors:
        print("CHECK-ERROR %s" % "; ".join(errors))
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d build=%.0fs total=%.0fs" % (pid, tier, seed, evals, nontriv, t_build, time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
