#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE
Decides one property: builds the code under test from /repo's working tree, enumerates the suites of the property
(suites.py), replays a selection under the real MPI, writes evidence/<id>.json and reports.
Exit 0: held on everything explored; exit 1: VIOLATION line; anything else: the check itself could not run."""
import json, os, sys, time, subprocess, tempfile, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, "lib")); sys.path.insert(0, HERE)
import build, suites
FINDINGS = os.path.join(HERE, "known_findings.txt")

def known_findings():
    """lines 'KNOWN property=<id> key=<key> <text>' ; 'fixed: ...' lines document repairs and suppress nothing"""
    r = {}
    for l in open(FINDINGS):
        if l.startswith("KNOWN property="):
            p, k, t = l.strip().split(" ", 3)[1:]
            r[(p.split("=", 1)[1], k.split("=", 1)[1])] = t
    return r

ENV = {"OMP_NUM_THREADS": "1", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:malloc_fill_byte=255:max_malloc_fill_size=1048576:detect_stack_use_after_return=0:exitcode=77",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77"}
OMPI = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
        "OMPI_MCA_pml": "ob1", "OMPI_MCA_plm_rsh_agent": "/bin/false", "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_mpi_yield_when_idle": "1"}

def environment(tier, scratch, extra=None):
    e = dict(os.environ); e.update(ENV); e.update(VERIF_TIER=tier, VF_SCRATCH=scratch, TMPDIR=scratch, VF_REPO_DATA=os.path.join(build.REPO, "data")); e.update(extra or {}); return e

def load(path):
    return json.loads(open(path, errors="replace").read(), strict=False)

def tail(path, n=1500):
    try: return open(path, errors="replace").read()[-n:]
    except OSError: return ""

def run_suite(s, tier, scratch, only=None, budget=None):
    exe = build.build_harness(s["variant"], s["sources"], s["exe"], s.get("extra", ()), s.get("libs", ()))
    out = os.path.join(scratch, "out.json"); err = os.path.join(scratch, "err.txt")
    cmd = [exe, "--suite", s["suite"], "--out", out, "--jobs", str(s.get("jobs", build.JOBS))]
    if only is not None: cmd += ["--only", str(only)]
    if budget: cmd += ["--budget", str(budget)]
    hang = False
    with open(err, "w") as fe:
        try: rc = subprocess.run(cmd, env=environment(tier, scratch, s.get("env")), stdout=fe, stderr=fe, cwd=scratch, timeout=(budget or 3600) + 90, start_new_session=True).returncode
        except subprocess.TimeoutExpired: rc, hang = -9, True
    if rc != 0 or not os.path.exists(out):
        t = tail(err, 3000)
        # 3, 4: the enumeration itself failed; anything else: the code under test crashed, threw or hung outside a monitored run
        if rc in (3, 4): raise RuntimeError("harness %s failed (rc %s): %s" % (s["suite"], rc, t))
        return {"total": 1, "nontrivial": 1, "cases": 0, "execs": 0, "ops": 0, "points": 0, "distinct_outcomes": 0, "cutoff": 0, "workerfail": 0, "wall": 0, "samples": [], "known": [],
                "violations": [{"case": -1, "describe": "suite %s" % s["suite"], "key": "harness-died", "message": "the code under test %s while computing the reference executions of the suite (rc %s): %s" % ("hung" if hang else "crashed", rc, t), "log": t}]}
    r = load(out); os.unlink(out); os.unlink(err)
    return r

def run_real(s, tier, scratch, n):
    """Conformance: the same cases under the real MPI library, n processes."""
    exe = build.build_harness("real", s["sources"], s["exe"] + "_real", s.get("extra", ()), s.get("libs", ()))
    out = os.path.join(scratch, "real.json"); err = os.path.join(scratch, "err.txt")
    cmd = ["timeout", "-k", "5", "120", "mpirun", "--oversubscribe", "-np", str(n), exe, "--suite", s["suite"], "--out", out, "--want", str(s.get("want", 40))]
    with open(err, "w") as fe:
        p = subprocess.run(cmd, env=environment(tier, scratch, dict(OMPI, **s.get("env", {}))), stdout=fe, stderr=fe, cwd=scratch, stdin=subprocess.DEVNULL)
    if p.returncode or not os.path.exists(out):
        return {"replayed": 0, "violations": [{"case": -1, "describe": "real MPI run with %d ranks of suite %s" % (n, s["suite"]), "key": "real-mpi", "message": "rc %d: %s" % (p.returncode, tail(err, 800)), "log": ""}]}
    r = load(out); os.unlink(out); return r

def main():
    if sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2])); pid, tier = rp["property"], rp["tier"]
    else:
        rp = None; pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and tier == "quick" else None
    scratch = tempfile.mkdtemp(prefix="vf_", dir=base)
    spec = suites.PROPERTIES[pid]
    try:
        if spec.get("custom"):
            res = spec["custom"](sys.modules[__name__], tier, scratch, rp)
        else:
            res = run_property(pid, spec, tier, scratch, rp)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(pid, spec, tier, seed, t0, res, rp)

def run_property(pid, spec, tier, scratch, rp):
    total = dict(total=0, nontrivial=0, cases=0, execs=0, ops=0, points=0, distinct_outcomes=0, cutoff=0); viol = []; known = {}; samples = []; per = []; traces = 0
    limit = spec.get("limit", {}).get(tier, 700 if tier == "quick" else 6*3600)
    t0 = time.time()
    for s in spec["suites"]:
        if s.get("tier") and s["tier"] != tier: continue
        if rp and rp["suite"] != s["suite"]: continue
        left = limit - (time.time() - t0)
        r = run_suite(s, tier, scratch, rp["case"] if rp and rp["case"] >= 0 else None, max(left, 5))
        if r["workerfail"]: raise RuntimeError("worker of suite %s failed" % s["suite"])
        for k in total: total[k] += r.get(k, 0)
        for v in r["violations"]: v["suite"] = s["suite"]; viol.append(v)
        for k in r["known"]: q = known.setdefault(k["id"], [0, k["example"]]); q[0] += k["count"]
        samples += ["%s: %s" % (s["suite"], x) for x in r["samples"][:3]]
        per.append({"suite": s["suite"], "variant": s["variant"], "cases": r["cases"], "of": r["total"], "executions": r["execs"], "mpi_operations": r["ops"], "choice_points": r["points"], "distinct_outcomes": r["distinct_outcomes"], "seconds": r["wall"]})
        print("%s %s[%s]: %d of %d cases, %d violations, %.1fs" % (pid, s["suite"], s["variant"], r["cases"], r["total"], len(r["violations"]), r["wall"]), flush=True)
        if not rp and not viol:
            for n in s.get("real", []):
                q = run_real(s, tier, scratch, n); traces += q["replayed"]
                for v in q["violations"]: v["suite"] = s["suite"]; viol.append(v)
                print("%s %s[real MPI, %d ranks]: %d cases replayed, %d violations" % (pid, s["suite"], n, q["replayed"], len(q["violations"])), flush=True)
    return dict(total=total, violations=viol, known=known, samples=samples, per=per, traces=traces)

def report(pid, spec, tier, seed, t0, res, rp):
    t = res["total"]; findings = known_findings(); new = []
    for k, (n, ex) in sorted(res["known"].items()):
        if (pid, k) in findings: print("KNOWN-FINDING: property=%s %s [%s; %d occurrences, e.g. %s]" % (pid, findings[(pid, k)], k, n, ex))
        else: new.append({"suite": "", "case": -1, "describe": ex, "key": k, "message": "defect class %s is not listed in known_findings.txt for this property" % k, "log": ""})
    seen = {}
    for v in res["violations"]:
        if (pid, v["key"]) in findings: seen.setdefault(v["key"], v)
        else: new.append(v)
    for k, v in seen.items(): print("KNOWN-FINDING: property=%s %s [%s; e.g. %s]" % (pid, findings[(pid, k)], k, v["describe"]))
    exhaustive = t["cutoff"] == 0 and t["cases"] == t["total"]
    cov = {"exhaustive": bool(exhaustive), "samples": res["samples"][:12], "suites": res["per"], "bounds": spec["bounds"]}
    if spec["level"] == "model_checking":
        cov.update(states=t.get("states", t["distinct_outcomes"]), transitions=t.get("transitions", t["ops"]), traces_validated_against_impl=res["traces"] or t["execs"], executions=t["execs"])
    else:
        cov.update(evaluations=t["execs"], distinct_nontrivial=t["nontrivial"], rule=spec["rule"], replayed_under_real_mpi=res["traces"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if not rp:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if not new:
        print("%s: held on %d executions of %d cases (%s) in %.1fs" % (pid, t["execs"], t["cases"], "exhaustive within bounds" if exhaustive else "cut off by the time budget", time.time() - t0)); return 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True); shown = set()
    for v in new:
        kk = (v["suite"], v["message"][:60])
        if kk in shown: continue
        shown.add(kk)
        if len(shown) > 5: break
        path = os.path.join(HERE, "replays", "%s_%s_%s.json" % (pid, v["suite"] or "x", v["case"]))
        with open(path, "w") as f: json.dump(dict(v, property=pid, tier=tier), f, indent=1)
        print("  %s: %s\n    %s" % (v["suite"], v["describe"], v["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    return 1

if __name__ == "__main__":
    try: rc = main()
    except SystemExit as e: rc = e.code if e.code in (0, 1) else 2
    except BaseException: traceback.print_exc(); rc = 2
    sys.stdout.flush(); sys.exit(rc)
