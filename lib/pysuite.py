"""Property P16: builds the library under monitors as the shared object the Python wrapper loads, and runs pyx/pyexp.py on it."""
import os, sys, json, subprocess, shutil, time
import build
from concurrent.futures import ThreadPoolExecutor
PY = "/usr/bin/python3"

def build_py():
    lib, d, key = build.build_lib("realsan")
    shim = os.path.join(build.VERIF, "pyx", "shim.c"); k2 = build.tree_hash([shim, os.path.join(build.VERIF, "pyx", "newdel.cc")], key)
    out = os.path.join(d, "pylib"); stamp = os.path.join(out, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == k2: return out
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    env = dict(os.environ, OMPI_CC="gcc", OMPI_CXX="g++")
    real = os.path.join(out, "libconviqt_real.so")
    build.run(["mpicxx", "-shared", "-o", real, "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"] + build.VARIANTS["realsan"][3] + ["-lcfitsio", "-lm"], env=env)
    build.run(["mpicc", "-shared", "-fPIC", "-O1", "-w", "-o", os.path.join(out, "_conviqt.so"), shim, "-L" + out, "-Wl,--no-as-needed", "-lconviqt_real", "-ldl", "-Wl,-rpath,$ORIGIN"], env=env)
    build.run(["g++", "-shared", "-fPIC", "-O1", "-o", os.path.join(out, "newdel.so"), os.path.join(build.VERIF, "pyx", "newdel.cc")])
    open(stamp, "w").write(k2)
    return out

def env_for(mod, lib, scratch):
    asan = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
    cxx = subprocess.check_output(["g++", "-print-file-name=libstdc++.so.6"], text=True).strip()  # or the monitor misses __cxa_throw
    e = mod.environment("", scratch, mod.OMPI)
    e.update(LD_PRELOAD=os.path.join(lib, "newdel.so") + ":" + os.path.realpath(asan) + ":" + os.path.realpath(cxx), LD_LIBRARY_PATH=lib, PYTHONPATH=os.path.join(build.REPO, "python"), PYTHONDONTWRITEBYTECODE="1", VF_PYLIB=lib, VF_SCRATCH=scratch, PYTHONMALLOC="malloc",
             OMPI_MCA_orte_tmpdir_base=scratch)
    e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("malloc_fill_byte=255:max_malloc_fill_size=1048576:", "") + ":verify_asan_link_order=0"
    return e

def part(mod, lib, scratch, suite, depth, i, n, only, budget, ranks=0):
    """one worker; a death (sanitizer, crash, hang) is a violation of the case it was in, and the rest goes on"""
    out = os.path.join(scratch, "%s.%d.json" % (suite, i)); start = 0; before = 0; dead = []
    for _ in range(6):
        cmd = [PY, os.path.join(build.VERIF, "pyx", "pyexp.py"), suite, str(depth), str(i), str(n), out, str(only if only is not None else -1), str(start)]
        if only is None: cmd[-2:] = ["-1", str(start)]
        if ranks: cmd = ["mpirun", "--oversubscribe", "-np", str(ranks)] + cmd
        err = os.path.join(scratch, "%s.%d.err" % (suite, i))
        with open(err, "w") as fe:
            p = subprocess.Popen(cmd, env=env_for(mod, lib, scratch), stdout=fe, stderr=fe, stdin=subprocess.DEVNULL, cwd=scratch, start_new_session=True)
            try: rc = p.wait(timeout=budget)
            except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.wait(); rc = -9
        if rc == 0 and os.path.exists(out):
            r = json.load(open(out)); os.unlink(out)
            r["cases"] += before; r["nontrivial"] += before; r["violations"] += dead; return r
        try: at, desc = open(out + ".at").read().split("\n")[0].split("\t", 1); at = int(at)
        except Exception: at, desc = -1, "start of suite %s" % suite
        text = mod.tail(err, 60000); i0 = text.find("ERROR: AddressSanitizer"); i0 = i0 if i0 >= 0 else text.find("runtime error")
        dead.append({"case": at, "describe": desc, "key": "died", "message": ("no answer within %d s" % budget if rc == -9 else "the process died (rc %s)" % rc) + ": " + (text[max(i0 - 100, 0):i0 + 1200] if i0 >= 0 else text[-900:]), "log": ""})
        if at < 0 or only is not None or rc == -9 or ranks: break
        before += (at - start) // n; start = at + 1
    return dict(total=1, cases=0, nontrivial=0, violations=dead, samples=[], wall=0)

SUITES = {"quick": [("seq", 3, 8, 0), ("faults", 1, 8, 0), ("ranks", 0, 1, 2), ("ranks", 0, 1, 3)], "thorough": [("seq", 4, 8, 0), ("faults", 2, 8, 0), ("ranks", 0, 1, 2), ("ranks", 0, 1, 3), ("ranks", 0, 1, 4)]}
def run(mod, tier, scratch, rp):
    lib = build_py(); total = dict(total=0, nontrivial=0, cases=0, execs=0, ops=0, points=0, distinct_outcomes=0, cutoff=0); viol = []; samples = []; per = []
    for suite, depth, n, ranks in SUITES[tier]:
        name = suite + (str(ranks) if ranks else "")
        if rp and rp["suite"] != name: continue
        t = time.time(); budget = 700 if tier == "quick" else 20000
        with ThreadPoolExecutor(build.JOBS) as ex:
            rs = list(ex.map(lambda i: part(mod, lib, scratch, suite, depth, i, n, rp["case"] if rp and rp["case"] >= 0 else None, budget, ranks), range(n)))
        cases = sum(r["cases"] for r in rs); nt = sum(r["nontrivial"] for r in rs); tot = max(r["total"] for r in rs); v = []
        seen = set()
        for r in rs:
            for x in r["violations"]:
                x["suite"] = name
                if (x["case"], x["message"]) not in seen: seen.add((x["case"], x["message"])); v.append(x)
            samples += ["%s: %s" % (name, x) for x in r["samples"][:1]]
        viol += v; total["total"] += tot; total["cases"] += cases; total["nontrivial"] += nt; total["execs"] += cases
        per.append({"suite": name, "cases": cases, "of": tot, "seconds": round(time.time() - t, 1)})
        print("P16 %s: %d of %d cases, %d violations, %.1fs" % (name, cases, tot, len(v), time.time() - t), flush=True)
    return dict(total=total, violations=viol, known={}, samples=samples[:12], per=per, traces=sum(p["cases"] for p in per if p["suite"].startswith("ranks")))
