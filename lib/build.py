"""Builds instrumented variants of the library from /repo's working tree into /verif/build/<variant>."""
import os, subprocess, hashlib, glob, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 8
INC = ["src", "levels/c_utils", "levels/libfftpack", "levels/cxxsupport", "levels/Healpix_cxx"]
DEF = ["-DUSE_MPI"]

def repo_sources():
    """All library sources; those the project's own build lists (Makefile.am), else every source found."""
    src = []
    for d in ["src", "levels/cxxsupport", "levels/Healpix_cxx", "levels/libfftpack", "levels/c_utils"]:
        am = os.path.join(REPO, d, "Makefile.am")
        txt = open(am).read() if os.path.exists(am) else ""
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if not f.endswith((".c", ".cc", ".cpp")) or f.startswith("test_") or f == "ffttest.c":
                continue
            if f == "fftpack_inc.c" or "parser" in f:
                continue
            if f in txt:
                src.append(os.path.join(d, f))
    return src

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout[-6000:] + "\n")
        raise SystemExit(3)
    return p.stdout

SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=null,nonnull-attribute,returns-nonnull-attribute,vptr,alignment",
       "-fno-sanitize-recover=undefined,float-cast-overflow", "-fno-omit-frame-pointer"]
SIM = os.path.join(VERIF, "sim")
VARIANTS = {
    # name: (cxx, cc, flags, link)
    "san":  ("g++", "gcc", ["-O1", "-g1", "-fopenmp", "-I" + SIM] + SAN, ["-fopenmp"] + SAN),
    "plain":("g++", "gcc", ["-O2", "-g1", "-fopenmp", "-I" + SIM], ["-fopenmp"]),
    "omp":  ("g++", "gcc", ["-O1", "-g1", "-fopenmp", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I" + SIM], ["-Wl," + ",".join("--wrap=" + f for f in ["memcpy", "memmove", "memset", "free", "realloc", "__cxa_guard_acquire", "__cxa_guard_release"])]),
    "realsan": ("mpicxx", "mpicc", ["-O1", "-g1", "-fopenmp", "-fPIC"] + SAN, ["-fopenmp"] + SAN),
    "real": ("mpicxx", "mpicc", ["-O2", "-g1", "-fopenmp", "-fPIC"], ["-fopenmp"]),
}
def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def lib_inputs():
    out = []
    for d in INC:
        for f in os.listdir(os.path.join(REPO, d)):
            if f.endswith((".c", ".cc", ".cpp", ".h", ".hpp", ".inc", ".am")):
                out.append(os.path.join(REPO, d, f))
    return out

def hdr_hash(extra=""):
    own = {os.path.join(REPO, s) for s in repo_sources()}
    return tree_hash([f for f in lib_inputs() if f not in own], extra)

def prune(d, keep, prefix):
    for f in glob.glob(os.path.join(d, "obj", prefix + "*")):
        if f not in keep: os.unlink(f)

def build_lib(variant):
    cxx, cc, flags, link = VARIANTS[variant]
    sim = [] if variant.startswith("real") else glob.glob(SIM + "/*.h")
    key = tree_hash(lib_inputs() + [f for f in sim if os.path.isfile(f)], variant + repr(VARIANTS[variant]))
    d = os.path.join(BUILD, variant)
    lib = os.path.join(d, "libcq.a")
    stamp = os.path.join(d, "stamp")
    if os.path.exists(lib) and os.path.exists(stamp) and open(stamp).read() == key:
        return lib, d, key
    if os.path.exists(stamp): os.unlink(stamp)
    od = os.path.join(d, "obj"); os.makedirs(od, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, i) for i in INC]
    env = dict(os.environ, OMPI_CC="gcc", OMPI_CXX="g++")
    hk = hdr_hash(tree_hash([f for f in sim if os.path.isfile(f)], variant))
    def job(s):
        src = os.path.join(REPO, s)
        o = os.path.join(od, "lib_" + s.replace("/", "_") + "." + tree_hash([src], hk + repr(VARIANTS[variant])) + ".o")
        if not os.path.exists(o):
            cmd = [cc, "-std=gnu99"] if s.endswith(".c") else [cxx, "-std=gnu++11"]
            tmp = o + ".%d.tmp" % os.getpid()
            run(cmd + flags + DEF + inc + ["-c", src, "-o", tmp, "-w"], env=env); os.rename(tmp, o)
        return o
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(job, repo_sources()))
    if os.path.exists(lib): os.unlink(lib)
    run(["ar", "rcs", lib] + objs)
    prune(d, set(objs), "lib_")
    open(stamp, "w").write(key)
    return lib, d, key

def build_harness(variant, sources, exe, extra=(), libs=(), lib=None):
    """Compile harness sources (in /verif) against a variant of the library."""
    cxx, cc, flags, link = VARIANTS[variant]
    if lib is None: lib, d, key = build_lib(variant)
    else: d = os.path.join(BUILD, variant); key = ""
    srcs = [os.path.join(VERIF, s) for s in sources]
    if not variant.startswith("real"): srcs += [os.path.join(SIM, f) for f in (["mpisim.cc", "ompsim.cc"] if variant == "omp" else ["mpisim.cc"])]
    hdrs = glob.glob(VERIF + "/harness/*.h*") + glob.glob(SIM + "/*.h")
    k2 = tree_hash(srcs + hdrs, key + variant + repr(extra) + repr(libs) + repr(VARIANTS[variant]))
    out = os.path.join(d, exe)
    if os.path.exists(out) and os.path.exists(out + ".stamp") and open(out + ".stamp").read() == k2:
        return out
    if os.path.exists(out + ".stamp"): os.unlink(out + ".stamp")
    inc = ["-I" + os.path.join(REPO, i) for i in INC] + ["-I" + os.path.join(VERIF, "harness")]
    hflags = flags + list(extra) + ["-DVF_REAL" if variant.startswith("real") else "-DVF_SIM"]
    env = dict(os.environ, OMPI_CC="gcc", OMPI_CXX="g++")
    od = os.path.join(d, "obj"); os.makedirs(od, exist_ok=True)
    hk = hdr_hash(tree_hash(hdrs, variant + repr(hflags) + repr(VARIANTS[variant])))
    def one(s):
        o = os.path.join(od, "h_" + exe + "." + os.path.basename(s) + "." + tree_hash([s], hk) + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            run([cxx, "-std=gnu++17"] + [f for f in hflags if f != "-fsanitize=thread" or not s.startswith(SIM)] + DEF + inc + ["-I" + SIM if not variant.startswith("real") else "-DVFX", "-c", s, "-o", tmp, "-w"], env=env)
            os.rename(tmp, o)
        return o
    with ThreadPoolExecutor(JOBS) as ex: objs = list(ex.map(one, srcs))
    # in the instrumented variant, inline functions must come from instrumented objects
    if variant == "omp": objs2 = [o for o, s in zip(objs, srcs) if not s.startswith(SIM)] + ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"] + [o for o, s in zip(objs, srcs) if s.startswith(SIM)]
    else: objs2 = objs + [lib]
    run([cxx] + objs2 + link + list(libs) + ["-lcfitsio", "-lpthread", "-lm", "-o", out], env=env)
    prune(d, set(objs), "h_" + exe + ".")
    open(out + ".stamp", "w").write(k2)
    return out

if __name__ == "__main__":
    for v in sys.argv[1:] or ["san"]:
        t = time.time(); print(v, build_lib(v)[0], "%.1fs" % (time.time() - t))
    print(repo_sources())
