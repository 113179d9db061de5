#!/usr/bin/python3
"""Explorer of the Python wrapper: every enabled sequence of wrapper operations up to a depth, in lock step with the same
sequence of C calls (own bindings, objects never released before the end), with the library under address and undefined
behaviour monitors; and every single failure of every C entry point under every wrapper operation.
pyexp.py SUITE DEPTH PART NPARTS OUT [ONLY]   SUITE: seq | faults | ranks"""
import sys, os, gc, json, struct, itertools, time, traceback
import ctypes as ct
import numpy as np
from mpi4py import MPI
suite, depth, part, nparts, outf = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
only = int(sys.argv[6]) if len(sys.argv) > 6 and int(sys.argv[6]) >= 0 else None
start = int(sys.argv[7]) if len(sys.argv) > 7 else 0
libdir, scratch = os.environ["VF_PYLIB"], os.environ["VF_SCRATCH"]
world = MPI.COMM_WORLD; rank, size = world.Get_rank(), world.Get_size()

# ---- the same operations through own bindings of the C interface -------------------------------------------------
R = ct.CDLL(os.path.join(libdir, "libconviqt_real.so"), mode=ct.RTLD_GLOBAL)
import libconviqt_wrapper as cq
S = ct.CDLL(os.path.join(libdir, "_conviqt.so"))
S.vf_plan.argtypes = [ct.c_char_p, ct.c_long]; S.vf_hits.restype = ct.c_long
P, L, D, I, B, Z = ct.c_void_p, ct.c_long, ct.c_double, ct.c_int, ct.c_byte, ct.c_char_p
COMM = ct.c_int if MPI._sizeof(MPI.Comm) == ct.sizeof(ct.c_int) else ct.c_void_p
def comm_of(c): return COMM.from_address(MPI._addressof(c))
def sig(name, res, *args): f = getattr(R, name); f.restype, f.argtypes = res, list(args)
for n in ("beam", "sky", "detector", "pointing"): sig("conviqt_%s_new" % n, P); sig("conviqt_%s_del" % n, I, P)
sig("conviqt_detector_new_with_id", P, Z); sig("conviqt_convolver_del", I, P)
sig("conviqt_beam_read", I, P, L, L, B, Z, COMM); sig("conviqt_sky_read", I, P, L, B, Z, D, COMM)
for n in ("beam_lmax", "beam_mmax", "beam_normalized", "sky_lmax", "sky_remove_monopole", "sky_remove_dipole"): sig("conviqt_" + n, I, P)
sig("conviqt_beam_normalize", D, P)
for n in ("beam", "sky"):
    for k in "TGC": sig("conviqt_%s_%sdata" % (n, k), P, P)
sig("conviqt_detector_set_epsilon", I, P, D); sig("conviqt_detector_get_epsilon", I, P, P); sig("conviqt_detector_get_id", I, P, P)
sig("conviqt_pointing_alloc", I, P, L); sig("conviqt_pointing_data", P, P)
sig("conviqt_convolver_new", P, P, P, P, B, L, L, L, I, COMM); sig("conviqt_convolver_convolve", I, P, P, B)

W = world
class Failed(Exception): pass
class Bad(Exception): pass
def nalm(lmax, mmax): return sum(lmax - m + 1 for m in range(mmax + 1))
def floats(ptr, n): return np.frombuffer((ct.c_float * n).from_address(ptr), dtype=np.float32) if n else np.zeros(0, np.float32)
class Ref:
    """a session over the C interface: handles by variable name; nothing is released before close()"""
    def __init__(self): self.v = {}; self.info = {}; self.all = []
    def put(self, var, kind, h, **info): self.v[var] = h; self.info[h] = info; self.all.append((kind, h))
    def close(self):
        for kind, h in sorted(self.all, key=lambda x: x[0] != "convolver"): getattr(R, "conviqt_%s_del" % kind)(h)
    def sky(self, var, lmax, pol, f, fwhm):
        h = R.conviqt_sky_new(); self.all.append(("sky", h))
        if R.conviqt_sky_read(h, lmax, pol, f.encode(), fwhm, comm_of(W)): raise Failed()
        self.all.pop(); self.put(var, "sky", h, pol=pol)
    def beam(self, var, lmax, mmax, pol, f):
        h = R.conviqt_beam_new(); self.all.append(("beam", h))
        if R.conviqt_beam_read(h, lmax, mmax, pol, f.encode(), comm_of(W)): raise Failed()
        self.all.pop(); self.put(var, "beam", h, pol=pol)
    def dims(self, var):
        h = self.v[var]
        if var[0] == "s": l = R.conviqt_sky_lmax(h); return l, l
        return R.conviqt_beam_lmax(h), R.conviqt_beam_mmax(h)
    def coeffs(self, var):
        h = self.v[var]; kind = "sky" if var[0] == "s" else "beam"; n = nalm(*self.dims(var))
        return [floats(getattr(R, "conviqt_%s_%sdata" % (kind, k))(h), 2 * n) for k in ("TGC" if self.info[h]["pol"] else "T")]
    def set(self, var, vals):
        c = self.coeffs(var)
        for a, v in zip(c, vals): a[0::2] = np.real(v); a[1::2] = np.imag(v)
    def detector(self, var, name, eps):
        h = R.conviqt_detector_new() if name is None else R.conviqt_detector_new_with_id(name.encode())
        self.put(var, "detector", h)
        if eps is not None and R.conviqt_detector_set_epsilon(h, eps): raise Failed()
    def eps(self, var):
        e = ct.c_double(0)
        if R.conviqt_detector_get_epsilon(self.v[var], ct.addressof(e)): raise Failed()
        return e.value
    def name(self, var):
        b = ct.create_string_buffer(8192)
        if R.conviqt_detector_get_id(self.v[var], ct.addressof(b)): raise Failed()
        return b.value
    def conv(self, var, s, b, d, *a):
        h = R.conviqt_convolver_new(self.v[s], self.v[b], self.v[d], *a, comm_of(W))
        if not h: raise Failed()
        self.put(var, "convolver", h)
    def pnt(self, var, rows):
        h = R.conviqt_pointing_new(); self.put(var, "pointing", h); self.alloc(var, len(rows))
        self.data(var)[:] = rows
    def alloc(self, var, n):
        self.info[self.v[var]]["n"] = 0
        if R.conviqt_pointing_alloc(self.v[var], 5 * n): raise Failed()
        self.info[self.v[var]]["n"] = n
        if n: self.data(var)[:] = 0
    def data(self, var):
        h = self.v[var]; n = self.info[h]["n"]
        return np.frombuffer((ct.c_double * (5 * n)).from_address(R.conviqt_pointing_data(h)), dtype=float).reshape(n, 5) if n else np.zeros((0, 5))
    def convolve(self, c, p, cal):
        if R.conviqt_convolver_convolve(self.v[c], self.v[p], cal): raise Failed()

# ---- inputs ------------------------------------------------------------------------------------------------------
def fits(path, tabs):
    def block(cards):
        s = b"".join(c.encode().ljust(80) for c in cards + ["END"]); return s + b" " * (-len(s) % 2880)
    def key(k, v): return "%-8s= %20s" % (k, v)
    o = block([key("SIMPLE", "T"), key("BITPIX", 8), key("NAXIS", 0), key("EXTEND", "T")])
    for rows, lmax, mmax in tabs:
        o += block([key("XTENSION", "'BINTABLE'"), key("BITPIX", 8), key("NAXIS", 2), key("NAXIS1", 12), key("NAXIS2", len(rows)), key("PCOUNT", 0), key("GCOUNT", 1), key("TFIELDS", 3),
                    key("TTYPE1", "'index   '"), key("TFORM1", "'1J      '"), key("TTYPE2", "'real    '"), key("TFORM2", "'1E      '"), key("TTYPE3", "'imag    '"), key("TFORM3", "'1E      '"), key("MAX-LPOL", lmax), key("MAX-MPOL", mmax)])
        d = b"".join(struct.pack(">iff", l * l + l + m + 1, re, im) for l, m, re, im in rows); o += d + b"\0" * (-len(d) % 2880)
    open(path, "wb").write(o)
def table(lmax, mmax, k): return [(l, m, ((3 * l + 5 * m + k) % 11 - 4) / 8., 0. if m == 0 else ((7 * l + 2 * m + k) % 9 - 3) / 16.) for m in range(mmax + 1) for l in range(m, lmax + 1)], lmax, mmax
skyA, skyB, beamA, beamB, bad, none = [os.path.join(scratch, n) for n in ("skyA.fits", "skyB.fits", "beamA.fits", "beamB.fits", "bad.fits", "none.fits")]
if not os.path.exists(os.path.join(scratch, "done")) and rank == 0:
    t = ".%d" % os.getpid()
    for f, l, m, k in ((skyA, 4, 4, 0), (skyB, 3, 3, 5), (beamA, 4, 2, 2), (beamB, 3, 3, 7)): fits(f + t, [table(l, m, k + i) for i in range(3)]); os.rename(f + t, f)
    open(bad + t, "wb").write(b"SIMPLE  = nonsense".ljust(2880)); os.rename(bad + t, bad)
world.Barrier()
ROWS = np.array([[0.3, 1.1, 0.2, 0, 0], [5.9, 0.4, -1.2, 0, 0], [0.3, 2.5, 3.0, 7, 7], [2.2, 1.1, 0.9, 0, 0], [4.0, 2.9, 0.0, 1, 1]])
BADROWS = np.array([[0.3, 1.1, 0.2, 0, 0], [0.3, -0.5, 0.2, 0, 0]])

# ---- operations: (name, needs, python, reference) -----------------------------------------------------------------
class Py:
    """the session over the wrapper"""
    def __init__(self): self.v = {}
def py_pnt(v, rows):
    p = cq.Pointing(len(rows)); p.data()[:] = rows; v["p"] = p
def newvals(n, k, parts): return [np.array([((i * 5 + k + 3 * q) % 13 - 6) / 4. + 1j * ((i * 3 + k + q) % 7 - 3) / 8. for i in range(n)]) for q in range(parts)]
def check_eq(a, b, w):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not ((a == b) | ((a != a) & (b != b))).all(): raise Bad("%s differs from the same calls of the C interface: %s, expected %s" % (w, str(a.ravel()[:8]), str(b.ravel()[:8])))
def set_op(var, wrong, kind=0):
    def py(v):
        c = r_now.coeffs(var); n = nalm(*r_now.dims(var)) + wrong; a = newvals(n, 1, len(c))
        if kind: a = [np.repeat(x, 3).astype(np.complex64)[1::3] for x in a]  # strided, single precision
        held = v[var].get_data(); keep = [x.copy() for x in held]
        v[var].set_data(a)
        for x in a: x[:] = 99  # the caller's arrays stay the caller's
        for x, y in zip(held, keep): check_eq(x, y, "data returned by get_data before set_data")
        for x in v[var].get_data(): x[:] = 77
    def rf(r):
        if wrong: raise Failed()
        r.set(var, newvals(nalm(*r.dims(var)), 1, len(r.coeffs(var))))
    return py, rf
def do_norm(v): res["out"] = v["b"].normalize()
def ref_norm(r):
    x = R.conviqt_beam_normalize(r.v["b"])
    if not x > 0: raise Failed()
    res["ref"] = x
def do_conv(cal): return (lambda v: v["c"].convolve(v["p"], cal)), (lambda r: r.convolve("c", "p", 1 if cal else 0))
def do_tmp(rows, cal=False):
    def py(v):
        p = cq.Pointing(); p.alloc(len(rows)); p.data()[:] = rows; v["c"].convolve(p, calibrate=cal); res["out"] = np.array(p.data())
    def rf(r): r.pnt("t", rows); r.convolve("c", "t", 1 if cal else 0); res["ref"] = np.array(r.data("t"))
    return py, rf
res = {}; r_now = None
def drop(var): return (lambda v: v.pop(var)), (lambda r: None)
def asg(var, f): return lambda v: v.__setitem__(var, f(v))
OPS = [
 ("sky polarised",      (),       asg("s", lambda v: cq.Sky(4, True, skyA, 10.0, W)),            lambda r: r.sky("s", 4, 1, skyA, 10.0)),
 ("sky small",          (),       asg("s", lambda v: cq.Sky(-1, False, skyB, 0.0, W)),           lambda r: r.sky("s", -1, 0, skyB, 0.0)),
 ("sky malformed",      (),       asg("s", lambda v: cq.Sky(4, 0, bad, 0.0, W)),                 lambda r: r.sky("s", 4, 0, bad, 0.0)),
 ("sky too large",      (),       asg("s", lambda v: cq.Sky(9, 1, skyA, 0.0, W)),                lambda r: r.sky("s", 9, 1, skyA, 0.0)),
 ("beam polarised",     (),       asg("b", lambda v: cq.Beam(-1, -1, True, beamB, W)),           lambda r: r.beam("b", -1, -1, 1, beamB)),
 ("beam small",         (),       asg("b", lambda v: cq.Beam(3, 1, False, beamA, W)),            lambda r: r.beam("b", 3, 1, 0, beamA)),
 ("beam missing",       (),       asg("b", lambda v: cq.Beam(4, 2, False, none, W)),             lambda r: r.beam("b", 4, 2, 0, none)),
 ("detector named",     (),       asg("d", lambda v: cq.Detector("LFI-27m", 0.25)),              lambda r: r.detector("d", "LFI-27m", 0.25)),
 ("detector long name", (),       asg("d", lambda v: cq.Detector("n" * 1500)),                   lambda r: r.detector("d", "n" * 1500, None)),
 ("epsilon",            ("d",),   lambda v: v["d"].set_epsilon(0.125),                           lambda r: None if not R.conviqt_detector_set_epsilon(r.v["d"], 0.125) else (_ for _ in ()).throw(Failed())),
 ("conv pol",           ("s", "b", "d"), asg("c", lambda v: cq.Convolver(v["s"], v["b"], v["d"], True, 3, 1, 3, 0, W)),  lambda r: r.conv("c", "s", "b", "d", 1, 3, 1, 3, 0)),
 ("conv unpol",         ("s", "b", "d"), asg("c", lambda v: cq.Convolver(v["s"], v["b"], v["d"], 0, 3, 1, 5, 0, W)),     lambda r: r.conv("c", "s", "b", "d", 0, 3, 1, 5, 0)),
 ("conv too large",     ("s", "b", "d"), asg("c", lambda v: cq.Convolver(v["s"], v["b"], v["d"], 0, 9, 1, 5, 0, W)),     lambda r: r.conv("c", "s", "b", "d", 0, 9, 1, 5, 0)),
 ("conv bad order",     ("s", "b", "d"), asg("c", lambda v: cq.Convolver(v["s"], v["b"], v["d"], 0, 3, 1, -3, 0, W)),    lambda r: r.conv("c", "s", "b", "d", 0, 3, 1, -3, 0)),
 ("set sky",            ("s",),   *set_op("s", 0)),
 ("set sky wrong",      ("s",),   *set_op("s", 1)),
 ("set beam",           ("b",),   *set_op("b", 0)),
 ("set sky strided",    ("s",),   *set_op("s", 0, 1)),
 ("set beam short",     ("b",),   *set_op("b", -1)),
 ("normalize",          ("b",),   do_norm, ref_norm),
 ("monopole",           ("s",),   lambda v: v["s"].remove_monopole(), lambda r: R.conviqt_sky_remove_monopole(r.v["s"])),
 ("dipole",             ("s",),   lambda v: v["s"].remove_dipole(),   lambda r: R.conviqt_sky_remove_dipole(r.v["s"])),
 ("convolve",           ("c", "p"), *do_conv(False)),
 ("convolve calibrated",("c", "p"), *do_conv(True)),
 ("convolve temporary", ("c",),   *do_tmp(ROWS, True)),
 ("convolve illegal",   ("c",),   *do_tmp(BADROWS)),
 ("pointing",           (),       lambda v: py_pnt(v, ROWS[1:4]), lambda r: r.pnt("p", ROWS[1:4])),
 ("pointing grow",      ("p",),   lambda v: (v["p"].alloc(4), v["p"].data().fill(0.0)), lambda r: r.alloc("p", 4)),
 ("pointing empty",     ("p",),   lambda v: v["p"].alloc(0),          lambda r: r.alloc("p", 0)),
 ("pointing huge",      ("p",),   lambda v: v["p"].alloc(1 << 50),    lambda r: r.alloc("p", 1 << 50)),
 ("drop sky",           ("s",),   *drop("s")), ("drop beam", ("b",), *drop("b")), ("drop detector", ("d",), *drop("d")), ("drop convolver", ("c",), *drop("c")), ("drop pointing", ("p",), *drop("p")),
]
GIVES = {"sky": "s", "beam": "b", "detector": "d", "conv": "c", "pointing": "p"}
def run_op(op, pv, r):
    """one operation on both sides; the outcomes must agree"""
    global r_now
    r_now = r; name, needs, py, rf = op; res.clear()
    vars_before = dict(r.v); rex = pex = None
    # the reference decides what has to happen; a failed constructor leaves the variable alone on both sides
    try: py(pv)
    except (Bad, MemoryError): raise
    except Exception as e: pex = e
    try: rf(r)
    except Failed: rex = True; r.v = vars_before
    gc.collect(0)
    if rex and pex is None: raise Bad("'%s' failed in the library but the wrapper raised no exception" % name)
    if pex is not None and not rex: raise Bad("'%s' raised %r although the same C calls succeed" % (name, pex))
    if not rex and "out" in res: check_eq(res["out"], res["ref"], name)
    if not rex:
        for var in needs:
            if name.startswith("drop"): r.v.pop(var, None)
def inspect(pv, r):
    for var in pv:
        if var not in r.v: raise Bad("variable %s" % var)
    for var in ("s", "b"):
        if var in pv:
            l, m = r.dims(var); o = pv[var]
            if o.lmax() != l or (var == "b" and o.mmax() != m) or o.num_alms() != nalm(l, m): raise Bad("limits of %s" % var)
            got = o.get_data(); want = r.coeffs(var)
            if len(got) != len(want): raise Bad("get_data returned %d tables, expected %d" % (len(got), len(want)))
            for g, w in zip(got, want): check_eq(g, w[0::2].astype(float) + 1j * w[1::2], "get_data of %s" % var)
    if "b" in pv and pv["b"].normalized() != (R.conviqt_beam_normalized(r.v["b"]) == 1): raise Bad("normalized()")
    if "d" in pv:
        if pv["d"].get_epsilon() != r.eps("d"): raise Bad("epsilon")
        if pv["d"].get_id() != r.name("d"): raise Bad("detector id")
    if "p" in pv: check_eq(pv["p"].data(), r.data("p"), "pointing data")
    if "c" in pv:
        for cal in (True, False):
            rex = pex = None; py, rf = do_tmp(ROWS, cal); res.clear()
            try: py(pv)
            except Exception as e: pex = e
            try: rf(r)
            except Failed: rex = True
            if bool(rex) != bool(pex): raise Bad("final convolution: library %s, wrapper %r" % ("failed" if rex else "succeeded", pex))
            if not rex: check_eq(res["out"], res["ref"], "final convolution")
INIT = [OPS[i] for i in range(0)]
def begin():
    pv, r = {}, Ref()
    for name in ("sky polarised", "beam polarised", "detector named", "conv pol", "pointing"): run_op(BYNAME[name], pv, r)
    return pv, r
BYNAME = {o[0]: o for o in OPS}
def enabled(op, have): return all(n in have for n in op[1])
def after(op, have):
    n = op[0]
    if n.startswith("drop"): return have - set(op[1])
    k = n.split()[0]
    # only constructors that succeed in every state add a variable that is missing
    if n in ("sky polarised", "sky small", "beam polarised", "beam small", "detector named", "detector long name", "pointing"): return have | {GIVES[k]}
    if n in ("conv unpol",): return have | {"c"}
    return have
def sequences(d):
    def rec(have, seq):
        if len(seq) == d: yield tuple(seq); return
        for i, op in enumerate(OPS):
            if enabled(op, have): yield from rec(after(op, have), seq + [i])
    yield from rec(frozenset("sbdcp"), [])
def seq_case(seq):
    pv, r = begin()
    try:
        for i in seq:
            if not all(n in pv for n in OPS[i][1]): break  # a constructor failed on both sides: the rest needs its object
            run_op(OPS[i], pv, r)
        inspect(pv, r)
    finally:
        pv.clear(); gc.collect(0); r.close()
FUNCS = ["%s_new" % k for k in ("beam", "sky", "detector", "pointing", "convolver")] + ["detector_new_with_id", "beam_read", "sky_read", "beam_lmax", "beam_mmax", "beam_normalize", "beam_normalized",
    "beam_Tdata", "beam_Gdata", "beam_Cdata", "sky_lmax", "sky_remove_monopole", "sky_remove_dipole", "sky_Tdata", "sky_Gdata", "sky_Cdata", "detector_set_epsilon", "detector_get_epsilon",
    "detector_get_id", "pointing_alloc", "pointing_data", "convolver_convolve"]
FOPS = [o for o in OPS if not o[0].startswith("drop")] + [("sky get", ("s",), lambda v: v["s"].get_data(), None), ("beam get", ("b",), lambda v: v["b"].get_data(), None), ("sky lmax", ("s",), lambda v: v["s"].lmax(), None),
    ("beam lmax", ("b",), lambda v: v["b"].lmax(), None), ("beam mmax", ("b",), lambda v: v["b"].mmax(), None), ("normalized", ("b",), lambda v: v["b"].normalized(), None), ("num_alms", ("s",), lambda v: v["s"].num_alms(), None),
    ("beam num_alms", ("b",), lambda v: v["b"].num_alms(), None), ("epsilon get", ("d",), lambda v: v["d"].get_epsilon(), None), ("id get", ("d",), lambda v: v["d"].get_id(), None), ("data", ("p",), lambda v: v["p"].data(), None)]
def fault_case(c):
    pre, oi, fi, skip = c; op = FOPS[oi]; fn = "conviqt_" + FUNCS[fi]
    pv, r = begin(); global r_now
    try:
        for i in pre: run_op(OPS[i], pv, r)
        if not all(n in pv for n in op[1]): return 0
        r_now = r; S.vf_plan(fn.encode(), skip); pex = None
        try: op[2](pv)
        except (MemoryError, Exception) as e: pex = e
        delivered = S.vf_hits() > skip; S.vf_plan(b"", 0); gc.collect(0)
        if delivered and pex is None: raise Bad("%s failed under '%s' and the wrapper raised no exception" % (fn, op[0]))
        if delivered:  # every live object stays usable
            if "c" in pv and op[0] not in ("set sky", "set sky strided", "set beam", "normalize", "monopole", "dipole", "sky malformed", "epsilon"):
                py, rf = do_tmp(ROWS, True); res.clear(); py(pv); rf(r); check_eq(res["out"], res["ref"], "convolution after the failure")
            for k, o in list(pv.items()):
                if k in "sb": o.get_data()
                if k == "p": o.data().sum()
        return 1 if delivered else 0
    finally:
        S.vf_plan(b"", 0); pv.clear(); gc.collect(0); r.close()
def rank_case(c):
    """every rank takes its own part of the rows; results equal those of the C interface on the same ranks"""
    global W
    pol, order, cuts, dropped, cal, cm = c
    W = dup if cm == 1 else MPI.COMM_SELF if cm == 2 else world
    pv, r = {}, Ref()
    try:
        for n in ("sky polarised", "beam polarised", "detector named"): run_op(BYNAME[n], pv, r)
        a = (pol, 3, 1, order, 0)
        run_op(("conv", (), asg("c", lambda v: cq.Convolver(v["s"], v["b"], v["d"], *a, W)), lambda r: r.conv("c", "s", "b", "d", *a)), pv, r)
        for k in dropped: pv.pop(k)
        gc.collect()
        lo, hi = cuts[rank], cuts[rank + 1]; mine = ROWS[lo:hi]
        run_op(("pointing part", (), lambda v: py_pnt(v, mine), lambda r: r.pnt("p", mine)), pv, r)
        run_op(("convolve part", (), *do_conv(cal)), pv, r)
        check_eq(pv["p"].data(), r.data("p"), "pointing data on rank %d" % rank)
    finally:
        pv.clear(); gc.collect(); r.close()

if suite == "seq": cases = ((s, " -> ".join(OPS[i][0] for i in s)) for s in sequences(depth)); run = seq_case
elif suite == "faults":
    pres = [p for d in range(depth + 1) for p in itertools.product(range(len(OPS)), repeat=d)]
    cases = (((p, o, f, k), "%s%s with %s failing at call %d" % ("".join(OPS[i][0] + " -> " for i in p), FOPS[o][0], FUNCS[f], k)) for p in pres for o in range(len(FOPS)) for f in range(len(FUNCS)) for k in range(3 if not p else 1)); run = fault_case
else:
    dup = world.Dup()
    cuts = [c for c in itertools.product(range(len(ROWS) + 1), repeat=size - 1) if list(c) == sorted(c)]
    cases = (((pol, o, (0,) + c + (len(ROWS),), dr, cal, cm), "pol %d order %d cuts %s dropping %s cal %d on %d ranks, communicator %s" % (pol, o, c, dr, cal, size, ("world", "duplicate", "self")[cm])) for c in cuts for pol in (0, 1) for o in (1, 4) for dr in ("", "sbd") for cal in (False, True) for cm in (0, 1, 2)); run = rank_case
done = nontriv = total = 0; viol = []; samples = []; t0 = time.time(); prog = outf + ".at"
pf = open(prog, "w")
for n, (c, desc) in enumerate(cases):
    total += 1
    if (n % nparts != part) or n < start or (only is not None and n != only): continue
    pf.seek(0); pf.write("%d\t%s\n" % (n, desc)); pf.truncate(); pf.flush()
    try:
        x = run(c)
        if S.vf_live(): gc.collect()
        if S.vf_live(): raise Bad("%d library objects created by the wrapper were never released although every wrapper object is gone" % S.vf_live())
        done += 1; nontriv += 1 if x is None else x
        if len(samples) < 3 and (x is None or x): samples.append(desc)
    except Bad as e: viol.append({"case": n, "describe": desc, "key": "wrapper", "message": str(e), "log": ""})
    except Exception as e: viol.append({"case": n, "describe": desc, "key": "wrapper", "message": "unexpected %r %s" % (e, traceback.format_exc()[-600:]), "log": ""})
    if S.vf_live(): gc.collect(); S.vf_forget()
    if len(viol) > 20: break
if size > 1: viol = [v for w in world.allgather(viol) for v in w]
if rank == 0: json.dump(dict(total=total, cases=done, nontrivial=nontriv, violations=viol, samples=samples, wall=time.time() - t0), open(outf, "w"))
