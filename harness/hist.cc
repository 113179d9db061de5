// Histories: P08 (normalisation and calibration), P09 (history independence), P12 (sky preparation), P17 (C interface).
#include "convlib.hpp"
#include "cconviqt.h"
static string path(const string &t) { return tmpfile(strf("%s_%d", t.c_str(), getpid())); }
static string what() { try { throw; } catch (std::exception &e) { return e.what(); } catch (...) { return "LEVELSError"; } }
typedef levels::Alm<xcomplex<float> > AlmF;
static void dump(AlmF &a, vector<double> &v) { for (int m = 0; m <= a.Mmax(); ++m) for (int l = m; l <= a.Lmax(); ++l) { v.push_back(a(l, m).re); v.push_back(a(l, m).im); } }
static vector<double> dump(conviqt::beam &b, bool pol) { vector<double> v{(double)b.get_lmax(), (double)b.get_mmax(), (double)b.normalized()}; dump(b.blmT(), v); if (pol) { dump(b.blmG(), v); dump(b.blmC(), v); } return v; }
static vector<double> dump(conviqt::sky &s, bool pol) { vector<double> v{(double)s.get_lmax()}; dump(s.slmT(), v); if (pol) { dump(s.slmG(), v); dump(s.slmC(), v); } return v; }
static bool rel(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b)); }
// all sequences of exactly `depth` operations out of `nops`, followed by fixed observations
struct Seqs : Suite {
  int nops, depth; size_t total = 1;
  void init(int n, int d) { nops = n; depth = d; total = 1; for (int i = 0; i < d; ++i) total *= n; }
  vector<int> seq(size_t i) { vector<int> s; for (int k = 0; k < depth; ++k) { s.push_back(i % nops); i /= nops; } return s; }
  virtual string opname(int k) = 0;
  string describe(size_t i) override { string s; for (int k : seq(i)) s += (s.size() ? "; " : "") + opname(k); return s; }
  size_t size() override { return total; }
  size_t batch() override { return 200; }
};

// ---- P08 ------------------------------------------------------------------------------------------
// Operations on two beams, two detectors and one convolver against a state machine model.
struct Norm : Seqs {
  enum { READ00, READ01, READ0X, NORM0, READ11, NORM1, EPS0A, EPS0B, EPS1, SETB0, SETB1, SETD0, SETD1, CONVT, CONVF, COPY, N };
  string opname(int k) override { static const char *n[] = {"beam0.read(A)", "beam0.read(B)", "beam0.read(missing file)", "beam0.normalize", "beam1.read(B)", "beam1.normalize", "det0.set_epsilon(0.5)", "det0.set_epsilon(-0.3)", "det1.set_epsilon(0.125)", "set_beam(beam0)", "set_beam(beam1)", "set_detector(det0)", "set_detector(det1)", "convolve(calibrate)", "convolve(raw)", "beam1 = beam0"}; return n[k]; }
  string fa, fb, fs; Exp ea, eb; vector<double> base[2]; vector<Dir> dirs{{0.3, 0.7, 0.2}, {1.9, 2.2, 1.0}, {4, 1.3, -2}};
  int n2; Norm() {}
  void prepare() override {
    init(N, thorough() ? 5 : 4);
    fa = path("na"); fb = path("nb"); fs = path("ns"); ea = dense(3, 3, 2, true); eb = dense(4, 4, 3, true);
    ea.c[0].at(0, 0) = 1.25; eb.c[0].at(0, 0) = 0.0625; fitsgen::write(fa, tables(ea)); fitsgen::write(fb, tables(eb)); fitsgen::write(fs, tables(dense(5, 4, 4, true)));
    for (int k = 0; k < 2; ++k) { conviqt::sky s(0, true, fs, 0, MPI_COMM_SELF); conviqt::beam b(0, 0, k == 0, k ? fb : fa, MPI_COMM_SELF); conviqt::detector d; conviqt::convolver c(&s, &b, &d, false, 3, 2, 3, 0, MPI_COMM_SELF); conviqt::pointing p; load(p, dirs); c.convolve(p, false); for (int i = 0; i < 3; ++i) base[k].push_back(p[5*i + 3]); }
  }
  struct B { int content; double scale; bool norm; };
  void body(size_t i, int, MPI_Comm comm, Out &o) override {
    conviqt::sky s(0, true, fs, 0, comm); conviqt::beam b[2]; b[0].read(0, 0, true, fa, comm); b[1].read(0, 0, false, fb, comm); conviqt::detector d[2]; d[1].set_epsilon(0.75);
    B m[2] = {{0, 1, false}, {1, 1, false}}; double eps[2] = {0, 0.75}; int cb = 0, cd = 0; conviqt::convolver c(&s, &b[0], &d[0], false, 3, 2, 3, 0, comm);
    auto fail = [&](const string &w) { if (o.note.empty()) o.note = w; };
    auto norm = [&](int k) { double want = m[k].norm ? 1 : 1 / (2*std::sqrt(PI)*(m[k].content ? eb : ea).c[0].at(0, 0).real()*m[k].scale), got = b[k].normalize(); if (!rel(got, want, 2e-7)) fail(strf("normalize() returned %.9g, expected %.9g", got, want)); if (!m[k].norm) { m[k].scale *= want; m[k].norm = true; } };
    auto conv = [&](bool cal) { conviqt::pointing p; load(p, dirs); int rc = c.convolve(p, cal); if (rc) fail(strf("convolve returned %d", rc)); double f = m[cb].scale * (cal && !m[cb].norm ? 2/(1 + eps[cd]) : 1);
      for (int k = 0; k < 3; ++k) { double w = base[m[cb].content][k] * f; if (std::fabs(p[5*k + 3] - w) > 1e-5 * f * 10) fail(strf("convolve(%s) with %s beam and epsilon %g gave %.9g, expected %.9g", cal ? "calibrate" : "raw", m[cb].norm ? "a normalised" : "an unnormalised", eps[cd], p[5*k + 3], w)); } };
    auto step = [&](int op) {
      switch (op) {
      case READ00: b[0].read(0, 0, true, fa, comm); m[0] = {0, 1, false}; break;
      case READ01: b[0].read(0, 0, false, fb, comm); m[0] = {1, 1, false}; break;
      case READ0X: { bool t = false; try { b[0].read(0, 0, true, "/nonexistent/beam.fits", comm); } catch (...) { t = true; } if (!t) fail("reading a missing file succeeded"); break; }
      case READ11: b[1].read(0, 0, false, fb, comm); m[1] = {1, 1, false}; break;
      case NORM0: norm(0); break; case NORM1: norm(1); break;
      case EPS0A: d[0].set_epsilon(eps[0] = 0.5); break; case EPS0B: d[0].set_epsilon(eps[0] = -0.3); break; case EPS1: d[1].set_epsilon(eps[1] = 0.125); break;
      case SETB0: c.set_beam(&b[0]); cb = 0; break; case SETB1: c.set_beam(&b[1]); cb = 1; break;
      case SETD0: c.set_detector(&d[0]); cd = 0; break; case SETD1: c.set_detector(&d[1]); cd = 1; break;
      case CONVT: conv(true); break; case CONVF: conv(false); break;
      case COPY: b[1] = b[0]; m[1] = m[0]; break;
      }
      for (int k = 0; k < 2; ++k) if (b[k].normalized() != m[k].norm) fail(strf("beam%d.normalized() is %d after ", k, b[k].normalized()) + opname(op));
    };
    try { for (int op : seq(i)) step(op);
      for (int k = 0; k < 2; ++k) { auto &e = m[k].content ? eb : ea; bool pol = true; try { b[k].blmG(); } catch (...) { pol = false; } // all components scaled
        for (int q = 0; q < (pol ? 3 : 1); ++q) { auto &a = q == 0 ? b[k].blmT() : q == 1 ? b[k].blmG() : b[k].blmC(); if (a.Lmax() != e.lmax || a.Mmax() != e.mmax) { fail("beam limits changed"); continue; }
          for (int mm = 0; mm <= e.mmax; ++mm) for (int l = mm; l <= e.lmax; ++l) { auto w = e.c[q].at(l, mm) * m[k].scale; if (std::abs(w - ref::C(a(l, mm).re, a(l, mm).im)) > 4e-7 * std::abs(w)) fail(strf("beam%d component %d (%d,%d) is (%g,%g), expected (%g,%g)", k, q, l, mm, a(l, mm).re, a(l, mm).im, w.real(), w.imag())); } } }
      conv(true); conv(false);
    } catch (...) { fail("unexpected exception: " + what()); }
    for (int k = 0; k < 2; ++k) o.put(m[k].norm); o.put(m[cb].content); o.put(eps[cd]);
  }
  string check(size_t, const vector<Out> &o) override { for (size_t r = 0; r < o.size(); ++r) if (o[r].note.size()) return strf("rank %zu: ", r) + o[r].note; return ""; }
};

// ---- P09 ------------------------------------------------------------------------------------------
// Two convolvers sharing two skies, two beams, two detectors and two pointings.  The model tracks which data every
// object holds; expected signals come from a fresh process that creates everything anew in that state.
struct History : Seqs {
  struct SkyS { int file; int removed; }; struct BeamS { int file; bool norm; };
  struct PointS { int set; };
  // sky files: 0 (lmax 3, pol), 1 (lmax 4, pol), 2 (lmax 2), 3 (lmax 3, unpolarised read).  beam files alike with mmax 2, 1, 2, 2
  struct Op { const char *name; std::function<void(struct World &)> f; };
  string fs[3], fb[3]; bool big; int want;
  static const int P0 = 3, P1 = 5;
  enum { CONV00, CONV01, CONV10, CONV0C, RESKY0_1, RESKY0_2, RESKY0_U, MONO0, DIP1, REBEAM0_1, REBEAM0_2, REBEAM0_U, NORM0, NORM1, SKY0, SKY1, BEAM0, BEAM1, DET1, EPS0, CONV1E, N };
  string opname(int k) override { static const char *n[] = {"c0.convolve(p0)", "c0.convolve(p1)", "c1.convolve(p0)", "c0.convolve(p0,calibrate)", "sky0.read(lmax 4)", "sky0.read(lmax 2)", "sky0.read(unpolarised)", "sky0.remove_monopole", "sky1.remove_dipole", "beam0.read(lmax 4, mmax 1)", "beam0.read(lmax 2)", "beam0.read(unpolarised)", "beam0.normalize", "beam1.normalize", "c0.set_sky(sky0)", "c0.set_sky(sky1)", "c0.set_beam(beam0)", "c0.set_beam(beam1)", "c0.set_detector(det1)", "det0.set_epsilon(0.5)", "c1.convolve(empty)"}; return n[k]; }
  struct State { SkyS s[2] = {{0, 0}, {1, 0}}; BeamS b[2] = {{0, false}, {1, false}}; double eps[2] = {0.25, 0.75}; int cs = 0, cb = 0, cd = 0; };
  static vector<Dir> rows(int n) { vector<Dir> d; auto all = special(4); for (int i = 0; i < n; ++i) d.push_back(all[(i * 5) % all.size()]); return d; }
  // the settings of c0 and of the possible second convolvers; "other": c1 shares everything but one setting with c0
  struct Set { bool pol; int l, m, o; }; static Set cfg(int k) { static const Set S[] = {{false, 3, 1, 5}, {true, 2, 2, 2}, {true, 3, 1, 5}, {false, 3, 2, 5}, {false, 3, 1, 3}, {false, 2, 1, 5}, {false, 3, 1, 0}}; return S[k]; }
  bool other; int second(size_t i) { return other ? 2 + i / total : 1; }
  int nr; History(int nranks_, bool other_ = false) : other(other_), nr(nranks_) {}
  size_t size() override { return other ? 5*total : total; }
  string describe(size_t i) override { Set c = cfg(second(i)); return (other ? strf("c0 unpolarised lmax 3 mmax 1 order 5, c1 %s lmax %d mmax %d order %d: ", c.pol ? "polarised" : "unpolarised", c.l, c.m, c.o) : string()) + Seqs::describe(i % total); }
  int nranks(size_t) override { return nr; }
  void prepare() override {
    if (other) init(N, thorough() ? 4 : 3); else init(N, thorough() ? (nr == 1 ? 5 : 4) : (nr == 1 ? 4 : 3));
    int sl[3] = {3, 4, 2}, bm[3] = {2, 1, 2}; for (int k = 0; k < 3; ++k) { fs[k] = path(strf("hs%d", k)); fb[k] = path(strf("hb%d", k)); fitsgen::write(fs[k], tables(dense(40 + k, sl[k], sl[k], true))); auto e = dense(50 + k, sl[k], bm[k], true); e.c[0].at(0, 0) = 0.5 + k; fitsgen::write(fb[k], tables(e)); }
    // expected results of every reachable combination, each in its own process
    for (int conv = 0; conv < (other ? 7 : 2); ++conv) for (int sf = 0; sf < 4; ++sf) for (int rem = 0; rem < 4; ++rem) for (int bf = 0; bf < 4; ++bf) for (int nm = 0; nm < 2; ++nm) for (int p = 0; p < 2; ++p) { if ((conv && p == 1) || (other && conv == 1)) continue; compute({conv, sf, rem, bf, nm, p}); }
  }
  std::map<vector<int>, vector<double>> expect;
  void readsky(conviqt::sky &s, int f, MPI_Comm c) { s.read(0, f != 3, fs[f % 3], 0, c); }
  void readbeam(conviqt::beam &b, int f, MPI_Comm c) { b.read(0, 0, f != 3, fb[f % 3], c); }
  void compute(vector<int> k) {
    int pf[2]; if (pipe(pf)) abort(); pid_t pid = fork();
    if (!pid) { vector<double> r(1, -1);
      try { conviqt::sky s; readsky(s, k[1], MPI_COMM_SELF); if (k[2] & 1) s.remove_monopole(); if (k[2] & 2) s.remove_dipole(); conviqt::beam b; readbeam(b, k[3], MPI_COMM_SELF); if (k[4]) b.normalize(); conviqt::detector d;
        Set q = cfg(k[0]); conviqt::convolver c(&s, &b, &d, q.pol, q.l, q.m, q.o, 0, MPI_COMM_SELF); conviqt::pointing p; load(p, rows(k[5] ? P1 : P0)); c.convolve(p, false); r[0] = 0; for (size_t i = 0; i < p.size()/5; ++i) r.push_back(p[5*i + 3]); } catch (...) { r.assign(1, -1); }
      size_t n = r.size()*8; if (write(pf[1], r.data(), n) != (ssize_t)n) _exit(1); _exit(0); }
    close(pf[1]); vector<double> r(64); ssize_t n = 0, g; while ((g = read(pf[0], (char *)r.data() + n, r.size()*8 - n)) > 0) n += g; close(pf[0]); int st; waitpid(pid, &st, 0); r.resize(n/8); if (r.empty()) r.assign(1, -2); expect[k] = r;
  }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override {
    State m; conviqt::sky s[2]; conviqt::beam b[2]; conviqt::detector d[2]; readsky(s[0], 0, comm); readsky(s[1], 1, comm); readbeam(b[0], 0, comm); readbeam(b[1], 1, comm); d[0].set_epsilon(0.25); d[1].set_epsilon(0.75); d[0].set_id("first");
    conviqt::convolver c0(&s[0], &b[0], &d[0], false, 3, 1, 5, 0, comm), c1(&s[0], &b[0], &d[0], cfg(second(i)).pol, cfg(second(i)).l, cfg(second(i)).m, cfg(second(i)).o, 0, comm);
    auto fail = [&](const string &w) { if (o.note.empty()) o.note = w; };
    conviqt::pointing p[2]; // rows are dealt to the ranks in turns of two; the pointings are reused by later convolutions
    auto mine = [&](int n) { vector<Dir> all = rows(n), v; for (int k = 0; k < n; ++k) if (k / 2 % nr == rank) v.push_back(all[k]); return v; };
    for (int k = 0; k < 2; ++k) load(p[k], mine(k ? P1 : P0));
    auto pol = [](int f) { return f != 3; };
    auto conv = [&](int which, int pi, bool cal, bool empty = false) {
      auto &c = which ? c1 : c0; int cs = which ? 0 : m.cs, cb = which ? 0 : m.cb, cd = which ? 0 : m.cd;
      vector<double> before = dump(s[cs], pol(m.s[cs].file)), bb = dump(b[cb], pol(m.b[cb].file)); bool threw = false; string msg; conviqt::pointing none; conviqt::pointing &q = empty ? none : p[pi];
      try { if (c.convolve(q, cal)) fail("nonzero return code"); } catch (...) { threw = true; msg = what(); }
      if (before != dump(s[cs], pol(m.s[cs].file))) fail("convolve modified the sky"); if (bb != dump(b[cb], pol(m.b[cb].file))) fail("convolve modified the beam"); if (d[cd].get_epsilon() != m.eps[cd] || d[0].get_id() != "first") fail("convolve modified the detector");
      auto &e = expect.at({which ? second(i) : 0, m.s[cs].file, m.s[cs].removed, m.b[cb].file, m.b[cb].norm, pi});
      if (e[0] == -2) return; // the reference crashed: not decided here
      if ((e[0] < 0) != threw) { fail(strf("convolver %d: a fresh one with the current inputs %s, this one %s", which, e[0] < 0 ? "fails" : "succeeds", threw ? ("fails: " + msg).c_str() : "succeeds")); return; }
      if (threw) { auto v = mine(pi ? P1 : P0); if (!empty && q.size() != 5*v.size()) fail("a failed convolution changed the number of rows"); return; }
      double f = cal && !m.b[cb].norm ? 2/(1 + m.eps[cd]) : 1; size_t k = 0; int n = pi ? P1 : P0;
      if (empty) { if (q.size()) fail("rows appeared"); return; }
      for (int j = 0; j < n; ++j) if (j / 2 % nr == rank) { double w = e[1 + j] * f; if (!(std::fabs(q[5*k + 3] - w) <= 1e-9 * (1 + std::fabs(w)))) fail(strf("convolver %d row %d: %.17g, a fresh one gives %.17g", which, j, q[5*k + 3], w)); ++k; }
    };
    try {
      auto step = [&](int op) {
        switch (op) {
        case CONV00: conv(0, 0, false); break; case CONV01: conv(0, 1, false); break; case CONV10: conv(1, 0, false); break; case CONV0C: conv(0, 0, true); break; case CONV1E: conv(1, 0, false, true); break;
        case RESKY0_1: readsky(s[0], 1, comm); m.s[0] = {1, 0}; break; case RESKY0_2: readsky(s[0], 2, comm); m.s[0] = {2, 0}; break; case RESKY0_U: readsky(s[0], 3, comm); m.s[0] = {3, 0}; break;
        case MONO0: s[0].remove_monopole(); m.s[0].removed |= 1; break; case DIP1: s[1].remove_dipole(); m.s[1].removed |= 2; break;
        case REBEAM0_1: readbeam(b[0], 1, comm); m.b[0] = {1, false}; break; case REBEAM0_2: readbeam(b[0], 2, comm); m.b[0] = {2, false}; break; case REBEAM0_U: readbeam(b[0], 3, comm); m.b[0] = {3, false}; break;
        case NORM0: b[0].normalize(); m.b[0].norm = true; break; case NORM1: b[1].normalize(); m.b[1].norm = true; break;
        case SKY0: c0.set_sky(&s[0]); m.cs = 0; break; case SKY1: c0.set_sky(&s[1]); m.cs = 1; break; case BEAM0: c0.set_beam(&b[0]); m.cb = 0; break; case BEAM1: c0.set_beam(&b[1]); m.cb = 1; break;
        case DET1: c0.set_detector(&d[1]); m.cd = 1; break; case EPS0: d[0].set_epsilon(m.eps[0] = 0.5); break;
        } };
      for (int op : seq(i % total)) step(op);
      conv(0, 1, true); conv(1, 0, false); conv(0, 0, false);
    } catch (...) { fail("unexpected exception: " + what()); }
    for (int k = 0; k < 2; ++k) { o.put(m.s[k].file); o.put(m.b[k].file); }
  }
  string check(size_t, const vector<Out> &o) override { for (size_t r = 0; r < o.size(); ++r) if (o[r].note.size()) return strf("rank %zu: ", r) + o[r].note; return ""; }
};

// ---- P12 ------------------------------------------------------------------------------------------
struct SkyPrep : Suite {
  struct C { int lmax; bool pol; double fwhm; vector<int> ops; bool capi; int n; }; vector<C> c; string f[12];
  void prepare() override {
    int hi = thorough() ? 9 : 6; vector<double> w{0, 1, 5, 33.3, 60, 240}; if (thorough()) w.insert(w.end(), {0.01, 600, 1200});
    for (int l = 0; l <= hi; ++l) { f[l] = path(strf("sp%d", l)); fitsgen::write(f[l], tables(dense(60 + l, l, l, true))); }
    vector<vector<int>> seqs{{}}; for (size_t k = 0; k < seqs.size(); ++k) if (seqs[k].size() < 4u + thorough()) for (int op = 0; op < 3; ++op) { auto v = seqs[k]; v.push_back(op); seqs.push_back(v); }
    for (int n = 1; n <= 3; ++n) for (int capi = 0; capi < 2; ++capi) for (int l = 0; l <= hi; ++l) for (int pol = 0; pol < 2; ++pol) for (double x : w) for (auto &s : seqs) { if ((n > 1 || capi || x != 0) && s.size() > 2) continue; c.push_back({l, (bool)pol, x, s, (bool)capi, n}); }
  }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].n; }
  string describe(size_t i) override { auto &x = c[i]; string s = strf("%s sky of lmax %d, pol=%d, deconvolved by %g arcmin on %d ranks:", x.capi ? "C interface," : "C++,", x.lmax, x.pol, x.fwhm, x.n); for (int o : x.ops) s += o == 0 ? " remove_monopole" : o == 1 ? " remove_dipole" : " read"; return s; }
  void body(size_t i, int, MPI_Comm comm, Out &o) override {
    auto &x = c[i];
    if (x.capi) { void *s = conviqt_sky_new(); char *fn = (char *)f[x.lmax].c_str(); o.put(conviqt_sky_read(s, -1, x.pol, fn, x.fwhm, comm)); for (int op : x.ops) o.put(op == 0 ? conviqt_sky_remove_monopole(s) : op == 1 ? conviqt_sky_remove_dipole(s) : conviqt_sky_read(s, 0, x.pol, fn, x.fwhm, comm)); vector<double> v = dump(*(conviqt::sky *)s, x.pol); o.put(v); o.put(conviqt_sky_del(s)); return; }
    try { conviqt::sky s; s.remove_monopole(); s.remove_dipole(); s.read(-1, x.pol, f[x.lmax], x.fwhm, comm); o.put(0); for (int op : x.ops) { if (op == 0) s.remove_monopole(); else if (op == 1) s.remove_dipole(); else s.read(0, x.pol, f[x.lmax], x.fwhm, comm); o.put(0); } o.put(dump(s, x.pol)); o.put(0); } catch (...) { o.d.clear(); o.note = what(); }
  }
  string check(size_t i, const vector<Out> &o) override {
    auto &x = c[i]; Exp e = dense(60 + x.lmax, x.lmax, x.lmax, true); bool mono = false, dip = false; for (int op : x.ops) { if (op == 0) mono = true; else if (op == 1) dip = true; else mono = dip = false; }
    double sigma = x.fwhm * PI/180/60 / std::sqrt(8*std::log(2.0));
    for (size_t r = 0; r < o.size(); ++r) { auto &d = o[r].d; if (d.empty()) return strf("rank %zu: exception ", r) + o[r].note; size_t k = 0; for (; k <= x.ops.size(); ++k) if (d[k] != 0) return strf("rank %zu: operation %zu failed", r, k);
      if (d[k++] != x.lmax) return "wrong lmax";
      for (int q = 0; q < (x.pol ? 3 : 1); ++q) for (int m = 0; m <= x.lmax; ++m) for (int l = m; l <= x.lmax; ++l) {
        ref::C w = e.c[q].at(l, m); double tol = x.fwhm == 0 ? 0 : 1e-6; w *= std::exp(0.5 * sigma*sigma * (l*(l + 1.0) - (q ? 4 : 0)));
        if (q == 0 && ((mono && l == 0) || (dip && l == 1))) w = 0;
        for (int p = 0; p < 2; ++p, ++k) { double want = p ? w.imag() : w.real(); if (!(std::fabs(d[k] - want) <= tol * std::fabs(want))) return strf("rank %zu: component %d (%d,%d) %s is %.9g, expected %.9g", r, q, l, m, p ? "imag" : "real", d[k], want); }
      } }
    return "";
  }
};

// ---- P17 ------------------------------------------------------------------------------------------
// The same operations through the C interface and, on separate objects, through the C++ interface.
struct CApi : Seqs {
  struct W { // one of the two worlds
    vector<double> log;
  };
  string fs, fs2, fb, bad; int nr; CApi(int n) : nr(n) {}
  enum { BREAD, BREADU, BREADX, BREADL, BREADM, BNORM, SREAD, SREADX, SREADU, SREADL, MONO, DIP, EPS, ID, PALLOC, PBAD, PEMPTY, CNEW, CNEWP, CNEWX, CNEWH, CNEWO, SETB2, SETS2, SETD2, CONV, CONVC, BNEW, DNEW, CDEL, N };
  string opname(int k) override { static const char *n[] = {"beam_read", "beam_read(unpolarised)", "beam_read(missing)", "beam_read(lmax too large)", "beam_read(malformed)", "beam_normalize", "sky_read", "sky_read(missing)", "sky_read(unpolarised,deconvolved)", "sky_read(lmax too large)", "remove_monopole", "remove_dipole", "set_epsilon", "set_id", "pointing(3 rows)", "pointing(illegal angle)", "pointing(empty)", "convolver_new", "convolver_new(pol)", "convolver_new(lmax too large)", "convolver_new(huge)", "convolver_new(order -1)", "set_beam(2)", "set_sky(2)", "set_detector(2)", "convolve", "convolve(calibrate)", "beam_del,beam_new", "detector_new_with_id", "convolver_del"}; return n[k]; }
  int nranks(size_t) override { return nr; }
  void prepare() override {
    init(N, thorough() ? 4 : 3); fs = path("cs"); fs2 = path("cs2"); fb = path("cb"); bad = path("cbad");
    fitsgen::write(fs, tables(dense(70, 3, 3, true))); fitsgen::write(fs2, tables(dense(71, 2, 2, true))); auto e = dense(72, 3, 2, true); e.c[0].at(0, 0) = 2; fitsgen::write(fb, tables(e)); FILE *f = fopen(bad.c_str(), "w"); fputs("SIMPLE  =  F", f); fclose(f);
  }
  // every sequence from three starting points: nothing read, a convolver ready, a polarised convolver ready
  size_t size() override { return 3*total; }
  vector<int> start(size_t i) { return i < total ? vector<int>{} : i < 2*total ? vector<int>{BREAD, SREAD, CNEW, PALLOC} : vector<int>{BREAD, SREAD, BNORM, CNEWP, PALLOC, CONVC}; }
  string describe(size_t i) override { string s; for (int k : start(i)) s += opname(k) + "; "; return s + Seqs::describe(i % total); }
  template<class F> void run(size_t i, F &w) { w.init(); for (int op : start(i)) w.step(op); for (int op : seq(i % total)) w.step(op); w.observe(); w.step(CNEW); w.step(PALLOC); w.step(CONV); w.step(CNEWP); w.step(CONVC); w.observe(); w.done(); }
  static void rows(double *p, int kind, int rank) { double d[3][3] = {{0.3, 0.7, 0.2}, {4, 1.9, -1}, {5, 1.2, 2}}; for (int k = 0; k < 3; ++k) for (int j = 0; j < 5; ++j) p[5*k + j] = j < 3 ? d[k][j] + (j == 0)*rank : -9; if (kind == 1 && rank == 0) p[6] = 3.5; }
  struct CW { CApi &a; MPI_Comm comm; int rank; vector<double> log; string note; void *b[2], *s[2], *d[2], *p, *c = 0; bool pol = false; vector<double> *store;
    CW(CApi &a_, MPI_Comm m, int r) : a(a_), comm(m), rank(r) {}
    void put(double x) { log.push_back(x); }
    char *cs(const string &x) { return (char *)x.c_str(); }
    void init() { for (int k = 0; k < 2; ++k) { b[k] = conviqt_beam_new(); s[k] = conviqt_sky_new(); d[k] = k ? conviqt_detector_new_with_id((char *)"two") : conviqt_detector_new(); } p = conviqt_pointing_new(); put(conviqt_beam_read(b[1], 0, 0, 1, cs(a.fb), comm)); put(conviqt_sky_read(s[1], 0, 1, cs(a.fs2), 0, comm)); put(conviqt_detector_set_epsilon(d[1], 0.5)); }
    void cnew(bool pl, long l, long m, long o) { if (c) put(conviqt_convolver_del(c)); c = conviqt_convolver_new(s[0], b[0], d[0], pl, l, m, o, 0, comm); put(c != 0); }
    void step(int op) {
      switch (op) {
      case BREAD: put(conviqt_beam_read(b[0], -1, -1, 1, cs(a.fb), comm)); break; case BREADU: put(conviqt_beam_read(b[0], 2, 1, 0, cs(a.fb), comm)); break; case BREADX: put(conviqt_beam_read(b[0], 0, 0, 1, cs("/nonexistent/x"), comm)); break; case BREADL: put(conviqt_beam_read(b[0], 9, 0, 1, cs(a.fb), comm)); break; case BREADM: put(conviqt_beam_read(b[0], 0, 0, 0, cs(a.bad), comm)); break;
      case BNORM: put(conviqt_beam_normalize(b[0])); break; case SREAD: put(conviqt_sky_read(s[0], -1, 1, cs(a.fs), 0, comm)); break; case SREADX: put(conviqt_sky_read(s[0], 0, 1, cs("/nonexistent/x"), 0, comm)); break; case SREADU: put(conviqt_sky_read(s[0], 2, 0, cs(a.fs), 30, comm)); break; case SREADL: put(conviqt_sky_read(s[0], 9, 0, cs(a.fs), 0, comm)); break;
      case MONO: put(conviqt_sky_remove_monopole(s[0])); break; case DIP: put(conviqt_sky_remove_dipole(s[0])); break; case EPS: put(conviqt_detector_set_epsilon(d[0], 0.125)); break; case ID: put(conviqt_detector_set_id(d[0], (char *)"detector one")); break;
      case PALLOC: case PBAD: put(conviqt_pointing_alloc(p, 15)); rows(conviqt_pointing_data(p), op == PBAD, rank); break; case PEMPTY: put(conviqt_pointing_alloc(p, 0)); break;
      case CNEW: cnew(false, -1, -1, 3); break; case CNEWP: cnew(true, 2, 1, 5); break; case CNEWX: cnew(false, 9, 1, 3); break; case CNEWH: cnew(false, 200000, 1, 3); break; case CNEWO: cnew(false, -1, -1, -1); break;
      case SETB2: if (c) put(conviqt_convolver_set_beam(c, b[1])); break; case SETS2: if (c) put(conviqt_convolver_set_sky(c, s[1])); break; case SETD2: if (c) put(conviqt_convolver_set_detector(c, d[1])); break;
      case CONV: case CONVC: if (c) put(conviqt_convolver_convolve(c, p, op == CONVC)); break;
      case BNEW: if (c) { put(conviqt_convolver_del(c)); c = 0; } put(conviqt_beam_del(b[0])); b[0] = conviqt_beam_new(); break; case DNEW: if (c) { put(conviqt_convolver_del(c)); c = 0; } put(conviqt_detector_del(d[0])); d[0] = conviqt_detector_new_with_id((char *)"fresh"); break; case CDEL: if (c) { put(conviqt_convolver_del(c)); c = 0; } break;
      }
    }
    void alm(void *q, int l, int m) { put(q != 0); if (!q || l < 0) return; long n = (long)(m + 1)*(m + 2)/2 + (long)(m + 1)*(l - m); for (long k = 0; k < 2*n; ++k) put(((float *)q)[k]); }
    void observe() {
      for (int k = 0; k < 2; ++k) { put(conviqt_beam_lmax(b[k])); put(conviqt_beam_mmax(b[k])); put(conviqt_beam_normalized(b[k])); put(conviqt_sky_lmax(s[k])); double e = -5; put(conviqt_detector_get_epsilon(d[k], &e)); put(e); char id[100]; memset(id, '#', 100); put(conviqt_detector_get_id(d[k], id)); id[99] = 0; note += string(id) + "|";
        int l = conviqt_beam_lmax(b[k]), m = conviqt_beam_mmax(b[k]); if (l >= 0) { alm(conviqt_beam_Tdata(b[k]), l, m); alm(conviqt_beam_Gdata(b[k]), l, m); alm(conviqt_beam_Cdata(b[k]), l, m); } l = conviqt_sky_lmax(s[k]); if (l >= 0) { alm(conviqt_sky_Tdata(s[k]), l, l); alm(conviqt_sky_Gdata(s[k]), l, l); alm(conviqt_sky_Cdata(s[k]), l, l); } }
      size_t n = ((conviqt::pointing *)p)->size(); put(n); double *q = conviqt_pointing_data(p); for (size_t k = 0; k < n; ++k) put(q[k]);
    }
    void done() { if (c) put(conviqt_convolver_del(c)); for (int k = 0; k < 2; ++k) { put(conviqt_beam_del(b[k])); put(conviqt_sky_del(s[k])); put(conviqt_detector_del(d[k])); } put(conviqt_pointing_del(p)); }
  };
  struct XW { CApi &a; MPI_Comm comm; int rank; vector<double> log; string note; std::unique_ptr<conviqt::beam> b[2]; std::unique_ptr<conviqt::sky> s[2]; std::unique_ptr<conviqt::detector> d[2]; conviqt::pointing p; std::unique_ptr<conviqt::convolver> c;
    XW(CApi &a_, MPI_Comm m, int r) : a(a_), comm(m), rank(r) {}
    void put(double x) { log.push_back(x); }
    template<class F> void code(F f) { int r = 0; try { f(); } catch (...) { r = -1; } put(r); }
    void init() { for (int k = 0; k < 2; ++k) { b[k].reset(new conviqt::beam); s[k].reset(new conviqt::sky); d[k].reset(k ? new conviqt::detector("two") : new conviqt::detector); } code([&] { b[1]->read(0, 0, true, a.fb, comm); }); code([&] { s[1]->read(0, true, a.fs2, 0, comm); }); code([&] { d[1]->set_epsilon(0.5); }); }
    void cnew(bool pl, long l, long m, long o) { if (c) { c.reset(); put(0); } try { c.reset(new conviqt::convolver(s[0].get(), b[0].get(), d[0].get(), pl, l, m, o, 0, comm)); put(1); } catch (...) { put(0); } }
    void step(int op) {
      switch (op) {
      case BREAD: code([&] { b[0]->read(-1, -1, true, a.fb, comm); }); break; case BREADU: code([&] { b[0]->read(2, 1, false, a.fb, comm); }); break; case BREADX: code([&] { b[0]->read(0, 0, true, "/nonexistent/x", comm); }); break; case BREADL: code([&] { b[0]->read(9, 0, true, a.fb, comm); }); break; case BREADM: code([&] { b[0]->read(0, 0, false, a.bad, comm); }); break;
      case BNORM: put(b[0]->normalize()); break; case SREAD: code([&] { s[0]->read(-1, true, a.fs, 0, comm); }); break; case SREADX: code([&] { s[0]->read(0, true, "/nonexistent/x", 0, comm); }); break; case SREADU: code([&] { s[0]->read(2, false, a.fs, 30, comm); }); break; case SREADL: code([&] { s[0]->read(9, false, a.fs, 0, comm); }); break;
      case MONO: code([&] { s[0]->remove_monopole(); }); break; case DIP: code([&] { s[0]->remove_dipole(); }); break; case EPS: code([&] { d[0]->set_epsilon(0.125); }); break; case ID: code([&] { d[0]->set_id("detector one"); }); break;
      case PALLOC: case PBAD: code([&] { p.alloc(15); }); rows(&p[0], op == PBAD, rank); break; case PEMPTY: code([&] { p.alloc(0); }); break;
      case CNEW: cnew(false, -1, -1, 3); break; case CNEWP: cnew(true, 2, 1, 5); break; case CNEWX: cnew(false, 9, 1, 3); break; case CNEWH: cnew(false, 200000, 1, 3); break; case CNEWO: cnew(false, -1, -1, -1); break;
      case SETB2: if (c) code([&] { c->set_beam(b[1].get()); }); break; case SETS2: if (c) code([&] { c->set_sky(s[1].get()); }); break; case SETD2: if (c) code([&] { c->set_detector(d[1].get()); }); break;
      case CONV: case CONVC: if (c) code([&] { c->convolve(p, op == CONVC); }); break;
      case BNEW: if (c) { c.reset(); put(0); } b[0].reset(new conviqt::beam); put(0); break; case DNEW: if (c) { c.reset(); put(0); } d[0].reset(new conviqt::detector("fresh")); put(0); break; case CDEL: if (c) { c.reset(); put(0); } break;
      }
    }
    template<class F> void alm(F f) { AlmF *q = 0; try { q = &f(); } catch (...) {} put(q != 0); if (q) for (int m = 0; m <= q->Mmax(); ++m) for (int l = m; l <= q->Lmax(); ++l) { put((*q)(l, m).re); put((*q)(l, m).im); } }
    void observe() {
      for (int k = 0; k < 2; ++k) { put(b[k]->get_lmax()); put(b[k]->get_mmax()); put(b[k]->normalized()); put(s[k]->get_lmax()); put(0); put(d[k]->get_epsilon()); put(0); note += d[k]->get_id() + "|";
        if (b[k]->get_lmax() >= 0) { alm([&]() -> AlmF & { return b[k]->blmT(); }); alm([&]() -> AlmF & { return b[k]->blmG(); }); alm([&]() -> AlmF & { return b[k]->blmC(); }); } if (s[k]->get_lmax() >= 0) { alm([&]() -> AlmF & { return s[k]->slmT(); }); alm([&]() -> AlmF & { return s[k]->slmG(); }); alm([&]() -> AlmF & { return s[k]->slmC(); }); } }
      put(p.size()); for (size_t k = 0; k < p.size(); ++k) put(p[k]);
    }
    void done() { if (c) put(0); for (int k = 0; k < 7; ++k) put(0); }
  };
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override {
    // the empty beam's factor is not specified
    CW c(*this, comm, rank); try { run(i, c); } catch (...) { o.note = "an exception escaped from the C interface"; return; }
    XW x(*this, comm, rank); run(i, x);
    if (c.note != x.note) { o.note = "identifiers differ: " + c.note + " vs " + x.note; return; }
    if (c.log.size() != x.log.size()) { o.note = strf("the C interface made %zu observations, the C++ interface %zu", c.log.size(), x.log.size()); }
    for (size_t k = 0; k < std::min(c.log.size(), x.log.size()); ++k) { double u = c.log[k], v = x.log[k]; bool integral = u == (long)u && v == (long)v; if (!same(u, v) && !(u == v) && (integral ? (u == 0) != (v == 0) || u > 0 : !rel(u, v, 1e-9))) { o.note = strf("observation %zu: C interface %.17g, C++ interface %.17g", k, u, v); break; } }
    for (double v : c.log) o.put(v);
  }
  string check(size_t, const vector<Out> &o) override { for (size_t r = 0; r < o.size(); ++r) if (o[r].note.size()) return strf("rank %zu: ", r) + o[r].note; return ""; }
};
int main(int argc, char **argv) {
  Registry reg;
  reg["norm"] = [] { return new Norm; }; reg["hist"] = [] { return new History(1); }; reg["histpair"] = [] { return new History(1, true); }; reg["hist2"] = [] { return new History(2); }; reg["skyprep"] = [] { return new SkyPrep; };
  reg["capi"] = [] { return new CApi(1); }; reg["capi2"] = [] { return new CApi(2); };
  return main_(argc, argv, reg);
}
