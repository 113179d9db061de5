// Limits, memory and errors: P11 (limits), P06 (memory safety and uninitialised data), P07 (collective errors).
#include "convlib.hpp"
#include <sys/resource.h>
static string path(const string &t) { return tmpfile(strf("%s_%d", t.c_str(), getpid())); }
static string what() { try { throw; } catch (std::exception &e) { return e.what(); } catch (...) { return "LEVELSError"; } }
typedef levels::Alm<xcomplex<float> > AlmF;
static void dump(AlmF &a, Out &o) { o.put(a.Lmax()); o.put(a.Mmax()); for (int m = 0; m <= a.Mmax(); ++m) for (int l = m; l <= a.Lmax(); ++l) { o.put(a(l, m).re); o.put(a(l, m).im); } }
static void expect(const ref::Alm &c, int L, int M, vector<double> &v) { v.push_back(L); v.push_back(M); for (int m = 0; m <= M; ++m) for (int l = m; l <= L; ++l) { auto x = c.get(l, m); v.push_back((float)x.real()); v.push_back((float)x.imag()); } }

// ---- P11: limits of expansions read from file ---------------------------------------------------
struct ReadLim : Suite {
  struct C { bool sky; int F, G, l, m; bool pol, keys; int n; }; vector<C> c; std::map<vector<int>, string> files;
  void prepare() override {
    int hi = thorough() ? 6 : 4;
    for (int n = 1; n <= 3; ++n) for (int F = 0; F <= hi; ++F) for (int G = 0; G <= F; ++G) for (int keys = 0; keys < 2; ++keys) {
      string f = path(strf("rl_%d_%d_%d", F, G, keys)); if (n == 1) { auto t = tables(dense(11 + F*7 + G, F, G, true)); for (auto &x : t) x.keys = keys; fitsgen::write(f, t); } files[{F, G, keys}] = f;
      for (int pol = 0; pol < 2; ++pol) for (int l = -2; l <= hi + 1; ++l) { c.push_back({true, F, G, l, 0, (bool)pol, (bool)keys, n}); if (n == 3 && !thorough()) continue; for (int m = -2; m <= hi + 1; ++m) c.push_back({false, F, G, l, m, (bool)pol, (bool)keys, n}); }
    }
  }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].n; }
  string describe(size_t i) override { auto &x = c[i]; return strf("%s::read(lmax=%d%s, pol=%d) of a file with lmax=%d mmax=%d%s on %d ranks", x.sky ? "sky" : "beam", x.l, x.sky ? "" : strf(", mmax=%d", x.m).c_str(), x.pol, x.F, x.G, x.keys ? "" : " without size keywords", x.n); }
  bool ok(const C &x, int &L, int &M) {
    L = x.l > 0 ? x.l : x.F; if (x.l > x.F) return false;
    if (x.sky) { M = L; return x.G >= L; }
    M = x.m > 0 ? x.m : std::min(L, x.G); return x.m <= x.G && M <= L;
  }
  void body(size_t i, int, MPI_Comm comm, Out &o) override {
    auto &x = c[i]; string f = files[{x.F, x.G, x.keys}];
    try {
      if (x.sky) { conviqt::sky s; s.read(x.l, x.pol, f, 0, comm); o.put(0); o.put(s.get_lmax()); dump(s.slmT(), o); if (x.pol) { dump(s.slmG(), o); dump(s.slmC(), o); } conviqt::sky s2(x.l, x.pol, f, 0, comm); o.put(s2.get_lmax()); }
      else { conviqt::beam b; b.read(x.l, x.m, x.pol, f, comm); o.put(0); o.put(b.get_lmax()); o.put(b.get_mmax()); dump(b.blmT(), o); if (x.pol) { dump(b.blmG(), o); dump(b.blmC(), o); } conviqt::beam b2(x.l, x.m, x.pol, f, comm); o.put(b2.get_lmax()); }
    } catch (...) { o.d.assign(1, -1); o.note = what(); }
  }
  string check(size_t i, const vector<Out> &o) override {
    auto &x = c[i]; int L, M; bool good = ok(x, L, M); Exp e = dense(11 + x.F*7 + x.G, x.F, x.G, true);
    vector<double> v{-1}; if (good) { v = {0, (double)L}; if (!x.sky) v.push_back(M); for (int k = 0; k < (x.pol ? 3 : 1); ++k) expect(e.c[k], L, M, v); v.push_back(L); }
    for (size_t r = 0; r < o.size(); ++r) {
      if (o[r].d[0] != v[0]) return strf("rank %zu: expected to %s but it %s", r, good ? "succeed" : "fail", good ? ("failed: " + o[r].note).c_str() : "succeeded");
      if (o[r].d != v) { size_t k = 0; while (k < v.size() && k < o[r].d.size() && o[r].d[k] == v[k]) ++k; return strf("rank %zu: entry %zu of the limits and coefficients is %.9g, expected %.9g (expected limits %d, %d)", r, k, k < o[r].d.size() ? o[r].d[k] : NAN, k < v.size() ? v[k] : NAN, L, M); }
    }
    return "";
  }
};
// ---- P11, P06: limits of the convolver ------------------------------------------------------------
struct ConvLim : Suite {
  struct C { int S, B, M, L, K, order; bool sp, bp, pol; int n; }; vector<C> c; bool values;
  ConvLim(bool v) : values(v) {}
  void prepare() override {
    int hi = thorough() ? 4 : 3;
    vector<int> orders = values ? vector<int>{-1, 0, 3} : vector<int>{-3, -1, 0, 1, 2, 5, 9};
    for (int n = 1; n <= (values ? 2 : 3); ++n) for (int S = -1; S <= hi; ++S) for (int B = -1; B <= hi; ++B) for (int M = B < 0 ? -1 : 0; M <= B; ++M)
      for (int q = 0; q < 8; ++q) { bool sp = q & 1, bp = q & 2, pol = q & 4; if (n > 1 && q != 7 && q != 5 && q != 0) continue; if (!values && (q == 1 || q == 2 || q == 3)) continue;
        for (int L = -2; L <= hi + 1; ++L) for (int K = -2; K <= hi + 1; ++K) for (int order : orders) { if (n > 1 && (L + K + order) % 3) continue; if (!thorough() && order < 0 && (L < 1 || K < 0)) continue; c.push_back({S, B, M, L, K, order, sp, bp, pol, n}); } }
  }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].n; }
  size_t batch() override { return 200; }
  string describe(size_t i) override { auto &x = c[i]; return strf("convolver(pol=%d, lmax=%d, mmax=%d, order=%d) of sky(lmax=%d, pol=%d) and beam(lmax=%d, mmax=%d, pol=%d) on %d ranks", x.pol, x.L, x.K, x.order, x.S, x.sp, x.B, x.M, x.bp, x.n); }
  bool ok(const C &x, int &L, int &K) { L = x.L < 0 ? std::min(x.S, x.B) : x.L; K = x.K < 0 ? x.M : x.K; if (L > x.S || L > x.B || K > x.M || L < 1 || x.order < 0) return false; K = std::min(K, L); return !x.pol || (x.sp && x.bp); }
  static vector<Dir> dirs() { return {{0.3, 0.7, 0.2}, {-2.5, 2.4, -0.4}, {PI/2, 1.1, 1.7}}; }
  SysP get(const C &x) { // -1: never read
    static std::map<vector<int>, SysP> m; auto &r = m[{x.S, x.B, x.M, x.sp, x.bp, getpid()}]; if (r) return r;
    r = std::make_shared<Sys>(); r->es = dense(21 + x.S, std::max(x.S, 0), std::max(x.S, 0), x.sp); r->eb = dense(31 + x.B*5 + x.M, std::max(x.B, 0), std::max(x.M, 0), x.bp);
    if (x.S >= 0) { string f = path(strf("cs%d%d", x.S, x.sp)); fitsgen::write(f, tables(r->es)); r->s.read(0, x.sp, f, 0, MPI_COMM_SELF); unlink(f.c_str()); }
    if (x.B >= 0) { string f = path(strf("cb%d%d%d", x.B, x.M, x.bp)); fitsgen::write(f, tables(r->eb)); r->b.read(0, 0, x.bp, f, MPI_COMM_SELF); unlink(f.c_str()); }
    return r;
  }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override {
    auto &x = c[i]; auto s = get(x); conviqt::pointing p; load(p, dirs());
    try { conviqt::convolver cv(&s->s, &s->b, &s->d, x.pol, x.L, x.K, x.order, 0, comm); o.note = "constructed; "; int rc = cv.convolve(p, false); o.put(rc); for (size_t k = 0; k < p.size()/5; ++k) o.put(p[5*k+3]); }
    catch (...) { o.d.assign(1, -1); o.note += what(); }
  }
  string check(size_t i, const vector<Out> &o) override {
    auto &x = c[i]; int L, K; bool good = ok(x, L, K), limits = L <= x.S && L <= x.B && K <= x.M && L >= 1 && x.order >= 0;
    for (size_t r = 0; r < o.size(); ++r) {
      if ((o[r].d[0] == 0) != good) return strf("rank %zu: expected to %s but it %s", r, good ? "be accepted" : "be rejected", good ? ("failed: " + o[r].note).c_str() : "was accepted");
      if ((o[r].note.compare(0, 11, "constructed") == 0) != limits) return strf("rank %zu: these limits are %s but the constructor %s: %s", r, limits ? "legal" : "illegal", limits ? "failed" : "succeeded", o[r].note.c_str());
      if (!good) continue;
      if (o[r].d.size() != dirs().size() + 1) return strf("rank %zu: %zu rows", r, o[r].d.size() - 1);
      if (!values) { for (double v : o[r].d) if (!std::isfinite(v)) return strf("rank %zu: signal is not finite", r); continue; }
      Exp es = dense(21 + x.S, x.S, x.S, x.sp), eb = dense(31 + x.B*5 + x.M, x.B, x.M, x.bp);
      static std::map<vector<int>, std::shared_ptr<std::pair<std::pair<Exp, Exp>, std::shared_ptr<ref::Conv>>>> cache; auto &q = cache[{x.S, x.B, x.M, L, K, x.pol, x.sp, x.bp}];
      if (!q) { q = std::make_shared<std::pair<std::pair<Exp, Exp>, std::shared_ptr<ref::Conv>>>(); q->first = {es, eb}; q->second = std::make_shared<ref::Conv>(L, K, x.pol ? 3 : 1, q->first.first.c, q->first.second.c); }
      auto d = dirs(); for (size_t k = 0; k < d.size(); ++k) { double tol = tolerance(*q->second, x.order, d[k]), e = q->second->interp(x.order, d[k].theta, d[k].phi, d[k].psi); if (!close(o[r].d[k+1], e, tol) && !q->second->matches(o[r].d[k+1], x.order, d[k].theta, d[k].phi, d[k].psi, tol, false)) {
        if (q->second->matches(o[r].d[k+1], x.order, d[k].theta, d[k].phi, d[k].psi, tol, true)) { known("pole-ring-terms-dropped", describe(i)); continue; }
        return strf("rank %zu: signal %.17g, harmonic sum up to lmax=%d, mmax=%d gives %.17g at ", r, o[r].d[k+1], L, K, e) + fix::str(d[k]); } }
    }
    return "";
  }
};
// ---- P06: boundary directions and distributions (run with the memory monitors) ---------------------
struct Mem : Suite {
  struct C { Cfg c; vector<vector<Dir>> d; bool cal; }; vector<C> c;
  void prepare() override {
    bool T = thorough();
    vector<double> ph = {0, -0.0, PI/2, nextafter(PI/2, 0), 2*PI, -1e-300, 5e-324, 1e9, -1e9, 4e15, 1e17, -1e17, 1e300, -1e300, 1e307, -1.7e307, -PI, 3*PI/2};
    vector<double> ps = {0, -0.0, 1e17, -1e300, 1e305, PI};
    for (int lmax = 1; lmax <= (T ? 6 : 4); ++lmax) for (int mmax = 0; mmax <= lmax; ++mmax) for (int pol = 0; pol < 2; ++pol) for (int order = 0; order <= (T ? 15 : 9); ++order) {
      Cfg k{lmax, mmax, lmax + (order & 1), lmax + (order & 2), std::min(lmax + (order & 2), mmax + 1), (bool)pol, order, (unsigned)(3 + lmax + mmax)};
      vector<Dir> all; for (double t : thetas(lmax, true)) for (double p : ph) all.push_back({p, t, ps[all.size() % ps.size()]});
      c.push_back({k, {all}, (bool)(order & 1)}); // together
      for (double t : thetas(lmax, true)) { size_t q = c.size(); c.push_back({k, {{{ph[q % ph.size()], t, ps[q % ps.size()]}}}, false}); } // alone: the extreme ring of the grid
      for (double t : thetas(lmax, false)) { size_t q = c.size(); c.push_back({k, {{{ph[q % ph.size()], t, 0}}, {{0.1, PI - t < 0 ? 0 : PI - t, 1}}}, false}); }
    }
    for (int n = 1; n <= 4; ++n) for (int cf = 0; cf < 3; ++cf) for (auto rws : vector<vector<int>>{{}, {1}, {4, 3}, {1, 1, 1}, {0, 3, 4, 1}, {7, 7, 1, 7, 3, 10, 10}, {0,1,2,3,4,5,6,7,8,9,10,11}})
      splits(rws, n, [&](const Lists &l) { Cfg k = cf == 0 ? cfg(1, 0, false, 0) : cf == 1 ? cfg(3, 2, true, 3) : cfg(6, 4, true, 9); vector<vector<Dir>> d(n); for (int r = 0; r < n; ++r) for (int q : l[r]) d[r].push_back(special(k.lmax)[q]); c.push_back({k, d, true}); });
    for (int lmax : {20, 48, 80}) for (int order : {1, 9}) { vector<Dir> all; for (auto &d : dirset(lmax)) all.push_back(d); c.push_back({cfg(lmax, 4, true, order), {all}, true}); c.push_back({cfg(lmax, 4, false, order), {all, {}, all}, true}); }
    std::stable_sort(c.begin(), c.end(), [](const C &a, const C &b) { return a.d.size() < b.d.size(); });
  }
  size_t size() override { return c.size(); }
  size_t batch() override { return 100; }
  double timeout() override { return 120; }
  int nranks(size_t i) override { return c[i].d.size(); }
  string describe(size_t i) override { auto &x = c[i]; string s = ::str(x.c) + " rows per rank"; for (auto &r : x.d) { s += " ["; for (size_t k = 0; k < r.size() && k < 3; ++k) s += fix::str(r[k]); if (r.size() > 3) s += strf("... %zu rows", r.size()); s += "]"; } return s; }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override {
    auto &x = c[i]; auto s = sys(x.c); conviqt::pointing p; load(p, x.d[rank]); conviqt::convolver cv(&s->s, &s->b, &s->d, x.c.pol, x.c.lmax, x.c.mmax, x.c.order, 0, comm); int rc = cv.convolve(p, x.cal); o.put(rc); o.put(p.size()); for (size_t k = 0; k < p.size()/5; ++k) o.put(p[5*k+3]);
  }
  string check(size_t i, const vector<Out> &o) override { for (size_t r = 0; r < o.size(); ++r) { if (o[r].d[0] != 0 || o[r].d[1] != 5*c[i].d[r].size()) return strf("rank %zu failed or lost rows", r); for (double v : o[r].d) if (!std::isfinite(v)) return strf("rank %zu: signal is not finite", r); } return ""; }
};
// ---- P07: illegal angles ----------------------------------------------------------------------------
struct BadAngle : Suite {
  struct B { int col; double v; }; vector<B> bad; struct C { int n, mask, kind, rows, pos; bool pol; }; vector<C> c; Cfg cc[2]; vector<double> good[2];
  void prepare() override {
    double inf = INFINITY;
    for (double v : {(double)NAN, inf, -inf, -1e-300, -0.1, nextafter(PI, 4), PI + 1e-12, 4.0, 1e300}) bad.push_back({1, v});
    for (int col : {0, 2}) for (double v : {(double)NAN, inf, -inf}) bad.push_back({col, v});
    cc[0] = cfg(2, 1, false, 1); cc[1] = cfg(3, 2, true, 3);
    for (int p = 0; p < 2; ++p) { auto s = sys(cc[p]); for (auto &d : special(cc[p].lmax)) { conviqt::pointing q; load(q, {d}); conviqt::convolver cv(&s->s, &s->b, &s->d, cc[p].pol, cc[p].lmax, cc[p].mmax, cc[p].order, 0, MPI_COMM_SELF); cv.convolve(q, false); good[p].push_back(q[3]); } }
    for (int n = 1; n <= (thorough() ? 5 : 4); ++n) for (int mask = 1; mask < (1 << n); ++mask) for (size_t k = 0; k < bad.size(); ++k) for (int rows = 0; rows <= 3; ++rows) for (int pos = 0; pos < 3; ++pos) c.push_back({n, mask, (int)k, rows, pos, (bool)((mask + k + rows) & 1)});
  }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].n; }
  string describe(size_t i) override { auto &x = c[i]; return strf("%d ranks; %s = %g on the ranks of mask %d; %d further rows per rank; position %d; pol=%d", x.n, bad[x.kind].col == 0 ? "phi" : bad[x.kind].col == 1 ? "theta" : "psi", bad[x.kind].v, x.mask, x.rows, x.pos, x.pol); }
  vector<Dir> rows(const C &x, int r, bool with) { auto sp = special(cc[x.pol].lmax); vector<Dir> d; for (int k = 0; k < x.rows; ++k) d.push_back(sp[(r*5 + k) % sp.size()]); if (with && (x.mask >> r & 1)) { Dir b = sp[0]; (bad[x.kind].col == 0 ? b.phi : bad[x.kind].col == 1 ? b.theta : b.psi) = bad[x.kind].v; d.insert(d.begin() + std::min<int>(d.size(), x.pos == 0 ? 0 : x.pos == 1 ? d.size()/2 : d.size()), b); } return d; }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override {
    auto &x = c[i]; auto &k = cc[x.pol]; auto s = sys(k); conviqt::convolver cv(&s->s, &s->b, &s->d, k.pol, k.lmax, k.mmax, k.order, 0, comm);
    auto d = rows(x, rank, true); conviqt::pointing p; load(p, d, -1, -2); int thrown = 0; try { cv.convolve(p, true); } catch (std::exception &) { thrown = 1; } catch (...) { thrown = 2; }
    int same_ = p.size() == 5*d.size(); for (size_t q = 0; q < d.size() && same_; ++q) if (memcmp(&p[5*q], &d[q], 24)) same_ = 0;
    o.put(thrown); o.put(same_);
    auto g = rows(x, rank, false); conviqt::pointing p2; load(p2, g); try { o.put(cv.convolve(p2, false)); } catch (...) { o.put(-1); } for (size_t q = 0; q < p2.size()/5; ++q) o.put(p2[5*q+3]);
    int un = 1; Exp &es = s->es, &eb = s->eb; for (int m = 0; m <= es.lmax; ++m) for (int l = m; l <= es.lmax; ++l) if (s->s.slmT()(l, m).re != es.c[0].at(l, m).real()) un = 0; for (int m = 0; m <= eb.mmax; ++m) for (int l = m; l <= eb.lmax; ++l) if (s->b.blmT()(l, m).im != eb.c[0].at(l, m).imag()) un = 0; o.put(un);
  }
  string check(size_t i, const vector<Out> &o) override {
    auto &x = c[i]; auto sp = special(cc[x.pol].lmax); auto rc = refconv(cc[x.pol]);
    for (int r = 0; r < x.n; ++r) { auto &d = o[r].d; if (d[0] != 1) return strf("rank %d: the convolution of an illegal angle %s", r, d[0] ? "failed with an unexpected exception type" : "did not fail"); if (d[1] != 1) return strf("rank %d: the failed convolution changed the caller's rows", r);
      if (d[2] != 0) return strf("rank %d: the following valid convolution failed", r); if ((int)d.size() != 4 + x.rows) return strf("rank %d: the following valid convolution lost rows", r);
      for (int k = 0; k < x.rows; ++k) { int q = (r*5 + k) % sp.size(); if (!close(d[3+k], good[x.pol][q], tolerance(*rc, cc[x.pol].order, sp[q]))) return strf("rank %d: the following valid convolution gives %.17g instead of %.17g", r, d[3+k], good[x.pol][q]); }
      if (d.back() != 1) return strf("rank %d: the sky or the beam was modified", r); }
    return "";
  }
};
// ---- P07: reading, constructing and replacing with defective inputs -----------------------------------
static void limit_memory() { // at most 3 GB more than now
#ifndef __SANITIZE_ADDRESS__
  static bool done = false; if (done) return; done = true; long pages = 0; FILE *f = fopen("/proc/self/statm", "r"); if (f) { if (fscanf(f, "%ld", &pages) != 1) pages = 0; fclose(f); } rlimit r; getrlimit(RLIMIT_AS, &r); r.rlim_cur = pages*4096UL + (3UL << 30); setrlimit(RLIMIT_AS, &r);
#endif
}
struct BadInput : Suite {
  vector<std::pair<string, string>> files; // description, path
  struct C { int n, file, obj; bool pol; }; vector<C> c; string gs, gb; Cfg k0;
  enum { SKY, BEAM, SKY_CTOR, BEAM_CTOR, NOBJ };
  static void raw(const string &p, const string &data) { FILE *f = fopen(p.c_str(), "wb"); fwrite(data.data(), 1, data.size(), f); fclose(f); }
  static string slurp(const string &p) { string s; FILE *f = fopen(p.c_str(), "rb"); char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
  void prepare() override {
    k0 = cfg(3, 2, true, 1); gs = path("good_s"); gb = path("good_b"); fitsgen::write(gs, tables(dense(41, 3, 3, true))); fitsgen::write(gb, tables(dense(42, 3, 2, true)));
    auto add = [&](const string &d, const string &p) { files.push_back({d, p}); };
    add("missing file", path("missing")); add("empty name", ""); add("a directory", vf::scratch()); add("a name of 3000 characters", string(3000, 'x'));
    raw(path("empty"), ""); add("empty file", path("empty")); raw(path("junk"), string(5000, 'q')); add("not a FITS file", path("junk"));
    string good = slurp(gs); for (size_t cut = 0; cut < good.size(); cut += thorough() ? 80 : 480) { string p = path(strf("cut%zu", cut)); raw(p, good.substr(0, cut)); add(strf("file truncated to %zu of %zu bytes", cut, good.size()), p); }
    auto tab = [&](const string &d, std::function<void(vector<fitsgen::Table> &)> f) { auto t = tables(dense(43, 3, 3, true)); f(t); string p = path(strf("mal%zu", files.size())); fitsgen::write(p, t); add(d, p); };
    tab("no tables", [](auto &t) { t.clear(); }); 
    for (long v : {0L, -1L, -2147483647L, -2147483648L}) for (int w : {0, 4}) tab(strf("index %ld in row %d", v, w), [&](auto &t) { for (auto &x : t) { x.rawindex.resize(x.rows.size()); for (size_t i = 0; i < x.rows.size(); ++i) { auto &r = x.rows[i]; x.rawindex[i] = r.l*r.l + r.l + r.m + 1; } x.rawindex[w] = v; } });
    for (long v : {0L, -5L, 1L}) tab(strf("index %ld, no size keywords", v), [&](auto &t) { for (auto &x : t) { x.keys = false; x.rawindex.assign(1, v); } });
    tab("index with negative m", [](auto &t) { for (auto &x : t) x.rawindex = {1, 2}; });
    tab("only one column", [](auto &t) { for (auto &x : t) x.ncols = 1; }); tab("two columns", [](auto &t) { for (auto &x : t) x.ncols = 2; });
    tab("no rows, no keywords", [](auto &t) { for (auto &x : t) { x.rows.clear(); x.keys = false; } });
    for (int v : {-1, -2, -1000000}) tab(strf("size keywords %d", v), [&](auto &t) { for (auto &x : t) x.lkey = x.mkey = v; });
    tab("MAX-MPOL above MAX-LPOL", [](auto &t) { for (auto &x : t) { x.lkey = 3; x.mkey = 5; } });
#ifndef __SANITIZE_ADDRESS__
    tab("huge size keywords", [](auto &t) { for (auto &x : t) { x.lkey = 2147483647; x.mkey = 2147483647; } }); tab("huge MAX-LPOL", [](auto &t) { for (auto &x : t) { x.lkey = 2147483647; x.mkey = 2; } }); tab("large MAX-LPOL", [](auto &t) { for (auto &x : t) { x.lkey = 50000; x.mkey = 3; } });
#endif
    tab("second table missing", [](auto &t) { t.resize(1); }); tab("third table missing", [](auto &t) { t.resize(2); });
    tab("smaller second table", [](auto &t) { t[1].lkey = t[1].mkey = 1; t[1].rows.resize(3); });
    for (int n = 1; n <= 3; ++n) for (int o = 0; o < NOBJ; ++o) for (size_t f = 0; f < files.size(); ++f) for (int p = 0; p < 2; ++p) c.push_back({n, (int)f, o, (bool)p});
  }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].n; }
  string describe(size_t i) override { auto &x = c[i]; const char *o[] = {"sky::read", "beam::read", "sky constructor", "beam constructor"}; return strf("%s of %s, pol=%d, %d ranks", o[x.obj], files[x.file].first.c_str(), x.pol, x.n); }
  // may a read of this file succeed?  (a missing polarised table does not matter to an unpolarised read, etc.)
  double timeout() override { return 60; }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override {
    auto &x = c[i]; string f = files[x.file].second; limit_memory(); conviqt::sky s; conviqt::beam b; conviqt::detector d; s.read(0, true, gs, 0, comm); b.read(0, 0, true, gb, comm); conviqt::convolver cv(&s, &b, &d, true, 3, 2, 1, 0, comm);
    b.normalize(); int thrown = 0;
    try { switch (x.obj) { case SKY: s.read(0, x.pol, f, 0, comm); break; case BEAM: b.read(0, 0, x.pol, f, comm); break; case SKY_CTOR: { conviqt::sky t(0, x.pol, f, 0, comm); } break; case BEAM_CTOR: { conviqt::beam t(0, 0, x.pol, f, comm); } break; } } catch (std::exception &) { thrown = 1; } catch (...) { thrown = 2; }
    o.put(thrown);
    if (thrown || x.obj >= SKY_CTOR) { // the objects must be as before
      o.put(s.get_lmax()); o.put(b.get_lmax()); o.put(b.get_mmax()); o.put(b.normalized()); conviqt::pointing p; load(p, special(3)); try { o.put(cv.convolve(p, true)); for (size_t k = 0; k < p.size()/5; ++k) o.put(p[5*k+3]); } catch (...) { o.put(-1); }
    } else { // and usable otherwise: whatever was read, the next call fails or succeeds everywhere
      conviqt::pointing p; load(p, special(3)); o.put(x.obj == SKY ? s.get_lmax() : b.get_lmax()); o.put(x.obj == SKY ? checksum(s.slmT(), 1) + (x.pol ? checksum(s.slmG(), 2) + checksum(s.slmC(), 3) : 0) : checksum(b.blmT(), 1) + (x.pol ? checksum(b.blmG(), 2) + checksum(b.blmC(), 3) : 0)); try { o.put(cv.convolve(p, true)); } catch (...) { o.put(-1); } s.read(0, true, gs, 0, comm); b.read(0, 0, true, gb, comm); b.normalize(); try { load(p, special(3)); o.put(cv.convolve(p, true)); for (size_t k = 0; k < p.size()/5; ++k) o.put(p[5*k+3]); } catch (...) { o.put(-1); } }
  }
  static double checksum(AlmF &a, int k) { double w = 0; for (int m = 0; m <= a.Mmax(); ++m) for (int l = m; l <= a.Lmax(); ++l) w += k*((1 + l + 10*m)*(double)a(l, m).re + (3 + l*m)*(double)a(l, m).im); return w; }
  vector<double> ref_;
  string check(size_t i, const vector<Out> &o) override {
    auto &x = c[i]; const string &fd = files[x.file].first;
    for (size_t r = 1; r < o.size(); ++r) { if ((o[r].d[0] != 0) != (o[0].d[0] != 0)) return strf("rank %zu %s while rank 0 %s", r, o[r].d[0] ? "failed" : "succeeded", o[0].d[0] ? "failed" : "succeeded"); if (o[r].d != o[0].d) return strf("ranks 0 and %zu differ afterwards", r); }
    bool must = fd.find("missing file") == 0 || fd == "empty name" || fd.find("a ") == 0 || fd.find("empty file") == 0 || fd.find("not a FITS") == 0 || fd == "no tables" || fd.find("two columns") == 0 || fd.find("only one") == 0 || (x.pol && fd.find("table missing") != string::npos) || fd.find("huge size") == 0 || fd.find("index with negative m") == 0;
    auto &d = o[0].d; if (must && !d[0]) return "an unusable file was read without an error";
    if (ref_.empty()) { auto rc = std::make_shared<Sys>(); rc->s.read(0, true, gs, 0, MPI_COMM_SELF); rc->b.read(0, 0, true, gb, MPI_COMM_SELF); rc->b.normalize(); conviqt::convolver cv(&rc->s, &rc->b, &rc->d, true, 3, 2, 1, 0, MPI_COMM_SELF); conviqt::pointing p; load(p, special(3)); cv.convolve(p, true); for (size_t k = 0; k < p.size()/5; ++k) ref_.push_back(p[5*k+3]); }
    size_t at; if (d[0] || x.obj >= SKY_CTOR) { if (d[1] != 3 || d[2] != 3 || d[3] != 2 || d[4] != 1) return "the failed call changed the limits or the normalisation of an object"; at = 5; } else {
      at = 4; if (fd.find("truncated") != string::npos) { auto e = dense(41, 3, 3, true); double w = 0; for (int k = 0; k < (x.pol ? 3 : 1); ++k) for (int m = 0; m <= 3; ++m) for (int l = m; l <= 3; ++l) w += (k + 1)*((1 + l + 10*m)*e.c[k].at(l, m).real() + (3 + l*m)*e.c[k].at(l, m).imag()); if (d[1] != 3 || !close(d[2], w, 1e-6)) return "a truncated file was read without an error but with wrong coefficients"; } }
    if (d[at] != 0) return "the following valid convolution failed"; if (d.size() != at + 1 + ref_.size()) return "the following valid convolution lost rows";
    for (size_t k = 0; k < ref_.size(); ++k) if (!close(d[at+1+k], ref_[k], 1e-9)) return strf("the following valid convolution gives %.17g instead of %.17g", d[at+1+k], ref_[k]);
    return "";
  }
};
// ---- P07: limits and polarisation that the inputs do not support, after replacing or reading again -------------
struct BadLimits : Suite {
  // a convolver (lmax 3, mmax 2) and a sequence of input replacements; every step is convolved
  struct In { int sl, sp, bl, bm, bp; }; vector<In> in; struct C { int n; bool pol; int viaread; vector<int> seq; }; vector<C> c; std::map<vector<int>, string> fs, fb;
  void prepare() override {
    in = {{3,1,3,2,1}, {2,1,3,2,1}, {3,0,3,2,1}, {3,1,2,2,1}, {3,1,3,1,1}, {3,1,3,2,0}, {4,1,4,3,1}};
    for (int l = 2; l <= 4; ++l) { fs[{l}] = path(strf("bl_s%d", l)); fitsgen::write(fs[{l}], tables(dense(50 + l, l, l, true))); for (int m = 1; m <= 3 && m <= l; ++m) { fb[{l, m}] = path(strf("bl_b%d%d", l, m)); fitsgen::write(fb[{l, m}], tables(dense(60 + l*4 + m, l, m, true))); } }
    int N = in.size();
    for (int n = 1; n <= 3; ++n) for (int pol = 0; pol < 2; ++pol) for (int via = 0; via < 2; ++via) { for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) { if (thorough() || n < 3) for (int q = 0; q < N; ++q) c.push_back({n, (bool)pol, via, {a, b, q}}); else c.push_back({n, (bool)pol, via, {a, b}}); } }
  }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].n; }
  string describe(size_t i) override { auto &x = c[i]; string s = strf("%d ranks, pol=%d, inputs %s:", x.n, x.pol, x.viaread ? "read again" : "replaced"); for (int q : x.seq) s += strf(" sky(%d,pol%d)+beam(%d,%d,pol%d)", in[q].sl, in[q].sp, in[q].bl, in[q].bm, in[q].bp); return s; }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override {
    auto &x = c[i]; conviqt::detector d; auto s = std::make_shared<conviqt::sky>(); auto b = std::make_shared<conviqt::beam>(); vector<std::shared_ptr<conviqt::sky>> ks{s}; vector<std::shared_ptr<conviqt::beam>> kb{b};
    s->read(0, true, fs[{3}], 0, comm); b->read(0, 0, true, fb[{3, 2}], comm); conviqt::convolver cv(s.get(), b.get(), &d, x.pol, 3, 2, 3, 0, comm);
    for (int q : x.seq) { auto &t = in[q]; if (!x.viaread) { s = std::make_shared<conviqt::sky>(); b = std::make_shared<conviqt::beam>(); ks.push_back(s); kb.push_back(b); }
      s->read(0, t.sp, fs[{t.sl}], 0, comm); b->read(0, 0, t.bp, fb[{t.bl, t.bm}], comm); if (!x.viaread) { cv.set_sky(s.get()); cv.set_beam(b.get()); }
      auto dd = special(3); if (rank == 1) dd.resize(1); if (rank == 2) dd.clear(); conviqt::pointing p; load(p, dd); int rc; try { rc = cv.convolve(p, false); } catch (std::exception &) { rc = -1; } catch (...) { rc = -2; }
      o.put(rc); int inplace = p.size() == 5*dd.size(); for (size_t k = 0; inplace && k < dd.size(); ++k) if (memcmp(&p[5*k], &dd[k], 24)) inplace = 0; o.put(inplace); if (rank == 0) for (size_t k = 0; k < dd.size(); ++k) o.put(rc == 0 && inplace ? p[5*k+3] : 0); }
  }
  string check(size_t i, const vector<Out> &o) override {
    auto &x = c[i]; auto dd = special(3);
    for (size_t r = 0; r < o.size(); ++r) { size_t at = 0; for (size_t q = 0; q < x.seq.size(); ++q) { auto &t = in[x.seq[q]]; bool good = t.sl >= 3 && t.bl >= 3 && t.bm >= 2 && (!x.pol || (t.sp && t.bp)); double rc = o[r].d[at++], ip = o[r].d[at++];
      if ((rc == 0) != good) return strf("rank %zu, step %zu: expected to %s, return code %g", r, q, good ? "succeed" : "fail", rc); if (!ip) return strf("rank %zu, step %zu: the caller's rows changed", r, q);
      if (r == 0) for (size_t k = 0; k < dd.size(); ++k, ++at) if (good) {
        static std::map<vector<int>, std::pair<std::pair<Exp, Exp>, std::shared_ptr<ref::Conv>>> cache; auto &e = cache[{t.sl, t.bl, t.bm, x.pol}]; if (!e.second) { e.first = {dense(50 + t.sl, t.sl, t.sl, true), dense(60 + t.bl*4 + t.bm, t.bl, t.bm, true)}; e.second = std::make_shared<ref::Conv>(3, 2, x.pol ? 3 : 1, e.first.first.c, e.first.second.c); }
        double tol = tolerance(*e.second, 3, dd[k]), v = o[0].d[at]; if (!e.second->matches(v, 3, dd[k].theta, dd[k].phi, dd[k].psi, tol, false)) { if (e.second->matches(v, 3, dd[k].theta, dd[k].phi, dd[k].psi, tol, true)) { known("pole-ring-terms-dropped", describe(i)); continue; } return strf("step %zu: signal %.17g, harmonic sum %.17g at ", q, v, e.second->interp(3, dd[k].theta, dd[k].phi, dd[k].psi)) + fix::str(dd[k]); } } } }
    return "";
  }
};
// ---- P06: nothing depends on the contents of fresh memory -------------------------------------------------
#include <malloc.h>
#include <alloca.h>
static void __attribute__((noinline)) dirty_stack(int v) { volatile char *q = (volatile char *)alloca(200000); for (int i = 0; i < 200000; ++i) q[i] = v; }
struct Uninit : Suite {
  struct C { Cfg c; Lists l; int file, cal; }; vector<C> c; vector<std::pair<string, string>> f; const int pat[4] = {0x55, 0xFE, 0x01, 0x80};
  void prepare() override {
    for (int k = 0; k < 4; ++k) { // complete; every second coefficient missing; rows in reverse order; no size keywords
      auto g = [&](int seed, int m) { auto t = tables(dense(seed, 4, m, true)); for (auto &x : t) { if (k == 1) { vector<fitsgen::Row> r; for (size_t i = 1; i < x.rows.size(); i += 2) r.push_back(x.rows[i]); x.rows = r; } if (k == 2) std::reverse(x.rows.begin(), x.rows.end()); if (k == 3) x.keys = false; } return t; };
      f.push_back({path(strf("un_s%d", k)), path(strf("un_b%d", k))}); fitsgen::write(f[k].first, g(71, 4)); fitsgen::write(f[k].second, g(72, 3)); }
    for (int n = 1; n <= 3; ++n) for (int lmax = 1; lmax <= 4; ++lmax) for (int mmax = 0; mmax <= std::min(lmax, 3); ++mmax) for (int pol = 0; pol < 2; ++pol) for (int order = 0; order <= (thorough() ? 9 : 5); ++order)
      for (auto rws : vector<vector<int>>{{}, {1}, {3, 4, 0}, {0,1,2,3,4,5,6,7,8,9,10,11}}) splits(rws, n, [&](const Lists &l) { size_t q = 0; for (auto &r : l) q = q*7 + r.size(); if (n > 1 && !thorough() && (q + order + mmax) % 7) return; c.push_back({Cfg{lmax, mmax, 4, 4, 3, (bool)pol, order, 1}, l, (int)((q + order) % 4), (int)((lmax + order) & 1)}); });
  }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].l.size(); }
  string describe(size_t i) override { auto &x = c[i]; return ::str(x.c) + " rows per rank " + ::str(x.l) + strf(" input files %d calibrate=%d", x.file, x.cal); }
  void once(const C &x, int rank, MPI_Comm comm, Out &o) {
    conviqt::sky s; conviqt::beam b; conviqt::detector d; conviqt::beam b0; conviqt::sky s0; o.put(b0.get_lmax()); o.put(b0.get_mmax()); o.put(b0.normalized()); o.put(s0.get_lmax()); o.put(d.get_epsilon()); o.put(b0.normalize());
    s.read(x.c.lsky, x.c.pol, f[x.file].first, 0, comm); b.read(x.c.lbeam, x.c.mbeam, x.c.pol, f[x.file].second, comm); dump(s.slmT(), o); dump(b.blmT(), o); if (x.c.pol) { dump(s.slmG(), o); dump(s.slmC(), o); dump(b.blmG(), o); dump(b.blmC(), o); }
    conviqt::convolver cv(&s, &b, &d, x.c.pol, x.c.lmax, x.c.mmax, x.c.order, 0, comm); for (int k = 0; k < 2; ++k) { vector<Dir> dd; for (int q : x.l[rank]) dd.push_back(special(x.c.lmax)[q]); conviqt::pointing p; load(p, dd); o.put(cv.convolve(p, x.cal)); o.put(p.size()); for (size_t q = 0; q < p.size(); ++q) o.put(p[q]); }
  }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override { for (int k = 0; k < 4; ++k) { mallopt(M_PERTURB, pat[k]); dirty_stack(pat[(k + 1) % 4]); once(c[i], rank, comm, o); } mallopt(M_PERTURB, 0); }
  string check(size_t i, const vector<Out> &o) override {
    for (size_t r = 0; r < o.size(); ++r) { auto &d = o[r].d; size_t n = d.size()/4; if (d.size() % 4) return "the number of results depends on the contents of fresh memory";
      for (int k = 1; k < 4; ++k) for (size_t q = 0; q < n; ++q) if (!same(d[q], d[k*n+q]) && !close(d[q], d[k*n+q], 1e-12*(1 + std::fabs(d[q])))) return strf("rank %zu: result %zu is %.17g when fresh memory holds 0x%02x and %.17g when it holds 0x%02x", r, q, d[q], pat[0], d[k*n+q], pat[k]); }
    return "";
  }
};
int main(int argc, char **argv) {
  setenv("OMP_NUM_THREADS", "1", 0);
  Registry reg;
  reg["readlim"] = [] { return new ReadLim; }; reg["convlim"] = [] { return new ConvLim(true); }; reg["convlimmem"] = [] { return new ConvLim(false); };
  reg["mem"] = [] { return new Mem; }; reg["badangle"] = [] { return new BadAngle; }; reg["badinput"] = [] { return new BadInput; }; reg["uninit"] = [] { return new Uninit; }; reg["badlimits"] = [] { return new BadLimits; };
  return main_(argc, argv, reg);
}
