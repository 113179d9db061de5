// Shared by the convolution harnesses: configurations, reference executions, sample distributions.
#ifndef CONVLIB_HPP
#define CONVLIB_HPP
#include "fix.hpp"
#include <tuple>
#include <algorithm>
using namespace vf; using namespace fix;
typedef std::shared_ptr<Sys> SysP;
struct Cfg { int lmax, mmax, lsky, lbeam, mbeam; bool pol; int order; unsigned seed; };
static string str(const Cfg &c) { return strf("lmax=%d mmax=%d sky(lmax=%d) beam(lmax=%d,mmax=%d) pol=%d order=%d", c.lmax, c.mmax, c.lsky, c.lbeam, c.mbeam, c.pol, c.order); }
static SysP sys(const Cfg &c) {
  static std::map<std::tuple<int,int,int,bool,unsigned>, SysP> m; auto k = std::make_tuple(c.lsky, c.lbeam, c.mbeam, c.pol, c.seed);
  auto &r = m[k]; if (!r) r = make(dense(c.seed, c.lsky, c.lsky, c.pol), dense(c.seed + 1000, c.lbeam, c.mbeam, c.pol)); return r;
}
static std::shared_ptr<ref::Conv> refconv(const Cfg &c) {
  static std::map<std::tuple<int,int,int,int,int,bool,unsigned>, std::shared_ptr<ref::Conv>> m; auto k = std::make_tuple(c.lmax, c.mmax, c.lsky, c.lbeam, c.mbeam, c.pol, c.seed);
  auto &r = m[k]; if (!r) { auto s = sys(c); r = std::make_shared<ref::Conv>(c.lmax, c.mmax, c.pol ? 3 : 1, s->es.c, s->eb.c); } return r;
}
static double tolerance(ref::Conv &r, int order, const Dir &d) {
  return r.scale() * lebesgue(order) * (2e-13 + 4e-16 * (std::fabs(d.phi) * (r.lmax + 1) + std::fabs(d.psi) * (r.mmax + 1)));
}
static vector<double> thetas(int lmax, bool full) {
  double h = PI/(lmax+1), e = PI/2; vector<double> t;
  for (int j = 0; j <= lmax + 1; ++j) t.push_back(std::min(PI, j*h));
  for (int j = 0; j <= lmax; ++j) { t.push_back((j+0.5)*h); if (full) t.push_back(std::min(PI, (j+0.77)*h)); }
  t.insert(t.end(), {e, nextafter(e, 0), nextafter(e, 4), 1e-7, PI-1e-7, nextafter(PI, 0)});
  if (full) t.insert(t.end(), {5e-324, 1e-300, 1e-15, PI-1e-13, e-1e-12, e+1e-12});
  return t;
}
static vector<double> phis(int lmax, bool full) {
  double hp = 2*PI/(2*lmax+1); vector<double> p = {0, PI/2, 2*PI, nextafter(2*PI,0), -1e-20, 7.0, -100.3, PI/2-hp, PI/2-0.5*hp, PI/2+0.5*hp, nextafter(PI/2,0)};
  if (full) { for (int k = 0; k < 2*lmax+1; ++k) { p.push_back(PI/2+k*hp); p.push_back(PI/2+(k+0.3)*hp); } p.insert(p.end(), {-2*PI, 4*PI, 12345.678, -1e5, 1.5*PI, PI}); }
  return p;
}
static vector<double> psis(bool full) { vector<double> p = {0, 1.1, -2.5}; if (full) p.insert(p.end(), {PI/2, PI, -PI, 1000.5}); return p; }

// ---- distribution over ranks -------------------------------------------------------------------
typedef vector<vector<int>> Lists; // direction indices per rank
static string str(const Lists &l) { string s; for (auto &r : l) { s += "["; for (int k : r) s += strf("%d ", k); if (r.size()) s.pop_back(); s += "]"; } return s; }
// every way to give an ordered list of N rows from D directions to n ranks
static void all_lists(int D, int N, int n, const std::function<void(const Lists &)> &f) {
  size_t rows = 1; for (int i = 0; i < N; ++i) rows *= D;
  vector<int> cut(n - 1, 0);
  std::function<void(int, int)> comp = [&](int k, int lo) {
    if (k == n - 1) { for (size_t c = 0; c < rows; ++c) { Lists l(n); size_t x = c; int r = 0; for (int i = 0; i < N; ++i) { while (r < n - 1 && i >= cut[r]) ++r; l[r].push_back(x % D); x /= D; } f(l); } return; }
    for (cut[k] = lo; cut[k] <= N; ++cut[k]) comp(k + 1, cut[k]);
  };
  comp(0, 0);
}
static void splits(const vector<int> &rows, int n, const std::function<void(const Lists &)> &f) {
  int N = rows.size(); vector<int> cut(n - 1, 0);
  std::function<void(int, int)> comp = [&](int k, int lo) {
    if (k == n - 1) { Lists l(n); int r = 0; for (int i = 0; i < N; ++i) { while (r < n - 1 && i >= cut[r]) ++r; l[r].push_back(rows[i]); } f(l); return; }
    for (cut[k] = lo; cut[k] <= N; ++cut[k]) comp(k + 1, cut[k]);
  };
  comp(0, 0);
}
static vector<Dir> special(int lmax) {
  double h = PI/(lmax+1);
  return {{0.3, 0.7, 0.2}, {1.9, PI/2, 1.0}, {-2.5, 2.4, -0.4}, {4.0, PI, 0.1}, {0.9, 0, 2.0}, {2.2, 1.1, 0}, {5.9, 2.4, 3.0}, {6.2, nextafter(PI/2, 0), 0.5}, {-40.1, 1.5, 1.3}, {PI/2, h, 0.25}, {3.0, 3.1, -3.0}, {0.1, 0.05, 0.6}};
}
static const vector<Dir> &dirset(int lmax) { // the special directions and a lattice of ordinary ones
  static std::map<int, vector<Dir>> m; auto &v = m[lmax]; if (v.empty()) { v = special(lmax); for (int i = 0; i < 60; ++i) v.push_back({std::fmod(i*2.399963, 2*PI) - (i % 3), std::acos(1 - 2*(i + 0.5)/60), std::fmod(i*0.77, 6.0) - 3}); }
  return v;
}
struct Job { Cfg c; Lists l; int verbosity = 0; vector<int> prio; int comm = 0; int junk = 0; bool eager = true; };
static const double JUNK[] = {0.0, NAN, 1e300, -INFINITY, 3.0, 2147483648.5};
struct ConvJobs : Suite {
  vector<Job> j; bool rows; std::map<std::tuple<int,int,int,int,int,bool,int,unsigned>, vector<double>> alone;
  ConvJobs(bool r) : rows(r) {}
  auto ckey(const Cfg &c) { return std::make_tuple(c.lmax, c.mmax, c.lsky, c.lbeam, c.mbeam, c.pol, c.order, c.seed); }
  void reference() { // every direction convolved alone on one rank
    for (auto &x : j) { auto &a = alone[ckey(x.c)]; if (a.size()) continue; auto s = sys(x.c);
      for (auto &d : dirset(x.c.lmax)) { conviqt::pointing p; load(p, {d}); conviqt::convolver cv(&s->s, &s->b, &s->d, x.c.pol, x.c.lmax, x.c.mmax, x.c.order, 0, MPI_COMM_SELF); cv.convolve(p, false); a.push_back(p[3]); } }
  }
  void group() { std::stable_sort(j.begin(), j.end(), [](const Job &a, const Job &b) { return std::make_tuple(a.l.size(), a.eager) < std::make_tuple(b.l.size(), b.eager); }); }
  size_t size() override { return j.size(); }
  int nranks(size_t i) override { return j[i].l.size(); }
  vector<int> prio(size_t i) override { return j[i].prio; }
  bool eager(size_t i) override { return j[i].eager; }
  bool nontrivial(size_t i) override { int k = 0; for (auto &r : j[i].l) k += !r.empty(); return k > 0; }
  string describe(size_t i) override { auto &x = j[i]; string s = ::str(x.c) + " rows per rank " + ::str(x.l); if (x.verbosity) s += strf(" verbosity=%d", x.verbosity); if (x.comm) s += strf(" comm=%d", x.comm); if (x.junk) s += strf(" previous signal/time=%g", JUNK[x.junk % 6]); if (x.prio.size()) { s += " schedule="; for (int p : x.prio) s += strf("%d", p); } return s; }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override {
    auto &x = j[i]; auto s = sys(x.c); auto &dirs = dirset(x.c.lmax); vector<Dir> d; for (int k : x.l[rank]) d.push_back(dirs[k]);
    conviqt::pointing p; load(p, d, JUNK[x.junk % 6], JUNK[(x.junk + x.junk/6) % 6]);
    conviqt::convolver cv(&s->s, &s->b, &s->d, x.c.pol, x.c.lmax, x.c.mmax, x.c.order, x.verbosity, comm); int rc = cv.convolve(p, false);
    o.put(rc); o.put(p.size()); for (size_t k = 0; k < p.size(); ++k) o.put(p[k]);
  }
  string check(size_t i, const vector<Out> &o) override {
    auto &x = j[i]; auto &dirs = dirset(x.c.lmax); auto &a = alone[ckey(x.c)]; auto rc = refconv(x.c); long idx = 0;
    for (size_t r = 0; r < x.l.size(); ++r) {
      auto &d = o[r].d; size_t n = x.l[r].size();
      if (d[0] != 0) return strf("rank %zu: return code %g", r, d[0]);
      if (d[1] != 5*n) return strf("rank %zu supplied %zu rows (%zu doubles) and got %g doubles", r, n, 5*n, d[1]);
      for (size_t k = 0; k < n; ++k, ++idx) { const Dir &q = dirs[x.l[r][k]]; const double *v = &d[2 + 5*k];
        if (rows) {
          if (!same(v[0], q.phi) || !same(v[1], q.theta) || !same(v[2], q.psi)) return strf("rank %zu row %zu was ", r, k) + fix::str(q) + " and is " + fix::str({v[0], v[1], v[2]});
          if (v[4] != idx) return strf("rank %zu row %zu: running index %ld expected, got %.17g", r, k, idx, v[4]);
        }
        double tol = tolerance(*rc, x.c.order, q);
        if (!close(v[3], a[x.l[r][k]], tol)) return strf("rank %zu row %zu %s: signal %.17g, alone on one rank %.17g", r, k, fix::str(q).c_str(), v[3], a[x.l[r][k]]);
      }
    }
    return "";
  }
};
static Cfg cfg(int lmax, int mmax, bool pol, int order) { return {lmax, mmax, lmax, lmax, mmax, pol, order, (unsigned)(5 + lmax*7 + mmax)}; }
#endif
