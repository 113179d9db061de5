// P05: the threaded routines under a simulated OpenMP runtime: every team size, every schedule, every memory access.
#include "convlib.hpp"
#include "pure.hpp"
#include "ompsim.h"
#include "ls_wigner.h"
#include "ls_rotmatrix.h"
#include "ls_alm_powspec_tools.h"
typedef levels::Alm<xcomplex<double>> AlmD; typedef levels::Alm<xcomplex<float>> AlmF;
// runs f once per schedule: fixed orders and interleavings first, then every choice at unordered synchronisation
// (critical sections, atomics, dynamic loops) with at most two preemptions; returns the first problem
static void count(Out *o, const ompsim::Result &r) { if (!o) return; o->execs++; o->ops += r.accesses; o->points += r.syncs; }
static size_t explore(int T, int quantum, const vector<int> &order, size_t limit, const std::function<string()> &f, string &msg, Out *o = 0) {
  vector<int> path; size_t n = 0;
  for (;;) {
    ompsim::Schedule s; s.threads = T; s.quantum = quantum; s.order = order; s.path = path;
    ompsim::begin(s); string m = f(); auto r = ompsim::end(); ++n; count(o, r);
    if (r.problems.size()) { msg = r.problems[0]; return n; }
    if (m.size()) { msg = m; return n; }
    int pre = 0; vector<int> np; // next path: last choice that can be advanced within the preemption bound
    vector<int> cum(r.taken.size() + 1, 0); for (size_t k = 0; k < r.taken.size(); ++k) cum[k+1] = cum[k] + (r.taken[k] != 0);
    bool more = false; for (size_t k = r.taken.size(); k-- > 0;) if (r.taken[k] + 1 < r.branch[k] && cum[k] + 1 <= 2) { path.assign(r.taken.begin(), r.taken.begin() + k); path.push_back(r.taken[k] + 1); more = true; break; }
    (void)pre; if (!more || n >= limit) return n;
  }
}
struct Plan { int T, quantum, ord; };
static vector<Plan> plans(bool small) {
  vector<Plan> p; for (int T : thorough() ? vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 16} : vector<int>{1, 2, 3, 4, 5, 8, 16}) { int no = T <= (thorough() ? 4 : 3) ? (T == 4 ? 24 : T == 3 ? 6 : T) : 3; for (int o = 0; o < no; ++o) p.push_back({T, 0, o}); if (T > 1) { p.push_back({T, 61, 0}); if (small) { p.push_back({T, 7, 1}); p.push_back({T, 1, 0}); } } }
  return p;
}
static vector<int> order_of(int T, int o) { vector<int> v; for (int i = 0; i < T; ++i) v.push_back(i); if (T <= (thorough() ? 4 : 3)) { while (o-- > 0) std::next_permutation(v.begin(), v.end()); } else if (o == 1) std::reverse(v.begin(), v.end()); else if (o == 2) std::rotate(v.begin(), v.begin() + T/2, v.end()); return v; }
static string pstr(const Plan &p) { string s = strf(" threads=%d order=", p.T); for (int t : order_of(p.T, p.ord)) s += strf("%d.", t); if (p.quantum) s += strf(" switching every %d accesses", p.quantum); return s; }
// ---- the convolution on one rank -------------------------------------------------------------------------------
struct OmpConv : Suite {
  struct X { Cfg c; vector<int> rows; Plan p; bool cal; }; vector<X> c; std::map<string, vector<double>> one;
  void prepare() override {
    bool T = thorough(); vector<int> all; for (int i = 0; i < 36; ++i) all.push_back(i);
    auto add = [&](const Cfg &k, const vector<int> &rows, bool small) { for (auto &p : plans(small)) c.push_back({k, rows, p, (c.size() & 1) != 0}); };
    for (int lmax = 1; lmax <= (T ? 8 : 5); ++lmax) for (int mmax = 0; mmax <= lmax; ++mmax) for (int pol = 0; pol < 2; ++pol) for (int order : T ? vector<int>{0, 1, 3, 6} : vector<int>{0, 3}) for (auto rows : vector<vector<int>>{{0, 2, 5, 6, 11}, {7}, all}) add(cfg(lmax, mmax, pol, order), rows, T ? lmax <= 4 : lmax <= 2);
    for (int lmax : T ? vector<int>{9, 11, 15, 16, 17, 23, 24, 25, 33, 49} : vector<int>{7, 8, 9, 16, 17, 25}) for (int pol = 0; pol < 2; ++pol) for (auto rows : vector<vector<int>>{{0}, {2, 5}, all}) add(cfg(lmax, lmax > 10 ? 1 : 2, pol, 3), rows, false);
    add(cfg(4, 2, true, 5), {}, true); add(cfg(4, 2, false, 9), all, false);
  }
  size_t size() override { return c.size(); }
  size_t batch() override { return 8; }
  double timeout() override { return 120; }
  bool nontrivial(size_t i) override { return c[i].p.T > 1; }
  string describe(size_t i) override { return ::str(c[i].c) + strf(" rows=%zu calibrated=%d", c[i].rows.size(), c[i].cal) + pstr(c[i].p); }
  vector<double> convolve(const X &x) {
    auto s = sys(x.c); auto &dirs = dirset(x.c.lmax); vector<Dir> d; for (int k : x.rows) d.push_back(dirs[k]); conviqt::pointing p; load(p, d, 0, 0);
    conviqt::convolver cv(&s->s, &s->b, &s->d, x.c.pol, x.c.lmax, x.c.mmax, x.c.order, 0, MPI_COMM_SELF); int rc = cv.convolve(p, x.cal); vector<double> r{double(rc)}; for (size_t k = 0; k < p.size(); ++k) r.push_back(p[k]); return r;
  }
  void body(size_t i, int, MPI_Comm, Out &o) override {
    auto &x = c[i]; auto &e = one[::str(x.c) + strf("/%zu/%d", x.rows.size(), x.cal)]; if (e.empty()) e = convolve(x);
    auto rc = refconv(x.c); auto &dirs = dirset(x.c.lmax); string msg;
    size_t n = explore(x.p.T, x.p.quantum, order_of(x.p.T, x.p.ord), 200, [&]() -> string {
      auto r = convolve(x); if (r.size() != e.size()) return "different number of rows";
      for (size_t k = 0; k < r.size(); ++k) { double tol = (k && k % 5 == 4) ? tolerance(*rc, x.c.order, dirs[x.rows[(k-1)/5]]) : 0; if (!(std::fabs(r[k] - e[k]) <= tol)) return strf("element %zu is %.17g, with one thread %.17g", k, r[k], e[k]); }
      return ""; }, msg, &o);
    o.note = msg; o.put(double(n)); o.put(e);
  }
  string check(size_t, const vector<Out> &o) override { return o[0].note; }
};
// ---- several ranks with a team each ------------------------------------------------------------------------------
struct OmpRanks : ConvJobs {
  vector<Plan> pl;
  OmpRanks() : ConvJobs(true) {}
  void prepare() override {
    for (int n = 1; n <= (thorough() ? 4 : 3); ++n) for (int T : {2, 3, 8}) for (int v = 0; v < 4; ++v) splits({0, 3, 6, 2, 11, 4}, n, [&](const Lists &l) { Job x; x.c = v & 1 ? cfg(9, 2, true, 3) : cfg(3, 2, true, 5); x.c.pol = v >= 2; x.l = l; x.comm = T; x.verbosity = v == 3 ? 6 : 0; j.push_back(x); });
    group(); reference();
  }
  string describe(size_t i) override { return ConvJobs::describe(i) + " (comm is the team size)"; }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override { ompsim::Schedule s; s.threads = j[i].comm; s.order = order_of(s.threads, (i + rank) % s.threads); ompsim::begin(s); ConvJobs::body(i, rank, comm, o); auto r = ompsim::end(); count(&o, r); if (r.problems.size()) o.note = r.problems[0]; }
  string check(size_t i, const vector<Out> &o) override { for (auto &x : o) if (x.note.size()) return x.note; return ConvJobs::check(i, o); }
};
// ---- rotation of expansions and the threaded generators ----------------------------------------------------------------
struct OmpRotate : Pure {
  struct X { int L; double b; int how; Plan p; }; vector<X> c;
  void prepare() override { for (int L : thorough() ? vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 33, 48, 64} : vector<int>{0, 1, 2, 3, 4, 5, 6, 8, 12, 17, 33}) for (double b : {0.0, 0.7, PI/2, 2.9, PI}) for (int how = 0; how < 4; ++how) for (auto &p : plans(L <= 3)) { if (how == 3 && p.quantum == 1 && L > 2) continue; c.push_back({L, b, how, p}); } }
  size_t size() override { return c.size(); }
  size_t batch() override { return 16; }
  double timeout() override { return 120; }
  bool nontrivial(size_t i) override { return c[i].p.T > 1; }
  string describe(size_t i) override { const char *n[] = {"rotation of one expansion, double", "rotation of three expansions, single", "rotation by matrix", "generator"}; return strf("%s, lmax=%d theta=%.17g", n[c[i].how], c[i].L, c[i].b) + pstr(c[i].p); }
  vector<double> go(const X &x) {
    vector<double> r; int L = x.L; auto fillit = [&](auto &a, int k) { a.Set(L, L); for (int m = 0; m <= L; ++m) for (int l = m; l <= L; ++l) { a(l, m).re = coef(7, k, l, m, 0); a(l, m).im = m ? coef(7, k, l, m, 1) : 0; } };
    auto get = [&](auto &a) { for (int m = 0; m <= L; ++m) for (int l = m; l <= L; ++l) { r.push_back(a(l, m).re); r.push_back(a(l, m).im); } };
    if (x.how == 0) { AlmD a; fillit(a, 0); levels::rotate_alm(a, 0.3, x.b, -1.2); get(a); }
    else if (x.how == 1) { AlmF a, b, d; fillit(a, 0); fillit(b, 1); fillit(d, 2); levels::rotate_alm(a, b, d, 0.3, x.b, -1.2); get(a); get(b); get(d); }
    else if (x.how == 2) { levels::rotmatrix R; R.Make_CPAC_Euler_Matrix(-1.2, x.b, 0.3); AlmD a; fillit(a, 0); levels::rotate_alm(a, R); get(a); }
    else { levels::wigner_d_risbo_openmp w(L, x.b); for (int n = 0; n <= L; ++n) { auto &d = w.recurse(); for (int i = 0; i <= n; ++i) for (int k = 0; k <= 2*n; ++k) r.push_back(d[i][k]); } }
    return r;
  }
  string run(size_t i, Out &o) override {
    auto &x = c[i]; static std::map<string, vector<double>> one; auto &e = one[strf("%d/%.17g/%d", x.L, x.b, x.how)]; if (e.empty()) e = go(x); string msg; double tol = (x.how == 1 ? 1e-4 : 1e-11)*(x.L + 1);
    size_t n = explore(x.p.T, x.p.quantum, order_of(x.p.T, x.p.ord), 200, [&]() -> string { auto r = go(x); if (r.size() != e.size()) return "different size"; for (size_t k = 0; k < r.size(); ++k) if (!(std::fabs(r[k] - e[k]) <= tol)) return strf("value %zu is %.17g, with one thread %.17g", k, r[k], e[k]); return ""; }, msg, &o);
    o.put(double(n)); o.put(e.size()); return msg;
  }
};
// ---- the simulated runtime itself: programs with known races and known outcomes ----------------------------------------
extern "C" int omp_get_thread_num(void);
struct OmpSelf : Pure {
  size_t size() override { return 14; }
  string describe(size_t i) override { return strf("self test %zu of the simulated runtime", i); }
  static __attribute__((noinline)) void bump(volatile long &x) { x = x + 1; }
  string run(size_t i, Out &) override {
    std::set<long> outcomes; string msg; long volatile shared = 0; double red = 0; size_t n = 0; vector<long> v(64, 0);
    auto go = [&](int T, const std::function<void()> &f) { msg.clear(); n = explore(T, 0, {}, 5000, [&]() -> string { f(); return ""; }, msg); return msg.find("data race") != string::npos; };
    switch (i) {
      case 0: if (!go(2, [&] { shared = 0;
#pragma omp parallel
        bump(shared); })) return "an unordered update was not reported"; break;
      case 1: if (go(3, [&] { shared = 0;
#pragma omp parallel
#pragma omp critical
        bump(shared);
        outcomes.insert(long(shared)); })) return "false report: " + msg; if (outcomes != std::set<long>{3}) return "wrong sum"; break;
      case 2: if (go(3, [&] { long o = 0;
#pragma omp parallel
        {
#pragma omp critical
        o = o*10 + omp_get_thread_num() + 1; }
        outcomes.insert(o); })) return "false report: " + msg; if (outcomes.size() != 6) return strf("%zu of the 6 orders of three critical sections seen in %zu executions", outcomes.size(), n); break;
      case 3: if (go(4, [&] { red = 0;
#pragma omp parallel for reduction(+:red)
        for (int k = 0; k < 64; ++k) red += k;
        outcomes.insert(red); })) return "false report: " + msg; if (outcomes != std::set<long>{2016}) return "wrong reduction"; break;
      case 4: if (go(3, [&] { red = 0;
#pragma omp parallel
#pragma omp atomic
        red += 1.5;
        outcomes.insert(red*2); })) return "false report: " + msg; if (outcomes != std::set<long>{9}) return "wrong atomic sum"; break;
      case 5: if (go(3, [&] { std::fill(v.begin(), v.end(), 0);
#pragma omp parallel for schedule(dynamic, 2)
        for (int k = 0; k < 7; ++k) v[k] += k + 1;
        long s = 0; for (long q : v) s = s*3 + q; outcomes.insert(s); })) return "false report: " + msg; if (outcomes.size() != 1) return "dynamic loop lost or repeated iterations"; break;
      case 6: if (!go(2, [&] {
#pragma omp parallel
        { int t = omp_get_thread_num(); v[t] = 1;
#pragma omp for nowait
          for (int k = 0; k < 2; ++k) v[8 + k] = k;
          shared = v[9 - t]; } })) return "a missing barrier was not reported"; break;
      case 7: if (go(2, [&] {
#pragma omp parallel
        { int t = omp_get_thread_num(); v[t] = 1; long q;
#pragma omp for
          for (int k = 0; k < 2; ++k) v[8 + k] = k;
          q = v[9 - t]; v[20 + t] = q; } })) return "false report: " + msg; break;
      case 8: if (go(3, [&] { long s = 0;
#pragma omp parallel
        {
#pragma omp single
          s = 7;
          v[omp_get_thread_num()] = s; }
        outcomes.insert(v[0]*100 + v[1]*10 + v[2]); })) return "false report: " + msg; if (outcomes != std::set<long>{777}) return "single"; break;
      case 9: { vector<char> b(64); if (go(4, [&] {
#pragma omp parallel for schedule(static, 1)
        for (int k = 0; k < 64; ++k) b[k] = k; })) return "neighbouring bytes reported: " + msg; break; }
      case 10: { if (!go(2, [&] { levels::arr<double> a(16); a.fill(0.);
#pragma omp parallel
        { levels::arr<double> b(16); b.fill(1.); if (omp_get_thread_num() >= 0) a = b; } })) return "an unordered copy was not reported"; break; }
      case 11: if (go(3, [&] {
#pragma omp parallel
        { for (int k = 0; k < 20; ++k) { levels::arr<double> b(16 + k % 3); b.fill(k); v[omp_get_thread_num()] = b[3]; } } })) return "memory passed from thread to thread by the allocator reported: " + msg; break;
      case 12: if (go(2, [&] {
#pragma omp parallel
        {
#pragma omp sections
          {
#pragma omp section
            v[0] = 1;
#pragma omp section
            v[1] = 2;
          }
#pragma omp master
          outcomes.insert(v[0]*10 + v[1]); } })) return "false report: " + msg; if (outcomes != std::set<long>{12}) return "sections"; break;
      case 13: if (!go(3, [&] { string s = "x";
#pragma omp parallel
        s += 'y'; })) return "an unordered string update was not reported"; break;
    }
    return "";
  }
};
int main(int argc, char **argv) {
  Registry reg;
  reg["conv"] = [] { return new OmpConv; }; reg["ranks"] = [] { return new OmpRanks; }; reg["rotate"] = [] { return new OmpRotate; }; reg["self"] = [] { return new OmpSelf; };
  return main_(argc, argv, reg);
}
