// Wigner matrix elements (P13), Fourier transforms (P14), expansion tools (P21).
#include "ls_rng.h"  // before ls_wigner.h: its unqualified sqrt is ambiguous otherwise
#include "vf.hpp"
#include "ref.hpp"
#include "fix.hpp"
#include "ls_wigner.h"
#include "ls_fftpack_support.h"
#include "ls_alm_powspec_tools.h"
#include "ls_powspec.h"
#include "ls_error_handling.h"
#include "ls_rotmatrix.h"
#include <algorithm>
#include <array>
using namespace vf; using fix::PI;
typedef levels::arr<double> Arr;
#undef pi
// a suite whose cases decide themselves: run() returns what is wrong (nothing: fine)
struct Pure : Suite {
  virtual string run(size_t i, Out &o) = 0;
  void body(size_t i, int rank, MPI_Comm, Out &o) override { if (rank == 0 || nranks(i) == 1) { try { o.note = run(i, o); } catch (std::exception &e) { o.note = string("unexpected exception: ") + e.what(); } catch (levels::LEVELSError &e) { o.note = string("unexpected error: ") + e.what(); } } }
  string check(size_t, const vector<Out> &o) override { return o[0].note; }
};
// ---- P13 ----------------------------------------------------------------------------------------
static vector<double> angles() {
  vector<double> a = {0, 1e-300, 1e-16, 1e-8, 1e-3, 0.05, 0.3, 0.7, 1.1, PI/2, nextafter(PI/2, 0), nextafter(PI/2, 4), 2.0, 2.4, 3.0, PI - 1e-3, PI - 1e-8, nextafter(PI, 0), PI, nextafter(PI, 4), 3.5, 4.2, 3*PI/2, 6.0, nextafter(2*PI, 0), 2*PI, 7.1, 11.0, 100.3, 1e5};
  size_t n = a.size(); for (size_t i = 1; i < n; ++i) a.push_back(-a[i]); return a;
}
static string wig_expect(const char *how, int lmax, int m, int k, double th, double eps, int firstl, std::function<double(int)> get) {
  // the library adjusts angles within 1e-15 of the poles; elements are Lipschitz in the angle with a constant of about l
  static std::map<std::pair<std::pair<int, int>, std::pair<int, double>>, vector<ref::LD>> cache; if (cache.size() > 20000) cache.clear();
  auto &d = cache[{{lmax, m}, {k, th}}]; if (d.empty()) d = ref::wigner(lmax, m, k, (ref::LD)th);
  int lo = std::max(std::abs(m), std::abs(k)); if (firstl < lo || firstl > lmax + 1) return strf("%s lmax=%d m=%d m'=%d theta=%.17g: first degree %d is outside [%d,%d]", how, lmax, m, k, th, firstl, lo, lmax + 1);
  for (int l = lo; l <= lmax; ++l) {
    double tol = 3e-15*(lmax + 4) * (1 + std::fabs(th)/50) + (lmax > 60 ? 4e-15*lmax : 0) + (std::fabs(std::sin(th)) < 1e-2 ? 2.5e-16*lmax*lmax : 0); // the cosine is rounded
    if (l < firstl) { if (std::fabs((double)d[l]) > std::max(eps, 1e-100)*(1 + 1e-6) + tol*(std::fabs(std::sin(th)) < 1e-14)) return strf("%s lmax=%d m=%d m'=%d theta=%.17g: element l=%d is %.17g but was dropped (first degree %d, threshold %g)", how, lmax, m, k, th, l, (double)d[l], firstl, eps); }
    else { double v = get(l); if (!(std::fabs(v - (double)d[l]) <= tol + eps)) return strf("%s lmax=%d m=%d m'=%d theta=%.17g: element l=%d is %.17g, expected %.17g", how, lmax, m, k, th, l, v, (double)d[l]); }
  }
  return "";
}
// all angles, all variants, for the index pair currently prepared
template<class G> static string wig_all(G &g, int lmax, int m, int k, const vector<double> &th, double eps, size_t pairstep) {
  string e; Arr r2(lmax + 1); int f;
  for (size_t t = 0; t < th.size(); ++t) {
    const Arr &r = g.calc(t, f); if ((e = wig_expect("calc", lmax, m, k, th[t], eps, f, [&](int l) { return r[l]; })).size()) return e;
    int f2; g.calc(t, f2, r2); if (f2 != f) return strf("the two variants of calc differ in the first degree: %d, %d", f, f2); for (int l = f; l <= lmax; ++l) if (r[l] != r2[l]) return strf("the two variants of calc differ at l=%d", l);
  }
#ifdef __SSE2__
  for (size_t t = 0; t < th.size(); ++t) for (size_t u = pairstep > 1 ? (t % pairstep) : 0; u < th.size(); u += pairstep) {
    auto &r = g.calc(t, u, f); double x[2];
    for (int q = 0; q < 2; ++q) if ((e = wig_expect(q ? "calc (second angle)" : "calc (first angle)", lmax, m, k, th[q ? u : t], eps, f, [&](int l) { r[l].writeTo(x[0], x[1]); return x[q]; })).size()) return e + strf(" [pair %.17g, %.17g]", th[t], th[u]);
    levels::arr_align<levels::V2df, 16> rx(lmax + 1); int f2; g.calc(t, u, f2, rx); if (f != f2) return "the two variants of the paired calc differ"; for (int l = f; l <= lmax; ++l) { double y[2]; r[l].writeTo(x[0], x[1]); rx[l].writeTo(y[0], y[1]); if (x[0] != y[0] || x[1] != y[1]) return "the two variants of the paired calc differ"; }
  }
#endif
  return "";
}
static Arr to_arr(const vector<double> &v) { Arr a(v.size()); for (size_t i = 0; i < v.size(); ++i) a[i] = v[i]; return a; }
struct WigSmall : Pure { // every index pair and angle
  struct C { int lmax, m, k; double eps; }; vector<C> c;
  void prepare() override { for (int L = 1; L <= (thorough() ? 20 : 12); ++L) for (int m = -L; m <= L; ++m) for (int k = -L; k <= L; ++k) for (double eps : {1e-30, 1e-10, 1e-3}) { if (L > 6 && eps > 1e-20 && !thorough()) continue; c.push_back({L, m, k, eps}); } }
  size_t size() override { return c.size(); }
  string describe(size_t i) override { return strf("lmax=%d m=%d m'=%d threshold=%g, %zu angles and all their pairs", c[i].lmax, c[i].m, c[i].k, c[i].eps, angles().size()); }
  string run(size_t i, Out &o) override { auto &x = c[i]; auto th = angles(); levels::wignergen g(x.lmax, to_arr(th), x.eps); g.prepare(x.m, x.k); string e = wig_all(g, x.lmax, x.m, x.k, th, x.eps, 1); int f; auto &r = g.calc(7, f); for (int l = f; l <= x.lmax; ++l) o.put(r[l]); return e; }
};
struct WigHist : Pure { // every sequence of preparations
  struct C { int lmax; vector<std::pair<int,int>> p; }; vector<C> c;
  void prepare() override { auto go = [&](int L, int depth) { size_t n = (2*L+1)*(2*L+1), t = 1; for (int q = 0; q < depth; ++q) t *= n; for (size_t i = 0; i < t; ++i) { C x; x.lmax = L; size_t j = i; for (int q = 0; q < depth; ++q) { int a = j % n; j /= n; x.p.push_back({a / (2*L+1) - L, a % (2*L+1) - L}); } c.push_back(x); } };
    go(1, 4); go(2, 3); go(3, 2); go(4, 2); go(5, 2); if (thorough()) { go(2, 4); go(6, 2); go(8, 2); go(3, 3); } }
  size_t size() override { return c.size(); }
  size_t batch() override { return 250; }
  string describe(size_t i) override { string s = strf("lmax=%d prepared for", c[i].lmax); for (auto &p : c[i].p) s += strf(" (%d,%d)", p.first, p.second); return s; }
  string run(size_t i, Out &o) override { auto &x = c[i]; vector<double> th = {0.7, -2.4, 0, PI}; levels::wignergen g(x.lmax, to_arr(th), 1e-30); for (auto &p : x.p) { g.prepare(p.first, p.second); string e = wig_all(g, x.lmax, p.first, p.second, th, 1e-30, 3); if (e.size()) return e; int f; auto &r = g.calc(0, f); if (f <= x.lmax) o.put(r[x.lmax]); } return ""; }
};
struct WigTwo : Pure { // every short history of several generators in one process
  int depth() { return thorough() ? 5 : 4; } enum { NOP = 22 };
  static const char *name(int k) { static const char *N[] = {"g(0,0)", "g(2,-1)", "g(-3,3)", "g(1,2)", "g(0,-2)", "h(0,0)", "h(2,-1)", "h(-5,4)", "h(1,2)", "h(0,-2)", "use g", "use h", "s(2,-1)", "s(-3,2)", "step of the pi/2 recursion", "step of the recursion at 0.4", "step of the threaded pi/2 recursion", "step of the threaded recursion at 2.3", "new g of lmax 5", "new h of lmax 3", "use a temporary generator", "skip estimate"}; return N[k]; }
  size_t size() override { size_t n = 1; for (int i = 0; i < depth(); ++i) n *= NOP; return n; }
  size_t batch() override { return 500; }
  string describe(size_t i) override { string s = "generators g (lmax 3), h (lmax 5), s (scalar, lmax 4) and four recursions:"; for (int k = 0; k < depth(); ++k) { s += string(k ? "; " : " ") + name(i % NOP); i /= NOP; } return s; }
  struct G { int L; vector<double> th; double eps; int m, k; bool ready; };
  static string rec(const levels::arr2<double> &d, int l, double th, bool half) { static std::map<std::array<double, 3>, vector<ref::LD>> cache; for (int i = 0; i <= l; ++i) for (int j = 0; j <= (half ? l : 2*l); ++j) { auto &r = cache[{{double(l-i), double(l-j), th}}]; if (r.empty()) r = ref::wigner(8, l-i, l-j, th); if (!(std::fabs((double)r[l] - d[i][j]) <= 1e-13)) return strf("recursion at %.17g, l=%d row %d column %d: %.17g, expected %.17g", th, l, i, j, d[i][j], (double)r[l]); } return ""; }
  string run(size_t i, Out &o) override {
    G mg = {3, {0.7, -2.4, 0, PI}, 1e-30, 0, 0, false}, mh = {5, {0.2, 1.3, PI/2}, 1e-12, 0, 0, false}, ms = {4, {0.7, 3.1}, 1e-30, 0, 0, false}; std::unique_ptr<levels::wignergen> gp(new levels::wignergen(mg.L, to_arr(mg.th), mg.eps)), hp(new levels::wignergen(mh.L, to_arr(mh.th), mh.eps)); levels::wignergen_scalar s(ms.L, to_arr(ms.th), ms.eps);
    levels::wigner_d_halfpi_risbo_scalar r0(6); levels::wigner_d_risbo_scalar r1(6, 0.4); levels::wigner_d_halfpi_risbo_openmp r2(6); levels::wigner_d_risbo_openmp r3(6, 2.3); int l0 = 0, l1 = 0, l2 = 0, l3 = 0; string e;
    static const int P[5][2] = {{0, 0}, {2, -1}, {-3, 3}, {1, 2}, {0, -2}}; auto use = [&](levels::wignergen &w, const G &q) { return q.ready ? wig_all(w, q.L, q.m, q.k, q.th, q.eps, 1) : string(); };
    for (int d = 0; d < depth() && e.empty(); ++d, i /= NOP) { int op = i % NOP;
      if (op < 10) { bool a = op < 5; auto &w = a ? *gp : *hp; auto &q = a ? mg : mh; q.m = P[op % 5][0]; q.k = P[op % 5][1]; if (!a && op % 5 == 2) q.m = -5, q.k = 4; if (std::max(std::abs(q.m), std::abs(q.k)) > q.L) q.m = q.k = 1; w.prepare(q.m, q.k); q.ready = true; }
      else switch (op) { case 10: e = use(*gp, mg); break; case 11: e = use(*hp, mh); break;
        case 12: case 13: { ms.m = op == 12 ? 2 : -3; ms.k = op == 12 ? -1 : 2; s.prepare(ms.m, ms.k); int f; for (size_t t = 0; t < ms.th.size() && e.empty(); ++t) { const Arr &r = s.calc(t, f); e = wig_expect("scalar calc", ms.L, ms.m, ms.k, ms.th[t], ms.eps, f, [&](int l) { return r[l]; }); } break; }
        case 14: e = rec(r0.recurse(), l0, PI/2, true); ++l0; break; case 15: e = rec(r1.recurse(), l1, 0.4, false); ++l1; break; case 16: e = rec(r2.recurse(), l2, PI/2, true); ++l2; break; case 17: e = rec(r3.recurse(), l3, 2.3, false); ++l3; break;
        case 18: mg = {5, {0.2, 1.3, PI/2}, 1e-12, 0, 0, false}; gp.reset(new levels::wignergen(mg.L, to_arr(mg.th), mg.eps)); break; case 19: mh = {3, {0.7, -2.4, 0, PI}, 1e-30, 0, 0, false}; hp.reset(new levels::wignergen(mh.L, to_arr(mh.th), mh.eps)); break;
        case 20: { G q = {3, {0.7, 1.9, PI}, 1e-30, 1, -1, true}; levels::wignergen c(q.L, to_arr(q.th), q.eps); c.prepare(q.m, q.k); e = use(c, q); break; }
        case 21: { levels::wigner_estimator w(8, 3); for (int m : {0, 3, 8}) for (int k : {-8, 0, 2}) for (double t : {0.0, 0.1, 1.0, 3.0}) { bool skip = false; try { w.prepare_m(m, k); skip = w.canSkip(t); } catch (std::exception &) {} catch (levels::LEVELSError &) {} if (skip) { auto q = ref::wigner(8, m, k, t); for (int l = std::max(m, std::abs(k)); l <= 8; ++l) if (std::fabs((double)q[l]) > 1e-2) return strf("the estimator says that m=%d m'=%d theta=%g can be skipped although the element l=%d is %g", m, k, t, l, (double)q[l]); } } break; } }
      ++o.ops; if (e.empty()) e = use(*gp, mg); if (e.empty()) e = use(*hp, mh); if (e.size()) e = strf("after step %d: ", d + 1) + e; }
    o.put(mg.m*100 + mg.k*10 + mh.m + l0 + 2*l1); return e; }
};
struct WigLarge : Pure { // scale changes
  struct C { int lmax, m, k; double eps; }; vector<C> c;
  void prepare() override { for (int L : thorough() ? vector<int>{30, 61, 150, 400, 1000, 2500} : vector<int>{30, 61, 150, 400, 1000}) { vector<int> ms; for (int q : {0, 1, 2, 7, 13}) ms.push_back(q); for (double f : {0.1, 0.33, 0.5, 0.77, 0.95}) ms.push_back(int(f*L)); ms.push_back(L - 1); ms.push_back(L); if (L <= 61) for (int q = 0; q <= L; q += 3) ms.push_back(q); std::sort(ms.begin(), ms.end()); ms.erase(std::unique(ms.begin(), ms.end()), ms.end());
      size_t q = 0; for (int m : ms) for (int k : ms) for (int s = 0; s < 4; ++s) { if ((s & 1 && !m) || (s & 2 && !k)) continue; if (L >= 400 && (q++ + s) % 3) continue; c.push_back({L, s & 1 ? -m : m, s & 2 ? -k : k, q % 5 == 0 ? 1e-3 : 1e-30}); } } }
  size_t size() override { return c.size(); }
  size_t batch() override { return 20; }
  double timeout() override { return 120; }
  string describe(size_t i) override { return strf("lmax=%d m=%d m'=%d threshold=%g", c[i].lmax, c[i].m, c[i].k, c[i].eps); }
  string run(size_t i, Out &o) override { auto &x = c[i]; vector<double> th; for (double t : {1e-8, 1e-3, 0.02, 0.11, 0.3, 0.7, 1.2, PI/2, 2.0, 2.6, 3.0, PI - 1e-3, PI, -0.4, 4.0}) th.push_back(t); levels::wignergen g(x.lmax, to_arr(th), x.eps); g.prepare(x.m, x.k); { int f; auto &r = g.calc(5, f); if (f <= x.lmax) o.put(r[x.lmax]); } return wig_all(g, x.lmax, x.m, x.k, th, x.eps, x.lmax > 200 ? 4 : 2); }
};
struct Risbo : Pure { // the fixed-angle recursions
  vector<double> a; int L() { return thorough() ? 60 : 34; }
  void prepare() override { a = angles(); }
  size_t size() override { return a.size() + 2; }
  size_t batch() override { return 4; }
  string describe(size_t i) override { return i < a.size() ? strf("recursions at theta=%.17g up to l=%d", a[i], L()) : strf("recursions at pi/2 (%s)", i == a.size() ? "scalar" : "threaded"); }
  template<class R> string go(R &r, double th, bool half) {
    string e; vector<levels::arr2<double>> keep; std::map<std::pair<int,int>, vector<ref::LD>> ref_; int n = L(); for (int m = -n; m <= n; ++m) for (int k = -n; k <= n; ++k) if (m >= 0) ref_[{m, k}] = ref::wigner(n, m, k, th);
    for (int l = 0; l <= n; ++l) { auto &d = r.recurse(); for (int i = 0; i <= l; ++i) for (int j = 0; j <= (half ? l : 2*l); ++j) { double x = ref_[{l-i, l-j}][l], v = d[i][j]; if (!(std::fabs(x - v) <= 1e-14*(l + 3)*(1 + std::fabs(th)/50))) return strf("l=%d row %d column %d: %.17g, expected d(%d,%d)=%.17g", l, i, j, v, l-i, l-j, x); } }
    return ""; }
  string run(size_t i, Out &) override {
    if (i == a.size()) { levels::wigner_d_halfpi_risbo_scalar r(L()); return go(r, PI/2, true); } if (i == a.size() + 1) { levels::wigner_d_halfpi_risbo_openmp r(L()); return go(r, PI/2, true); }
    levels::wigner_d_risbo_scalar r(L(), a[i]); string e = go(r, a[i], false); if (e.size()) return "scalar recursion: " + e; levels::wigner_d_risbo_openmp q(L(), a[i]); e = go(q, a[i], false); return e.size() ? "threaded recursion: " + e : ""; }
};
// ---- P14 ----------------------------------------------------------------------------------------
struct Tw { size_t n; vector<double> c, s; Tw(size_t n_) : n(n_), c(n_), s(n_) { for (size_t i = 0; i < n; ++i) { long double x = 2*acosl(-1.0L)*i/n; c[i] = cosl(x); s[i] = sinl(x); } } };
enum { CF, CB, PF, PB, WF, WB, RF, RB, NKIND };
static const char *KIND[] = {"complex forward", "complex backward", "real forward (fftpack)", "real backward (fftpack)", "real forward (halfcomplex)", "real backward (halfcomplex)", "real forward (full complex)", "real backward (full complex)"};
// the defining sum for input "data" in the layout of the kind; only(j): the single nonzero entry or -1
struct Plan { complex_plan c; real_plan r; size_t n; Plan(size_t n_) : c(make_complex_plan(n_)), r(make_real_plan(n_)), n(n_) {} ~Plan() { kill_complex_plan(c); kill_real_plan(r); } };
static size_t isz(int kind, size_t n) { return kind <= CB || kind >= RF ? 2*n : n; }
static void apply(int kind, complex_plan c, real_plan r, double *d) { switch (kind) { case CF: complex_plan_forward(c, d); break; case CB: complex_plan_backward(c, d); break; case PF: real_plan_forward_fftpack(r, d); break; case PB: real_plan_backward_fftpack(r, d); break; case WF: real_plan_forward_fftw(r, d); break; case WB: real_plan_backward_fftw(r, d); break; case RF: real_plan_forward_c(r, d); break; case RB: real_plan_backward_c(r, d); break; } }
// contribution of input entry j with value v to the expected output
static void expect_unit(int kind, const Tw &w, size_t j, double v, vector<double> &out) {
  size_t n = w.n; auto idx = [&](size_t a, size_t b) { return (size_t)((unsigned long long)a*b % n); };
  if (kind == CF || kind == CB) { double sg = kind == CF ? -1 : 1; size_t t = j/2; for (size_t k = 0; k < n; ++k) { size_t q = idx(t, k); double c = w.c[q], s = sg*w.s[q]; if (j & 1) { out[2*k] -= v*s; out[2*k+1] += v*c; } else { out[2*k] += v*c; out[2*k+1] += v*s; } } return; }
  if (kind == PF || kind == WF || kind == RF) { size_t t = kind == RF ? j/2 : j; if (kind == RF && (j & 1)) return; // ignored on input
    for (size_t k = 0; k < n; ++k) { size_t q = idx(t, k); double re = v*w.c[q], im = -v*w.s[q];
      if (kind == RF) { out[2*k] += re; out[2*k+1] += (k == 0 || 2*k == n) ? 0 : im; }
      else if (kind == PF) { if (k == 0) out[0] += re; else if (2*k == n) out[n-1] += re; else if (2*k < n) { out[2*k-1] += re; out[2*k] += im; } }
      else { if (2*k <= n) out[k] += re; if (k && 2*k < n) out[n-k] += im; } }
    return; }
  // backward real: Hermitian input; RB: conjugate-symmetric part of a full-complex array (entry pairs)
  size_t k; bool im;
  if (kind == PB) { if (j == 0) k = 0, im = false; else if (!(n & 1) && j == n-1) k = n/2, im = false; else k = (j+1)/2, im = !(j & 1); }
  else if (kind == WB) { if (2*j <= n) k = j, im = false; else k = n - j, im = true; }
  else { k = j/2; im = j & 1; }
  double f = (k == 0 || 2*k == n) ? 1 : 2;
  for (size_t t = 0; t < n; ++t) { size_t q = idx(t, k); double x = im ? -f*v*w.s[q] : f*v*w.c[q]; if (kind == RB) out[2*t] += x; else out[t] += x; }
}
static string fft_compare(int kind, const vector<double> &got, const vector<double> &want, double scale, size_t n, const string &what_) {
  double tol = 2e-15*scale*(8 + std::log2((double)n)) + 1e-300; for (size_t i = 0; i < want.size(); ++i) if (!(std::fabs(got[i] - want[i]) <= tol)) return strf("length %zu, %s of %s: entry %zu is %.17g, expected %.17g", n, KIND[kind], what_.c_str(), i, got[i], want[i]); return ""; }
struct FftUnit : Pure { // every unit vector of every length
  struct C { size_t n; int kind; }; vector<C> c;
  void prepare() override { auto add = [&](size_t n) { for (int k = 0; k < NKIND; ++k) c.push_back({n, k}); }; size_t full = thorough() ? 1100 : 520; for (size_t n = 1; n <= full; ++n) add(n); for (size_t n : {331, 343, 360, 367, 384, 397, 401, 420, 443, 461, 480, 499, 509, 512}) if (n > full) add(n); std::stable_sort(c.begin(), c.end(), [](const C &a, const C &b) { return a.n > b.n; }); }
  size_t size() override { return c.size(); }
  size_t batch() override { return 4; }
  string describe(size_t i) override { return strf("%s, length %zu, every unit vector", KIND[c[i].kind], c[i].n); }
  string run(size_t i, Out &o) override {
    size_t n = c[i].n; int kind = c[i].kind; Tw w(n); Plan p(n); size_t sz = isz(kind, n); double h = 0;
    for (size_t j = 0; j < sz; ++j) {
      vector<double> d(sz, 0.0), e(sz, 0.0); d[j] = 1; 
      if (kind == RB) { size_t k = j/2; if (2*k > n) continue; if ((k == 0 || 2*k == n) && (j & 1)) { d[j] = 0; continue; } if (k && 2*k < n) d[2*(n-k) + (j & 1)] = j & 1 ? -1 : 1; } // conjugate-symmetric input
      expect_unit(kind, w, j, 1, e); apply(kind, p.c, p.r, d.data());
      string m = fft_compare(kind, d, e, 1.0*(kind == RB || kind == PB || kind == WB ? 2 : 1)*4, n, strf("unit vector %zu", j)); if (m.size()) return m; h = h*1.000001 + d[sz/2];
    }
    o.put(h); return ""; }
};
static vector<double> dense_input(size_t n, unsigned seed) { vector<double> d(n); for (size_t i = 0; i < n; ++i) d[i] = ((int)(fix::hash(seed*100003u + i) % 2001) - 1000)/256.0; return d; }
struct FftLong : Pure { // dense input: forward, backward, repeated use of the plan, sparse spot checks of long lengths
  vector<size_t> ns;
  void prepare() override { for (size_t n = 1; n <= (thorough() ? 8000u : 2500u); ++n) ns.push_back(n); for (size_t n : {2047, 2048, 2187, 2310, 2401, 3125, 4093, 4096, 5040, 6561, 7919, 8191, 10007, 14641, 16384, 20011, 32768, 46187}) ns.push_back(n); }
  size_t size() override { return ns.size(); }
  size_t batch() override { return 40; }
  double timeout() override { return 120; }
  string describe(size_t i) override { return strf("length %zu, dense input, all transforms, plan reused and copied", ns[i]); }
  string run(size_t i, Out &o) override {
    size_t n = ns[i]; Tw w(n); Plan p(n); complex_plan c2 = copy_complex_plan(p.c); real_plan r2 = copy_real_plan(p.r); string m;
    for (int kind = 0; kind < NKIND && m.empty(); ++kind) {
      size_t sz = isz(kind, n); vector<double> in = dense_input(sz, 7 + kind), e(sz, 0.0), d = in;
      if (kind == RB) { d[1] = 0; if (n % 2 == 0) d[n+1] = 0; for (size_t k = 1; 2*k < n; ++k) { d[2*(n-k)] = d[2*k]; d[2*(n-k)+1] = -d[2*k+1]; } in = d; }
      double scale = 0; for (double x : in) scale += x*x; scale = std::sqrt(scale)*2*std::sqrt(2.0)*std::sqrt((double)std::max<size_t>(1, sz/n));
      vector<size_t> out; if (n <= 130) for (size_t k = 0; k < n; ++k) out.push_back(k); else for (size_t k : {(size_t)0, (size_t)1, n/7, n/3, n/2, n/2+1, n-2, n-1}) out.push_back(k);
      for (int rep = 0; rep < 3 && m.empty(); ++rep) {
        d = in; apply(kind, rep == 2 ? c2 : p.c, rep == 2 ? r2 : p.r, d.data());
        if (rep == 0) { for (size_t k : out) { // direct sums
            long double re = 0, im = 0; auto at = [&](size_t a) { return (size_t)((unsigned long long)a*k % n); };
            if (kind <= CB) { int sg = kind == CF ? -1 : 1; for (size_t t = 0; t < n; ++t) { long double c = w.c[at(t)], s = sg*w.s[at(t)]; re += in[2*t]*c - in[2*t+1]*s; im += in[2*t]*s + in[2*t+1]*c; } if (!(std::fabs(d[2*k] - (double)re) <= 3e-15*scale*(8 + log2(n)) && std::fabs(d[2*k+1] - (double)im) <= 3e-15*scale*(8 + log2(n)))) m = strf("length %zu, %s: entry %zu is (%.17g,%.17g), expected (%.17g,%.17g)", n, KIND[kind], k, d[2*k], d[2*k+1], (double)re, (double)im); }
            else { vector<double> ee; double got = 0; 
              if (kind == PF || kind == WF || kind == RF) { for (size_t t = 0; t < n; ++t) { double v = kind == RF ? in[2*t] : in[t]; re += v*(long double)w.c[at(t)]; im -= v*(long double)w.s[at(t)]; }
                double gr, gi; size_t kk = std::min(k, n - k); double sgn = k <= n - k || k == 0 ? 1 : -1; if (k == 0) kk = 0;
                if (kind == RF) { gr = d[2*k]; gi = d[2*k+1]; } else if (kind == PF) { if (kk == 0) gr = d[0], gi = 0; else if (2*kk == n) gr = d[n-1], gi = 0; else gr = d[2*kk-1], gi = sgn*d[2*kk]; } else { gr = d[kk]; gi = (kk && 2*kk < n) ? sgn*d[n-kk] : 0; }
                if (!(std::fabs(gr - (double)re) <= 3e-15*scale*(8 + log2(n)) && std::fabs(gi - (double)im) <= 3e-15*scale*(8 + log2(n)))) m = strf("length %zu, %s: coefficient %zu is (%.17g,%.17g), expected (%.17g,%.17g)", n, KIND[kind], k, gr, gi, (double)re, (double)im); }
              else { for (size_t f = 0; 2*f <= n; ++f) { double a, b; if (kind == RB) a = in[2*f], b = in[2*f+1]; else if (kind == PB) { if (f == 0) a = in[0], b = 0; else if (2*f == n) a = in[n-1], b = 0; else a = in[2*f-1], b = in[2*f]; } else { a = in[f]; b = (f && 2*f < n) ? in[n-f] : 0; } if (f == 0 || 2*f == n) b = 0; double g = (f == 0 || 2*f == n) ? 1 : 2; size_t q = (size_t)((unsigned long long)f*k % n); re += g*(a*(long double)w.c[q] - b*(long double)w.s[q]); }
                got = kind == RB ? d[2*k] : d[k]; if (kind == RB && d[2*k+1] != 0) m = strf("length %zu, %s: imaginary part %zu is %.17g", n, KIND[kind], k, d[2*k+1]); if (!(std::fabs(got - (double)re) <= 3e-15*scale*(8 + log2(n)))) m = strf("length %zu, %s: entry %zu is %.17g, expected %.17g", n, KIND[kind], k, got, (double)re); } }
            if (m.size()) break; }
          e = d; }
        else if (d != e) m = strf("length %zu, %s: %s gives another result", n, KIND[kind], rep == 1 ? "a second use of the plan" : "a copied plan");
      }
      if (m.empty() && (kind == CF || kind == PF || kind == WF || kind == RF)) { apply(kind + 1, p.c, p.r, d.data()); for (size_t k = 0; k < sz && m.empty(); ++k) { if (kind == RF && (k & 1)) { if (d[k] != 0) m = strf("length %zu, %s and back: imaginary part %zu is %.17g", n, KIND[kind], k/2, d[k]); continue; } if (!(std::fabs(d[k] - n*in[k]) <= 6e-15*scale*(8 + log2(n))*std::sqrt((double)n))) m = strf("length %zu, %s and back: entry %zu is %.17g, expected %.17g", n, KIND[kind], k, d[k], n*in[k]); } }
      o.put(d[0]);
    }
    kill_complex_plan(c2); kill_real_plan(r2); return m; }
};
struct FftHist : Pure { // every short history of two plan objects
  int depth() { return thorough() ? 5 : 4; } static const int NOP = 15;
  size_t size() override { size_t n = 2; for (int i = 0; i < depth(); ++i) n *= NOP; return n; }
  size_t batch() override { return 500; }
  vector<int> ops(size_t i) { vector<int> o; for (int k = 0; k < depth(); ++k) { o.push_back(i % NOP); i /= NOP; } return o; }
  string describe(size_t i) override { static const char *N[] = {"a.Set(1)", "a.Set(4)", "a.Set(7)", "a.Set(149)", "b.Set(4)", "b.Set(283)", "a=b", "b=a", "a=a", "a=default", "a=plan(12)", "use a", "use b", "use copy of a", "b=copy of a"}; string s = i & 1 ? "real:" : "complex:"; for (int o : ops(i/2)) s += string(" ") + N[o]; return s; }
  template<class P> static string use(P &p, size_t n, bool real, const char *who) {
    if (p.size() != n) return strf("%s has length %zu, expected %zu", who, (size_t)p.size(), n); if (!n) return "";
    static std::map<std::pair<size_t, int>, std::pair<vector<double>, vector<double>>> ex; 
    for (int dir = 0; dir < 2; ++dir) { int kind = real ? (dir ? PB : PF) : dir ? CB : CF; auto &x = ex[{n, kind}]; if (x.first.empty()) { x.first = dense_input(isz(kind, n), 3); x.second.assign(isz(kind, n), 0); Tw w(n); for (size_t j = 0; j < x.first.size(); ++j) expect_unit(kind, w, j, x.first[j], x.second); }
      vector<double> d = x.first; go(p, d.data(), dir); string m = fft_compare(kind, d, x.second, 8*std::sqrt((double)d.size())*3, n, "dense input"); if (m.size()) return string(who) + ": " + m; }
    return ""; }
  static void go(levels::cfft &p, double *d, int dir) { dir ? p.backward(d) : p.forward(d); }
  static void go(levels::rfft &p, double *d, int dir) { dir ? p.backward_fftpack(d) : p.forward_fftpack(d); }
  template<class P> string seq(const vector<int> &o, bool real, Out &out) {
    P a, b; size_t na = 0, nb = 0; string m;
    for (int q : o) switch (q) {
      case 0: a.Set(1); na = 1; break; case 1: a.Set(4); na = 4; break; case 2: a.Set(7); na = 7; break; case 3: a.Set(149); na = 149; break; case 4: b.Set(4); nb = 4; break; case 5: b.Set(283); nb = 283; break;
      case 6: a = b; na = nb; break; case 7: b = a; nb = na; break; case 8: { P &r = a; a = r; break; } case 9: a = P(); na = 0; break; case 10: a = P(12); na = 12; break;
      case 11: m = use(a, na, real, "a"); break; case 12: m = use(b, nb, real, "b"); break; case 13: { P c(a); m = use(c, na, real, "a copy of a"); break; } case 14: { P c(a); b = c; nb = na; } }
    if (m.empty()) m = use(a, na, real, "a"); if (m.empty()) m = use(b, nb, real, "b"); out.put(a.size()*1000.0 + b.size()); return m; }
  string run(size_t i, Out &out) override { auto o = ops(i/2); return i & 1 ? seq<levels::rfft>(o, true, out) : seq<levels::cfft>(o, false, out); }
};
// ---- P21 ----------------------------------------------------------------------------------------
typedef levels::Alm<xcomplex<float> > AlmF; typedef levels::Alm<xcomplex<double> > AlmD;
template<class A> static void load(A &a, const ref::Alm &c) { a.Set(c.lmax, c.mmax); typedef typename std::remove_reference<decltype(a(0,0).re)>::type T; for (int m = 0; m <= c.mmax; ++m) for (int l = m; l <= c.lmax; ++l) { auto v = c.get(l, m); a(l, m).Set(T(v.real()), T(v.imag())); } }
template<class A> static string cmp(A &a, const ref::Alm &e, double tol, const char *what_) { if (a.Lmax() != e.lmax || a.Mmax() != e.mmax) return strf("%s: limits changed", what_); for (int m = 0; m <= e.mmax; ++m) for (int l = m; l <= e.lmax; ++l) { auto v = e.get(l, m); if (!(std::fabs(a(l, m).re - v.real()) <= tol && std::fabs(a(l, m).im - v.imag()) <= tol)) return strf("%s: coefficient (%d,%d) is (%.9g,%.9g), expected (%.9g,%.9g)", what_, l, m, (double)a(l, m).re, (double)a(l, m).im, v.real(), v.imag()); } return ""; }
// active rotation: first psi about z, then theta about y, then phi about z
static ref::Alm rotated(const ref::Alm &a, double psi, double th, double phi) {
  ref::Alm r(a.lmax, a.mmax); for (int m = 0; m <= a.mmax; ++m) { for (int k = -a.lmax; k <= a.lmax; ++k) { auto d = ref::wigner(a.lmax, m, k, th); ref::C f = std::polar(1.0, -m*phi - k*psi); for (int l = std::max(m, std::abs(k)); l <= a.lmax; ++l) r.at(l, m) += f * (double)d[l] * a.get(l, k); } } return r; }
static double field(const ref::Alm &a, double x, double y, double z) { double th = std::atan2(std::hypot(x, y), z), ph = std::atan2(y, x), s = 0; for (int m = 0; m <= a.mmax; ++m) { auto d = ref::wigner(a.lmax, m, 0, th); for (int l = m; l <= a.lmax; ++l) s += (m ? 2 : 1) * std::sqrt((2*l+1)/(4*PI)) * (double)d[l] * (a.get(l, m) * std::polar(1.0, m*ph)).real(); } return s; }
static vector<double> eul() { return {0, 0.4, PI/2, 1.9, PI, -0.7, -PI/2, -PI, 2*PI, 4.4, 1e-9}; }
struct Rotate : Pure {
  struct C { int L; double a, b, g; int comp; }; vector<C> c; enum { NF = 6 };
  void prepare() override { auto e = eul(); for (int L = 0; L <= (thorough() ? 7 : 5); ++L) for (size_t x = 0; x < e.size(); ++x) for (size_t y = 0; y < e.size(); ++y) for (size_t z = 0; z < e.size(); ++z) { if (!L) continue; if (!thorough() && L > 2 && (x + 2*y + 3*z + L) % 4) continue; c.push_back({L, e[x], e[y], e[z], 0}); } for (int L : {9, 14, 20}) for (double b : e) c.push_back({L, 0.3, b, -1.1, 0}); }
  size_t size() override { return c.size(); }
  string describe(size_t i) override { auto &x = c[i]; return strf("lmax=%d psi=%.17g theta=%.17g phi=%.17g: every basis coefficient, dense input, polarised, single and double precision, by angles and by matrix", x.L, x.a, x.b, x.g); }
  string run(size_t i, Out &o) override {
    auto &x = c[i]; string m; levels::rotmatrix R; R.Make_CPAC_Euler_Matrix(x.g, x.b, x.a);
    vector<ref::Alm> in; if (x.L <= 5) for (int mm = 0; mm <= x.L; ++mm) for (int l = mm; l <= x.L; ++l) for (int q = 0; q < (mm ? 2 : 1); ++q) { ref::Alm u(x.L, x.L); u.at(l, mm) = q ? ref::C(0, 1) : ref::C(1, 0); in.push_back(u); }
    auto de = fix::dense(5 + x.L, x.L, x.L, true); for (auto &q : de.c) in.push_back(q);
    for (auto &u : in) { ref::Alm e = rotated(u, x.a, x.b, x.g); bool dn = &u >= &in[in.size()-3]; double s = dn ? 4*x.L + 4 : 1, td = 2e-14*s*(x.L + 2), tf = 3e-6*s;
      AlmD d; load(d, u); levels::rotate_alm(d, x.a, x.b, x.g); if ((m = cmp(d, e, td, "double precision, by angles")).size()) return m; o.put(d(x.L, 0).re);
      AlmF f; load(f, u); levels::rotate_alm(f, x.a, x.b, x.g); if ((m = cmp(f, e, tf, "single precision, by angles")).size()) return m;
      load(d, u); levels::rotate_alm(d, R); if ((m = cmp(d, e, td + 3e-6*s*x.L*(std::fabs(std::sin(x.b)) < 2e-6), "double precision, by matrix")).size()) return m;
      if (dn) { load(d, u); levels::rotate_alm(d, x.a, x.b, x.g); levels::rotate_alm(d, -x.g, -x.b, -x.a); if ((m = cmp(d, u, 2*td, "rotated forth and back")).size()) return m;
        // the rotated field is the field at the point rotated back
        for (auto v : {levels::vec3(0.3, -0.5, 0.81), levels::vec3(-0.9, 0.1, -0.42), levels::vec3(0.1, 0.95, 0.3)}) { levels::vec3 w = R.Transform(v); double f0 = field(u, v.x, v.y, v.z), f1 = field(e, w.x, w.y, w.z); if (!(std::fabs(f0 - f1) <= 1e-12*s*(x.L + 1)*(x.L + 1))) return strf("reference model: field %.17g, rotated %.17g", f0, f1); }
        levels::PowSpec p0, p1; AlmD d0; load(d0, u); levels::extract_powspec(d0, p0); load(d, u); levels::rotate_alm(d, x.a, x.b, x.g); levels::extract_powspec(d, p1); for (int l = 0; l <= x.L; ++l) if (!(std::fabs(p0.tt(l) - p1.tt(l)) <= 1e-12*(1 + p0.tt(l))*(x.L + 1))) return strf("rotation changes the power at l=%d from %.17g to %.17g", l, p0.tt(l), p1.tt(l)); } }
    AlmD T, G, CC; for (int how = 0; how < 2; ++how) { load(T, de.c[0]); load(G, de.c[1]); load(CC, de.c[2]); if (how) levels::rotate_alm(T, G, CC, R); else levels::rotate_alm(T, G, CC, x.a, x.b, x.g); double s = 4*x.L + 4, t = 2e-14*s*(x.L + 2) + (how ? 3e-6*s*x.L*(std::fabs(std::sin(x.b)) < 2e-6) : 0);
      if ((m = cmp(T, rotated(de.c[0], x.a, x.b, x.g), t, "polarised T")).size() || (m = cmp(G, rotated(de.c[1], x.a, x.b, x.g), t, "polarised G")).size() || (m = cmp(CC, rotated(de.c[2], x.a, x.b, x.g), t, "polarised C")).size()) return m; }
    AlmF fT, fG, fC; load(fT, de.c[0]); load(fG, de.c[1]); load(fC, de.c[2]); levels::rotate_alm(fT, fG, fC, x.a, x.b, x.g); double s = 4*x.L + 4; if ((m = cmp(fT, rotated(de.c[0], x.a, x.b, x.g), 3e-6*s, "polarised T, single")).size() || (m = cmp(fG, rotated(de.c[1], x.a, x.b, x.g), 3e-6*s, "polarised G, single")).size() || (m = cmp(fC, rotated(de.c[2], x.a, x.b, x.g), 3e-6*s, "polarised C, single")).size()) return m;
    return ""; }
};
struct AlmTools : Pure { // smoothing, spectra, scaling, addition
  struct C { int L, M; int w; bool dbl; }; vector<C> c;
  vector<double> fw = {0, 1e-4, 0.05, 0.3, 1.0, -0.05, -0.3};
  void prepare() override { for (int L = 0; L <= (thorough() ? 10 : 7); ++L) for (int M = 0; M <= L; ++M) for (int w = 0; w < (int)fw.size(); ++w) for (int d = 0; d < 2; ++d) c.push_back({L, M, w, (bool)d}); }
  size_t size() override { return c.size(); }
  string describe(size_t i) override { auto &x = c[i]; return strf("lmax=%d mmax=%d width %g %s precision: smoothing, spectra, scaling, addition, conformity", x.L, x.M, fw[x.w], x.dbl ? "double" : "single"); }
  template<class A> string go(const C &x, Out &o) {
    string m; auto e = fix::dense(3 + x.L*5 + x.M, x.L, x.M, true), e2 = fix::dense(77 + x.L*5 + x.M, x.L, x.M, true); double rel = x.dbl ? 1e-13 : 3e-7; double W = fw[x.w], sg = std::fabs(W)/std::sqrt(8*std::log(2.0)), fc = W >= 0 ? 1 : -1;
    auto scaled = [&](const ref::Alm &a, std::function<double(int,int)> f) { ref::Alm r = a; for (int l = 0; l <= a.lmax; ++l) for (int k = 0; k <= std::min(l, a.mmax); ++k) r.at(l, k) *= f(l, k); return r; };
    auto win = [&](int l, int) { return std::exp(-.5*fc*l*(l+1)*sg*sg); }; auto winp = [&](int l, int) { return std::exp(-.5*fc*(l*(l+1) - 4)*sg*sg); }; double big = 4*std::max(1.0, winp(x.L, 0));
    A a, t, g, cc; load(a, e.c[0]); levels::smoothWithGauss(a, W); if ((m = cmp(a, scaled(e.c[0], win), rel*big, "smoothed")).size()) return m; o.put(a(x.L, 0).re);
    load(t, e.c[0]); load(g, e.c[1]); load(cc, e.c[2]); levels::smoothWithGauss(t, g, cc, W); if ((m = cmp(t, scaled(e.c[0], win), rel*big, "smoothed T")).size() || (m = cmp(g, scaled(e.c[1], winp), rel*big, "smoothed G")).size() || (m = cmp(cc, scaled(e.c[2], winp), rel*big, "smoothed C")).size()) return m;
    Arr fl(x.L + 1 + (x.w & 1)), fm(x.M + 1 + (x.w & 1)); for (tsize k = 0; k < fl.size(); ++k) fl[k] = 0.5 + 0.25*k; for (tsize k = 0; k < fm.size(); ++k) fm[k] = 2 - 0.5*k;
    load(a, e.c[0]); a.ScaleL(fl); if ((m = cmp(a, scaled(e.c[0], [&](int l, int) { return fl[l]; }), rel*40, "ScaleL")).size()) return m;
    load(a, e.c[0]); a.ScaleM(fm); if ((m = cmp(a, scaled(e.c[0], [&](int, int k) { return fm[k]; }), rel*40, "ScaleM")).size()) return m;
    load(a, e.c[0]); a.Scale(-2.5); if ((m = cmp(a, scaled(e.c[0], [&](int, int) { return -2.5; }), rel*10, "Scale")).size()) return m;
    A b; load(a, e.c[0]); load(b, e2.c[0]); a.Add(b); ref::Alm sum = e.c[0]; for (size_t k = 0; k < sum.a.size(); ++k) sum.a[k] += e2.c[0].a[k]; if ((m = cmp(a, sum, 0, "Add")).size() || (m = cmp(b, e2.c[0], 0, "the added expansion")).size()) return m;
    typedef typename std::remove_reference<decltype(a(0,0).re)>::type T; load(a, e.c[0]); a.Add(xcomplex<T>(T(1.25), T(0))); ref::Alm p = e.c[0]; p.at(0, 0) += 1.25; if ((m = cmp(a, p, 0, "Add of a number")).size()) return m;
    load(a, e.c[0]); a.swap(b); if ((m = cmp(b, e.c[0], 0, "swap")).size() || (m = cmp(a, e2.c[0], 0, "swap")).size()) return m; a.SetToZero(); if ((m = cmp(a, ref::Alm(x.L, x.M), 0, "SetToZero")).size()) return m;
    // arrays that are too short and expansions that do not conform are refused
    auto refused = [&](std::function<void()> f) { try { f(); } catch (...) { return true; } return false; }; A big_; load(big_, fix::dense(1, x.L + 1, x.M, true).c[0]); A wide; if (x.M < x.L) load(wide, fix::dense(1, x.L, x.M + 1, true).c[0]); else load(wide, fix::dense(1, x.L + 1, x.M + 1, true).c[0]); levels::PowSpec ps; load(a, e.c[0]);
    FILE *er = freopen("/dev/null", "a", stderr); (void)er;
    if (!refused([&] { a.Add(big_); }) || !refused([&] { a.Add(wide); })) return "expansions with different limits were added"; if (!refused([&] { levels::extract_crosspowspec(a, big_, ps); }) || !refused([&] { levels::extract_crosspowspec(wide, a, ps); })) return "a cross spectrum of expansions with different limits was accepted"; { Arr s(x.L); if (!refused([&] { a.ScaleL(s); })) return "ScaleL accepted too few factors"; Arr s2(x.M); if (!refused([&] { a.ScaleM(s2); })) return "ScaleM accepted too few factors"; }
    if (x.M < x.L && !refused([&] { levels::rotate_alm(a, 0.1, 0.2, 0.3); })) return "an expansion with mmax < lmax was rotated"; if ((m = cmp(a, e.c[0], 0, "after refused operations")).size()) return m;
    // spectra
    auto spec = [&](const ref::Alm &u, const ref::Alm &v, int l) { double s = u.get(l, 0).real()*v.get(l, 0).real(); for (int k = 1; k <= std::min(l, x.M); ++k) s += 2*(u.get(l, k)*std::conj(v.get(l, k))).real(); return s/(2*l+1); };
    levels::PowSpec q; load(a, e.c[0]); load(b, e2.c[0]); levels::extract_crosspowspec(a, b, q); if (q.Lmax() != x.L || q.Num_specs() != 1) return "cross spectrum has the wrong size"; for (int l = 0; l <= x.L; ++l) if (!(std::fabs(q.tt(l) - spec(e.c[0], e2.c[0], l)) <= rel*40)) return strf("cross spectrum at l=%d is %.17g, expected %.17g", l, q.tt(l), spec(e.c[0], e2.c[0], l));
    levels::extract_powspec(a, q); for (int l = 0; l <= x.L; ++l) if (!(std::fabs(q.tt(l) - spec(e.c[0], e.c[0], l)) <= rel*40)) return strf("power spectrum at l=%d is %.17g, expected %.17g", l, q.tt(l), spec(e.c[0], e.c[0], l));
    load(t, e.c[0]); load(g, e.c[1]); load(cc, e.c[2]); levels::extract_powspec(t, g, cc, q); if (q.Num_specs() != 6 || q.Lmax() != x.L) return "polarised spectrum has the wrong size"; for (int l = 0; l <= x.L; ++l) { double v[6] = {q.tt(l), q.gg(l), q.cc(l), q.tg(l), q.tc(l), q.gc(l)}; int u[6][2] = {{0,0},{1,1},{2,2},{0,1},{0,2},{1,2}}; for (int k = 0; k < 6; ++k) if (!(std::fabs(v[k] - spec(e.c[u[k][0]], e.c[u[k][1]], l)) <= rel*40)) return strf("polarised spectrum %d at l=%d is %.17g, expected %.17g", k, l, v[k], spec(e.c[u[k][0]], e.c[u[k][1]], l)); }
    // smoothing a spectrum
    for (int ns : {1, 4}) { if (W < 0) break; levels::PowSpec s(ns, x.L); for (int l = 0; l <= x.L; ++l) { s.tt(l) = 1 + l; if (ns > 1) { s.gg(l) = 2 + l; s.cc(l) = 3; s.tg(l) = 0.5*l; } } s.smoothWithGauss(W); for (int l = 0; l <= x.L; ++l) { double f = win(l, 0), h = winp(l, 0); if (!(std::fabs(s.tt(l) - (1+l)*f*f) <= 1e-12*(1+l))) return strf("smoothed spectrum at l=%d", l); if (ns > 1 && !(std::fabs(s.gg(l) - (2+l)*h*h) <= 1e-11*(2+l)*big && std::fabs(s.cc(l) - 3*h*h) <= 1e-11*big && std::fabs(s.tg(l) - 0.5*l*f*h) <= 1e-11*(1+l)*big)) return strf("smoothed polarised spectrum at l=%d", l); } }
    return ""; }
  string run(size_t i, Out &o) override { return c[i].dbl ? go<AlmD>(c[i], o) : go<AlmF>(c[i], o); }
};
struct ToolHist : Pure { // every short history of tool calls on expansions of equal and different size
  int depth() { return thorough() ? 5 : 4; } enum { NOP = 26 }; ref::Alm real0, real1;
  static const char *name(int k) { static const char *N[] = {"smooth x by 0.3", "smooth x by -0.3", "smooth x by 0.7", "smooth y by 0.3", "smooth y by -0.3", "smooth f by 0.3", "smooth f by -0.3", "smooth T,G,C by 0.3", "smooth T,G,C by -0.3", "rotate x", "rotate x by other angles", "rotate y", "rotate f", "rotate T,G,C", "rotate x by matrix", "ScaleL x", "ScaleM y", "spectrum of x", "spectra of T,G,C", "smooth spectrum by 0.3", "smooth spectrum by 0.7", "cross spectrum of T and G", "realise x", "x of a smaller size", "swap x,y", "set four spectra"}; return N[k]; }
  // the draws of one realisation, taken before any history starts
  void prepare() override { for (int L : {2, 3}) { levels::planck_rng g(42); levels::PowSpec u(1, L); for (int l = 0; l <= L; ++l) u.tt(l) = 1 + l; AlmD a(L, L); levels::create_alm(u, a, g); ref::Alm &r = L == 2 ? real0 : real1; r = ref::Alm(L, L); for (int m = 0; m <= L; ++m) for (int l = m; l <= L; ++l) r.at(l, m) = ref::C(a(l, m).re, a(l, m).im); } }
  size_t size() override { size_t n = 1; for (int i = 0; i < depth(); ++i) n *= NOP; return n; }
  size_t batch() override { return 2000; }
  string describe(size_t i) override { string s = "x (double, lmax 3), y (double, lmax 5), f (single, lmax 3), T,G,C (double, lmax 3):"; for (int k = 0; k < depth(); ++k) { s += string(k ? "; " : " ") + name(i % NOP); i /= NOP; } return s; }
  static ref::Alm turn(const ref::Alm &a, double psi, double th, double phi) { // rotated(), with the matrix elements kept
    static std::map<std::array<double, 4>, vector<ref::LD>> cache; ref::Alm r(a.lmax, a.mmax);
    for (int m = 0; m <= a.mmax; ++m) for (int k = -a.lmax; k <= a.lmax; ++k) { auto &d = cache[{{(double)a.lmax, (double)m, (double)k, th}}]; if (d.empty()) d = ref::wigner(a.lmax, m, k, th); ref::C f = std::polar(1.0, -m*phi - k*psi); for (int l = std::max(m, std::abs(k)); l <= a.lmax; ++l) r.at(l, m) += f * (double)d[l] * a.get(l, k); }
    return r; }
  string run(size_t i, Out &o) override {
    static bool quiet = false; if (!quiet) { FILE *er = freopen("/dev/null", "a", stderr); (void)er; quiet = true; } // refusals are printed
    AlmD x, y, t, g, c; AlmF f; levels::PowSpec p; auto e3 = fix::dense(4, 3, 3, true), e5 = fix::dense(9, 5, 5, true); ref::Alm mx = e3.c[0], my = e5.c[0], mf = e3.c[1], mt = e3.c[0], mg = e3.c[1], mc = e3.c[2]; load(x, mx); load(y, my); load(f, mf); load(t, mt); load(g, mg); load(c, mc); vector<vector<double>> mp;
    const double th0 = 0.7, ps = 0.3, ph = -1.1, s2f = 1/std::sqrt(8*std::log(2.0)); string m;
    auto win = [&](ref::Alm &a, double W, bool pol) { double sg = W*s2f; for (int l = 0; l <= a.lmax; ++l) for (int k = 0; k <= std::min(l, a.mmax); ++k) a.at(l, k) *= std::exp(-.5*(W < 0 ? -1 : 1)*(l*(l+1) - (pol ? 4 : 0))*sg*sg); };
    auto spec = [](const ref::Alm &u, const ref::Alm &v) { vector<double> r; for (int l = 0; l <= u.lmax; ++l) { double s = u.get(l, 0).real()*v.get(l, 0).real(); for (int k = 1; k <= std::min(l, u.mmax); ++k) s += 2*(u.get(l, k)*std::conj(v.get(l, k))).real(); r.push_back(s/(2*l+1)); } return r; };
    auto psm = [&](double W) { if (mp.empty()) return; try { p.smoothWithGauss(W); } catch (levels::LEVELSError &) { if (mp.size() == 6) return; throw; } double sg = W*s2f; for (size_t k = 0; k < mp.size(); ++k) for (size_t l = 0; l < mp[k].size(); ++l) { double a = std::exp(-.5*l*(l+1.0)*sg*sg), b = std::exp(-.5*(l*(l+1.0) - 4)*sg*sg); mp[k][l] *= k == 0 ? a*a : k < 3 ? b*b : k == 5 ? b*b : a*b; } };
    for (int s = 0; s < depth() && m.empty(); ++s, i /= NOP) { switch (i % NOP) {
      case 0: levels::smoothWithGauss(x, 0.3); win(mx, 0.3, false); break; case 1: levels::smoothWithGauss(x, -0.3); win(mx, -0.3, false); break; case 2: levels::smoothWithGauss(x, 0.7); win(mx, 0.7, false); break;
      case 3: levels::smoothWithGauss(y, 0.3); win(my, 0.3, false); break; case 4: levels::smoothWithGauss(y, -0.3); win(my, -0.3, false); break; case 5: levels::smoothWithGauss(f, 0.3); win(mf, 0.3, false); break; case 6: levels::smoothWithGauss(f, -0.3); win(mf, -0.3, false); break;
      case 7: case 8: { double W = i % NOP == 7 ? 0.3 : -0.3; levels::smoothWithGauss(t, g, c, W); win(mt, W, false); win(mg, W, true); win(mc, W, true); break; }
      case 9: levels::rotate_alm(x, ps, th0, ph); mx = turn(mx, ps, th0, ph); break; case 10: levels::rotate_alm(x, ph, -th0, ps); mx = turn(mx, ph, -th0, ps); break; case 11: levels::rotate_alm(y, ps, th0, ph); my = turn(my, ps, th0, ph); break; case 12: levels::rotate_alm(f, ps, th0, ph); mf = turn(mf, ps, th0, ph); break;
      case 13: levels::rotate_alm(t, g, c, ps, th0, ph); mt = turn(mt, ps, th0, ph); mg = turn(mg, ps, th0, ph); mc = turn(mc, ps, th0, ph); break;
      case 14: { levels::rotmatrix R; R.Make_CPAC_Euler_Matrix(ph, th0, ps); levels::rotate_alm(x, R); mx = turn(mx, ps, th0, ph); break; }
      case 15: { Arr q(x.Lmax() + 1); for (tsize k = 0; k < q.size(); ++k) q[k] = 0.5 + 0.25*k; x.ScaleL(q); for (int k = 0; k <= mx.mmax; ++k) for (int l = k; l <= mx.lmax; ++l) mx.at(l, k) *= q[l]; break; }
      case 16: { Arr q(y.Mmax() + 1); for (tsize k = 0; k < q.size(); ++k) q[k] = 1.5 - 0.25*k; y.ScaleM(q); for (int k = 0; k <= my.mmax; ++k) for (int l = k; l <= my.lmax; ++l) my.at(l, k) *= q[k]; break; }
      case 17: levels::extract_powspec(x, p); mp = {spec(mx, mx)}; break; case 18: levels::extract_powspec(t, g, c, p); mp = {spec(mt, mt), spec(mg, mg), spec(mc, mc), spec(mt, mg), spec(mt, mc), spec(mg, mc)}; break;
      case 19: psm(0.3); break; case 20: psm(0.7); break; case 21: levels::extract_crosspowspec(t, g, p); mp = {spec(mt, mg)}; break;
      case 22: { if (x.Lmax() > 3) break; int L = x.Lmax(); levels::planck_rng r(42); levels::PowSpec u(1, L); for (int l = 0; l <= L; ++l) u.tt(l) = 1 + l; levels::create_alm(u, x, r); mx = L == 2 ? real0 : real1; break; }
      case 23: mx = fix::dense(11, 2, 2, true).c[0]; load(x, mx); break; case 24: x.swap(y); std::swap(mx, my); break;
      case 25: { int L = 2 + s; p.Set(4, L); mp.assign(4, vector<double>(L + 1)); for (int l = 0; l <= L; ++l) { p.tt(l) = mp[0][l] = 1 + l; p.gg(l) = mp[1][l] = 2 + l; p.cc(l) = mp[2][l] = 3; p.tg(l) = mp[3][l] = 0.5*l; } break; } }
      ++o.ops; auto tol = [&](const ref::Alm &a, double rel) { double b = 1; for (auto &v : a.a) b = std::max(b, std::abs(v)); return rel*b*60; };
      if ((m = cmp(x, mx, tol(mx, 1e-14), "x")).size() || (m = cmp(y, my, tol(my, 1e-14), "y")).size() || (m = cmp(f, mf, tol(mf, 1e-7), "f")).size() || (m = cmp(t, mt, tol(mt, 1e-14), "T")).size() || (m = cmp(g, mg, tol(mg, 1e-14), "G")).size() || (m = cmp(c, mc, tol(mc, 1e-14), "C")).size()) break;
      if (mp.size() && (p.Num_specs() != (int)mp.size() || p.Lmax() + 1 != (int)mp[0].size())) { m = "the spectrum has the wrong size"; break; }
      for (size_t k = 0; k < mp.size() && m.empty(); ++k) for (int l = 0; l < (int)mp[k].size(); ++l) { double v = k == 0 ? p.tt(l) : k == 1 ? p.gg(l) : k == 2 ? p.cc(l) : k == 3 ? p.tg(l) : k == 4 ? p.tc(l) : p.gc(l); if (!(std::fabs(v - mp[k][l]) <= 1e-11*(1 + std::fabs(mp[k][l])))) { m = strf("spectrum %zu at l=%d is %.17g, expected %.17g", k, l, v, mp[k][l]); break; } } 
      if (m.size()) m = strf("after step %d: ", s + 1) + m; }
    o.put(mx.get(mx.lmax, 0).real()); return m; }
};
// Gaussian realisations: which number of the documented random sequence goes to which coefficient is left open, but each is used once and
// every coefficient is the prescribed combination of independent unit draws
struct Synth : Pure {
  struct C { int L, M, kind; unsigned seed; bool dbl; }; vector<C> c; enum { UNPOL, DENSE, NOTG, ZEROT, FULL, NEARLY, TOOMUCH, NK };
  void prepare() override { for (int L = 0; L <= (thorough() ? 10 : 6); ++L) for (int M = 0; M <= L; ++M) for (int k = 0; k < NK; ++k) for (unsigned sd : {1u, 42u, 0xFFFFFFFFu}) for (int d = 0; d < 2; ++d) c.push_back({L, M, k, sd, (bool)d}); }
  size_t size() override { return c.size(); }
  string describe(size_t i) override { static const char *K[] = {"unpolarised", "correlated", "uncorrelated", "no temperature at some degrees", "fully correlated", "correlated beyond the limit by a rounding error", "correlated beyond the limit"}; auto &x = c[i]; return strf("realisation of a spectrum (%s), lmax=%d mmax=%d seed %u, %s precision", K[x.kind], x.L, x.M, x.seed, x.dbl ? "double" : "single"); }
  template<class A> string go(const C &x, Out &o) {
    int L = x.L, M = x.M, nc = x.kind == UNPOL ? 1 : 3; double rel = x.dbl ? 1e-13 : 4e-7, s2 = std::sqrt(2.0); auto draws = [&](size_t n) { levels::planck_rng g(x.seed); vector<double> v; for (size_t k = 0; k < n; ++k) v.push_back(g.rand_gauss()); return v; };
    auto make = [&](const levels::PowSpec &p, A *a, levels::planck_rng &g) { for (int k = 0; k < 3; ++k) { a[k].Set(L, M); for (int m = 0; m <= M; ++m) for (int l = m; l <= L; ++l) a[k](l, m).Set(99, 99); } if (nc == 1) levels::create_alm(p, a[0], g); else levels::create_alm_pol(p, a[0], a[1], a[2], g); };
    // independent unit spectra give the draws themselves
    int extra = x.seed == 42 ? 2 : 0; levels::PowSpec u(nc == 1 ? 1 : (x.L & 1 ? 6 : 4), L + extra); for (int l = 0; l <= L + extra; ++l) { u.tt(l) = 1; if (nc > 1) { u.gg(l) = u.cc(l) = 1; u.tg(l) = 0; if (u.Num_specs() == 6) u.tc(l) = u.gc(l) = 0; } }
    A z[3]; levels::planck_rng g(x.seed); make(u, z, g); vector<double> used; size_t n = 0; for (int k = 0; k < nc; ++k) for (int m = 0; m <= M; ++m) for (int l = m; l <= L; ++l) { used.push_back((double)z[k](l, m).re * (m ? s2 : 1)); if (m) used.push_back((double)z[k](l, m).im * s2); else if (z[k](l, 0).im != 0) return strf("component %d: coefficient (%d,0) has an imaginary part", k, l); }
    n = used.size(); auto e = draws(n + 1); if (g.rand_gauss() != e[n]) return "the generator was not advanced by one number per real degree of freedom"; e.pop_back(); std::sort(e.begin(), e.end()); std::sort(used.begin(), used.end()); for (size_t k = 0; k < n; ++k) if (!(std::fabs(e[k] - used[k]) <= 8*rel)) return strf("unit spectra: the coefficients are not the draws (sorted entry %zu is %.9g, expected %.9g)", k, used[k], e[k]);
    // the requested spectra
    levels::PowSpec p(u.Num_specs(), L + extra); for (int l = 0; l <= L + extra; ++l) { double t = 1 + 0.5*l, q = 2.0/(1 + l), cc = 0.25*(l + 1), tg = (l & 1 ? -0.4 : 0.6)*std::sqrt(t*q);
        if (x.kind == NOTG) tg = 0; if (x.kind == ZEROT) { if (l % 2 == 0) { t = 0; tg = 0; } } if (x.kind == FULL) { t = 4; q = 9; tg = l & 1 ? -6 : 6; } if (x.kind == NEARLY) { t = 4; q = 9; tg = 6*(1 + 1e-10); } if (x.kind == TOOMUCH && l == L) tg = 1.5*std::sqrt(t*q);
        p.tt(l) = t; if (nc > 1) { p.gg(l) = q; p.cc(l) = cc; p.tg(l) = tg; if (p.Num_specs() == 6) p.tc(l) = p.gc(l) = 0; } }
    A a[3]; g.seed(x.seed); bool bad = false; if (x.kind == TOOMUCH) { FILE *er = freopen("/dev/null", "a", stderr); (void)er; }
    try { make(p, a, g); } catch (levels::LEVELSError &) { bad = true; } if (bad != (x.kind == TOOMUCH)) return bad ? "a consistent spectrum was refused" : "a spectrum with an impossible correlation was accepted"; if (bad) return "";
    if (g.rand_gauss() != draws(n + 1)[n]) return "the generator was not advanced by one number per real degree of freedom";
    for (int m = 0; m <= M; ++m) for (int l = m; l <= L; ++l) for (int im = 0; im < 2; ++im) { auto v = [&](A &q) { return (double)(im ? q(l, m).im : q(l, m).re); };
        double t = p.tt(l), e0 = std::sqrt(t)*v(z[0]); if (!(std::fabs(v(a[0]) - e0) <= rel*40)) return strf("temperature coefficient (%d,%d) is %.9g, expected %.9g", l, m, v(a[0]), e0); if (nc == 1) continue;
        double r1 = t ? p.tg(l)/std::sqrt(t) : 0, r2 = std::sqrt(std::max(0.0, p.gg(l) - r1*r1)), e1 = r1*v(z[0]) + r2*v(z[1]), e2 = std::sqrt(p.cc(l))*v(z[2]); double tol = rel*80 + (x.kind == FULL || x.kind == NEARLY ? 3e-7 : 0);
        if (!(std::fabs(v(a[1]) - e1) <= tol)) return strf("gradient coefficient (%d,%d) is %.9g, expected %.9g", l, m, v(a[1]), e1); if (!(std::fabs(v(a[2]) - e2) <= tol)) return strf("curl coefficient (%d,%d) is %.9g, expected %.9g", l, m, v(a[2]), e2); }
    o.put(a[0](L, 0).re); return ""; }
  string run(size_t i, Out &o) override { return c[i].dbl ? go<AlmD>(c[i], o) : go<AlmF>(c[i], o); }
};
struct PowHist : Pure { // every short history of two spectrum objects
  int depth() { return thorough() ? 5 : 4; } static const int NOP = 13;
  size_t size() override { size_t n = 1; for (int i = 0; i < depth(); ++i) n *= NOP; return n; }
  size_t batch() override { return 2000; }
  static const char *const *names() { static const char *N[] = {"a.Set(1,2)", "a.Set(4,2)", "a.Set(6,3)", "b.Set(1,0)", "a.Set(tt)", "b.Set(tt,gg,cc,tg)", "a.Set(six arrays)", "a.Set(mismatched)", "a=b", "b=a", "write a", "a.Set(bad count)", "a=PowSpec(4,1)"}; return N; }
  string describe(size_t i) override { string s = "spectra:"; for (int k = 0; k < depth(); ++k) { s += string(" ") + names()[i % NOP]; i /= NOP; } return s; }
  struct M { int ns = 0; bool set = false, known = false; vector<double> v[6]; };
  static string cmp(levels::PowSpec &a, const M &m, const char *who) {
    if (!m.set) return ""; if (a.Num_specs() != m.ns || a.Lmax() != (int)m.v[0].size() - 1) return strf("%s has %d spectra and lmax %d, expected %d and %d", who, a.Num_specs(), a.Lmax(), m.ns, (int)m.v[0].size() - 1);
    const levels::PowSpec &ca = a; const levels::arr<double> *p[6] = {&a.tt(), &a.gg(), &a.cc(), &a.tg(), &a.tc(), &a.gc()}; 
    for (int k = 0; k < 6; ++k) if (p[k]->size() != m.v[k].size()) return strf("%s: spectrum %d has %zu entries, expected %zu", who, k, (size_t)p[k]->size(), m.v[k].size());
    try { a.assertArraySizes(); } catch (levels::LEVELSError &) { return strf("%s: its own size check fails", who); }
    if (!m.known) return ""; for (int k = 0; k < 6; ++k) for (size_t l = 0; l < m.v[k].size(); ++l) { double c = k == 0 ? ca.tt(l) : k == 1 ? ca.gg(l) : k == 2 ? ca.cc(l) : k == 3 ? ca.tg(l) : k == 4 ? ca.tc(l) : ca.gc(l); if ((*p[k])[l] != m.v[k][l] || c != m.v[k][l]) return strf("%s: spectrum %d at l=%zu is %g, expected %g", who, k, l, c, m.v[k][l]); }
    bool ok = true; for (size_t l = 0; l < m.v[0].size(); ++l) { auto &v = m.v; for (int k = 0; k < (m.ns >= 4 ? 3 : 1); ++k) ok = ok && v[k][l] >= 0; if (ok && m.ns >= 4) ok = std::fabs(v[3][l]) <= std::sqrt(v[0][l]*v[1][l]); if (ok && m.ns == 6) ok = std::fabs(v[4][l]) <= std::sqrt(v[0][l]*v[2][l]) && std::fabs(v[5][l]) <= std::sqrt(v[1][l]*v[2][l]); }
    if (a.consistentAutoPowspec() != ok) return strf("%s is reported %s", who, ok ? "inconsistent" : "consistent"); return ""; }
  string run(size_t i, Out &o) override {
    static bool quiet = false; if (!quiet) { FILE *er = freopen("/dev/null", "a", stderr); (void)er; quiet = true; }
    levels::PowSpec a, b; M ma, mb; string m; int step = 0;
    auto setmodel = [&](M &q, int ns, int n) { q = M(); q.set = true; q.ns = ns; int cnt = ns == 1 ? 1 : ns; for (int k = 0; k < cnt; ++k) q.v[k].assign(n, 0); };
    auto fill = [&](Arr &x, M &q, int k, int n) { x.alloc(n); q.v[k].assign(n, 0); for (int l = 0; l < n; ++l) { static const double V[] = {4, 1, 9, 1.5, -2, 0.5}; x[l] = q.v[k][l] = V[k] * (1 + (l + step) % 3) * (k == 3 && step % 2 && l == n - 1 ? -2 : 1) * (step == 2 && k < 3 && l == 0 ? -1 : 1); } };
    for (int s = 0; s < depth() && m.empty(); ++s, i /= NOP) { step = s; switch (i % NOP) {
      case 0: a.Set(1, 2); setmodel(ma, 1, 3); break; case 1: a.Set(4, 2); setmodel(ma, 4, 3); break; case 2: a.Set(6, 3); setmodel(ma, 6, 4); break; case 3: b.Set(1, 0); setmodel(mb, 1, 1); break;
      case 4: { Arr t; M q; q.set = q.known = true; q.ns = 1; fill(t, q, 0, 3); a.Set(t); ma = q; if (t.size()) m = "the argument keeps its contents"; break; }
      case 5: { Arr t[4]; M q; q.set = q.known = true; q.ns = 4; for (int k = 0; k < 4; ++k) fill(t[k], q, k, 2); b.Set(t[0], t[1], t[2], t[3]); mb = q; for (auto &x : t) if (x.size()) m = "an argument keeps its contents"; break; }
      case 6: { Arr t[6]; M q; q.set = q.known = true; q.ns = 6; for (int k = 0; k < 6; ++k) fill(t[k], q, k, 2 + s % 2); a.Set(t[0], t[1], t[2], t[3], t[4], t[5]); ma = q; for (auto &x : t) if (x.size()) m = "an argument keeps its contents"; break; }
      case 7: { Arr t[6]; M q; for (int k = 0; k < 6; ++k) fill(t[k], q, k, k == 1 + s ? 2 : 3); bool bad = false; try { a.Set(t[0], t[1], t[2], t[3], t[4], t[5]); } catch (levels::LEVELSError &) { bad = true; } if (!bad) m = "arrays of different lengths were accepted"; ma.set = false; break; }
      case 8: a = b; ma = mb; break; case 9: b = a; mb = ma; break;
      case 10: if (!ma.set) break; ma.known = true; for (size_t l = 0; l < ma.v[0].size(); ++l) for (int k = 0; k < ma.ns; ++k) { double v = (k < 3 ? 1.0 : 0.9) * (1 + l + s % 2); (k == 0 ? a.tt(l) : k == 1 ? a.gg(l) : k == 2 ? a.cc(l) : k == 3 ? a.tg(l) : k == 4 ? a.tc(l) : a.gc(l)) = v; ma.v[k][l] = v; } break;
      case 11: { bool bad = false; try { a.Set(s % 2 ? 3 : 0, 2); } catch (levels::LEVELSError &) { bad = true; } if (!bad) m = "a wrong number of spectra was accepted"; ma.set = false; break; }
      case 12: a = levels::PowSpec(4, 1); setmodel(ma, 4, 2); break; }
      ++o.ops; if (m.empty()) m = cmp(a, ma, "a"); if (m.empty()) m = cmp(b, mb, "b"); }
    return m; }
};
struct RotMat : Pure { // rotation matrices: Euler angles, axis and angle, products
  vector<std::array<double, 3>> c;
  void prepare() override { auto e = eul(); e.push_back(0.2); e.push_back(2.9); e.push_back(1e-7); e.push_back(PI - 1e-7); for (double a : e) for (double b : e) for (double g : e) c.push_back({{a, b, g}}); }
  size_t size() override { return c.size(); }
  string describe(size_t i) override { return strf("rotation matrix of Euler angles %.17g %.17g %.17g", c[i][0], c[i][1], c[i][2]); }
  typedef std::array<std::array<double,3>,3> M;
  static M mul(const M &a, const M &b) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r[i][j] = 0; for (int k = 0; k < 3; ++k) r[i][j] += a[i][k]*b[k][j]; } return r; }
  static M rz(double t) { return {{{{cos(t), -sin(t), 0}}, {{sin(t), cos(t), 0}}, {{0, 0, 1}}}}; } static M ry(double t) { return {{{{cos(t), 0, sin(t)}}, {{0, 1, 0}}, {{-sin(t), 0, cos(t)}}}}; }
  static double dist(const levels::rotmatrix &a, const M &b) { double d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double x = std::fabs(a.entry[i][j] - b[i][j]); if (!(x <= d)) d = x; } return d; }
  string run(size_t i, Out &o) override {
    auto &x = c[i]; M e = mul(rz(x[0]), mul(ry(x[1]), rz(x[2]))); levels::rotmatrix R; R.Make_CPAC_Euler_Matrix(x[0], x[1], x[2]); if (dist(R, e) > 1e-14) return "the Euler matrix is wrong"; o.put(R.entry[0][1]);
    double a, b, g; R.Extract_CPAC_Euler_Angles(a, b, g); levels::rotmatrix S; S.Make_CPAC_Euler_Matrix(a, b, g); if (!(dist(S, e) <= (std::fabs(std::sin(x[1])) < 2e-6 ? 3e-6 : 1e-12))) return strf("extracted Euler angles %.17g %.17g %.17g give another matrix (difference %g)", a, b, g, dist(S, e));
    levels::vec3 ax; double an; R.toAxisAngle(ax, an); levels::rotmatrix A; A.Make_Axis_Rotation_Transform(ax, an); if (PI - an > 1e-5) if (!(std::fabs(std::sqrt(ax.x*ax.x + ax.y*ax.y + ax.z*ax.z) - 1) <= 1e-7) || !(dist(A, e) <= 1e-6)) return strf("axis (%g,%g,%g) and angle %.17g give another matrix (difference %g)", ax.x, ax.y, ax.z, an, dist(A, e));
    auto &y = c[(i*7 + 3) % c.size()]; levels::rotmatrix Q, P; Q.Make_CPAC_Euler_Matrix(y[0], y[1], y[2]); M f = mul(rz(y[0]), mul(ry(y[1]), rz(y[2]))); if (dist(R*Q, mul(e, f)) > 1e-14) return "the product is wrong"; levels::matmult(R, Q, P); if (dist(P, mul(e, f)) > 1e-14) return "matmult is wrong"; M et; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) et[k][l] = e[l][k]; levels::TransposeTimes(R, Q, P); if (dist(P, mul(et, f)) > 1e-14) return "TransposeTimes is wrong"; P = R; P.Transpose(); if (dist(P, et) > 1e-14) return "Transpose is wrong";
    levels::vec3 v(0.3, -1, 2), w = R.Transform(v), u; R.Transform(v, u); for (int k = 0; k < 3; ++k) { double z = e[k][0]*v.x + e[k][1]*v.y + e[k][2]*v.z, p = k == 0 ? w.x : k == 1 ? w.y : w.z, q = k == 0 ? u.x : k == 1 ? u.y : u.z; if (std::fabs(z - p) > 1e-14 || p != q) return "Transform is wrong"; }
    return ""; }
};
int main(int argc, char **argv) {
  setenv("OMP_NUM_THREADS", "1", 0);
  Registry reg;
  reg["wigsmall"] = [] { return new WigSmall; }; reg["wighist"] = [] { return new WigHist; }; reg["wigtwo"] = [] { return new WigTwo; }; reg["wiglarge"] = [] { return new WigLarge; }; reg["risbo"] = [] { return new Risbo; };
  reg["fftunit"] = [] { return new FftUnit; }; reg["fftlong"] = [] { return new FftLong; }; reg["ffthist"] = [] { return new FftHist; };
  reg["rotate"] = [] { return new Rotate; }; reg["almtools"] = [] { return new AlmTools; }; reg["toolhist"] = [] { return new ToolHist; }; reg["synth"] = [] { return new Synth; }; reg["powhist"] = [] { return new PowHist; }; reg["rotmat"] = [] { return new RotMat; };
  return main_(argc, argv, reg);
}
