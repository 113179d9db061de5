// Reference model: direct harmonic sums, independent of the library's algorithms.
#ifndef REF_HPP
#define REF_HPP
#include <cmath>
#include <complex>
#include <map>
#include <vector>
#include <algorithm>
namespace ref {
typedef std::complex<double> C;
typedef long double LD;
const double PI = 3.14159265358979323846;
// All reduced Wigner elements d^l_{m,k}(theta) for fixed (m,k), l = 0..lmax; zero below max(|m|,|k|).
inline std::vector<LD> wigner(int lmax, int m, int k, LD theta) {
  std::vector<LD> d(lmax + 1, 0.0L);
  int l0 = std::max(std::abs(m), std::abs(k));
  if (l0 > lmax) return d;
  // closed form at l0
  LD sgn = 1; int a = m, b = k;
  // bring to the form d^l_{l,b}
  if (std::abs(a) < std::abs(b)) { if ((a - b) & 1) sgn = -sgn; std::swap(a, b); } // d_{mk} = (-1)^{m-k} d_{km}
  if (a < 0) { if ((a - b) & 1) sgn = -sgn; a = -a; b = -b; }                     // d_{mk} = (-1)^{m-k} d_{-m,-k}
  LD c = cosl(theta / 2), s = sinl(theta / 2);
  LD lg = 0.5L * (lgammal(2.0L * l0 + 1) - lgammal((LD)(l0 + b) + 1) - lgammal((LD)(l0 - b) + 1));
  auto ipow = [](LD x, int n) { LD r = 1; for (int i = 0; i < n; ++i) r *= x; return r; };
  LD v;
  if (l0 < 200) v = expl(lg) * ipow(c, l0 + b) * ipow(-s, l0 - b);
  else { // logarithmic evaluation
    LD lc = c == 0 ? -1e30L : logl(fabsl(c)), ls = s == 0 ? -1e30L : logl(fabsl(s));
    LD e = lg + (l0 + b ? lc * (l0 + b) : 0) + (l0 - b ? ls * (l0 - b) : 0);
    v = e < -11000 ? 0 : expl(e);
    if (c < 0 && ((l0 + b) & 1)) v = -v; if (-s < 0 && ((l0 - b) & 1)) v = -v;
  }
  d[l0] = sgn * v;
  LD x = cosl(theta);
  for (int l = l0; l < lmax; ++l) {
    LD L = l, M = m, K = k;
    if (l == 0) { d[1] = x * d[0]; continue; } // m = k = 0
    LD num = (2*L + 1) * (L*(L + 1)*x - M*K) * d[l];
    if (l > l0) num -= (L + 1) * sqrtl((L*L - M*M) * (L*L - K*K)) * d[l-1];
    d[l+1] = num / (L * sqrtl(((L+1)*(L+1) - M*M) * ((L+1)*(L+1) - K*K)));
  }
  return d;
}
struct Alm { int lmax = 0, mmax = 0; std::vector<C> a;
  Alm(int l = 0, int m = 0) : lmax(l), mmax(m), a((size_t)(l+1)*(m+1)) {}
  C &at(int l, int m) { return a[(size_t)l*(mmax+1) + m]; }
  C get(int l, int m) const { if (l > lmax || std::abs(m) > mmax || std::abs(m) > l) return 0; if (m >= 0) return a[(size_t)l*(mmax+1) + m]; C v = std::conj(a[(size_t)l*(mmax+1) - m]); return (m & 1) ? -v : v; }
};
// The convolution of sky s and beam b (components T[,G,C]) up to lmax, mmax.
struct Conv {
  int lmax, mmax, ncomp; const Alm *s, *b;
  std::map<LD, std::vector<C>> cache; // theta -> F[m+lmax][k+mmax]
  Conv(int l, int m, int nc, const Alm *s_, const Alm *b_) : lmax(l), mmax(m), ncomp(nc), s(s_), b(b_) {}
  const std::vector<C> &F(LD th) {
    auto it = cache.find(th); if (it != cache.end()) return it->second;
    std::vector<C> f((size_t)(2*lmax+1)*(2*mmax+1));
    for (int m = -lmax; m <= lmax; ++m) for (int k = -mmax; k <= mmax; ++k) {
      auto d = wigner(lmax, m, k, th); C sum = 0;
      for (int l = std::max(std::abs(m), std::abs(k)); l <= lmax; ++l) { C t = 0; for (int c = 0; c < ncomp; ++c) t += s[c].get(l, m) * std::conj(b[c].get(l, k)); sum += t * (double)d[l]; }
      if (k & 1) sum = -sum; // the library's sign convention for the beam index
      f[(size_t)(m+lmax)*(2*mmax+1) + k + mmax] = sum;
    }
    return cache[th] = f;
  }
  double value(LD th, double phi, double psi) { // exact harmonic sum
    const auto &f = F(th); C sum = 0;
    for (int k = -mmax; k <= mmax; ++k) { C t = 0; for (int m = -lmax; m <= lmax; ++m) t += f[(size_t)(m+lmax)*(2*mmax+1) + k + mmax] * std::polar(1.0, m*phi); sum += t * std::polar(1.0, k*psi); }
    return sum.real();
  }
  double scale() { double r = 0; for (int c = 0; c < ncomp; ++c) { double A = 0, B = 0; for (auto &x : s[c].a) A += std::abs(x); for (auto &x : b[c].a) B = std::max(B, std::abs(x)); r += 2*A*B; } return r * 2; }
  // value at a grid node (theta, phi = pi/2 + k 2pi/nphi) split by beam index: G[k][mb]
  std::map<LD, std::vector<C>> ring;
  const std::vector<C> &G(LD th) {
    auto it = ring.find(th); if (it != ring.end()) return it->second;
    int nphi = 2*lmax + 1, nk = 2*mmax + 1; const auto &f = F(th); std::vector<C> g((size_t)nphi*nk); LD pi = acosl(-1.0L);
    for (int j = 0; j < nphi; ++j) for (int m = -lmax; m <= lmax; ++m) { C e = std::polar(1.0, (double)(m * (pi/2 + j * 2*pi / nphi))); for (int k = 0; k < nk; ++k) g[(size_t)j*nk + k] += e * f[(size_t)(m+lmax)*nk + k]; }
    return ring[th] = g;
  }
  // Values at the longitude nodes of a ring restricted to beam indices k0 <= |k| <= k1 and degrees l >= lmin.
  std::vector<C> Gpart(LD th, int k0, int k1, int lmin) {
    int nphi = 2*lmax + 1, nk = 2*mmax + 1; std::vector<C> g((size_t)nphi*nk); LD pi = acosl(-1.0L);
    for (int k = -mmax; k <= mmax; ++k) if (std::abs(k) >= k0 && std::abs(k) <= k1) for (int m = -lmax; m <= lmax; ++m) {
      auto d = wigner(lmax, m, k, th); C sum = 0;
      for (int l = std::max(lmin, std::max(std::abs(m), std::abs(k))); l <= lmax; ++l) { C t = 0; for (int c = 0; c < ncomp; ++c) t += s[c].get(l, m) * std::conj(b[c].get(l, k)); sum += t * (double)d[l]; }
      if (k & 1) sum = -sum;
      for (int j = 0; j < nphi; ++j) g[(size_t)j*nk + k + mmax] += sum * std::polar(1.0, (double)(m * (pi/2 + j * 2*pi / nphi)));
    }
    return g;
  }
  // Lagrange interpolation of the given order on the theta/phi grid; stencil starts order/2 nodes below the sample.
  // Southern samples (theta > pi/2) use the mirrored grid.
  struct Stencil { std::vector<LD> th, la, le; long k0; std::vector<C> ep; bool ambt, ambp; };
  Stencil stencil(int order, double theta, double phi, double psi, int dt = 0, int dp = 0) {
    Stencil t; int np = order + 1, off = order / 2, nphi = 2*lmax + 1, nk = 2*mmax + 1; LD pi = acosl(-1.0L);
    bool south = theta >= PI/2; LD tt = south ? pi - (LD)theta : (LD)theta;
    LD h = pi / (lmax + 1);
    LD u = (pi - tt) / h; long j0 = (long)floorl(u) - off + dt; t.ambt = fabsl(u - roundl(u)) < 1e-9L;   // nodes at pi - j h
    LD hp = 2*pi / nphi, w = ((LD)phi - pi/2) / hp, wf = w - floorl(w / nphi) * nphi; t.k0 = (long)floorl(wf) - off + dp; t.ambp = fabsl(wf - roundl(wf)) < 1e-9L * (1 + fabs(phi)); // nodes at pi/2 + k hp
    t.la.resize(np); t.le.resize(np); t.th.resize(np);
    for (int a = 0; a < np; ++a) { t.la[a] = t.le[a] = 1; for (int c = 0; c < np; ++c) if (c != a) { t.la[a] *= (u - (j0 + c)) / (LD)(a - c); t.le[a] *= (wf - (t.k0 + c)) / (LD)(a - c); } LD th = pi - (j0 + a) * h; t.th[a] = south ? pi - th : th; }
    t.ep.resize(nk); for (int k = 0; k < nk; ++k) t.ep[k] = std::polar(1.0, (k - mmax) * psi);
    return t;
  }
  LD along(const Stencil &t, const std::vector<C> &g) {
    int nphi = 2*lmax + 1, nk = 2*mmax + 1; LD r = 0;
    for (size_t e = 0; e < t.le.size(); ++e) { long j = ((t.k0 + (long)e) % nphi + nphi) % nphi; double v = 0; for (int k = 0; k < nk; ++k) v += (g[(size_t)j*nk + k] * t.ep[k]).real(); r += t.le[e] * v; }
    return r;
  }
  // At a node the choice of stencil is a matter of rounding; only order 0 is sensitive to it.
  bool matches(double x, int order, double theta, double phi, double psi, double tol, bool defect) {
    Stencil t = stencil(order, theta, phi, psi);
    for (int dt = -1; dt <= 1; ++dt) for (int dp = -1; dp <= 1; ++dp) {
      if ((dt && !t.ambt) || (dp && !t.ambp)) continue;
      if (defect ? pole_defect(x, order, theta, phi, psi, tol, dt, dp) : std::fabs(interp(order, theta, phi, psi, dt, dp) - x) <= tol) return true;
    }
    return false;
  }
  double interp(int order, double theta, double phi, double psi, int dt = 0, int dp = 0) {
    Stencil t = stencil(order, theta, phi, psi, dt, dp); LD r = 0;
    for (size_t a = 0; a < t.th.size(); ++a) r += t.la[a] * along(t, G(t.th[a]));
    return (double)r;
  }
  // Known defect of the library: at a pole ring (sin(theta) = 0) the terms with m = +-k, k >= 1 are dropped, except
  // those from some degree on that depends on rounding (k = 1: any degree; k >= 2: at most the last degree).
  // True if x is one of the values this produces.
  std::map<std::pair<LD,int>, std::vector<C>> polecache;
  bool pole_defect(double x, int order, double theta, double phi, double psi, double tol, int dt = 0, int dp = 0) {
    Stencil t = stencil(order, theta, phi, psi, dt, dp); LD base = 0; std::vector<std::vector<LD>> opt;
    auto part = [&](LD th, int k, int L) -> const std::vector<C> & { auto &g = polecache[{th, k*1000 + L}]; if (g.empty()) g = Gpart(th, k, k, L); return g; };
    for (size_t a = 0; a < t.th.size(); ++a) {
      if (fabsl(sinl(t.th[a])) > 1e-9L) { base += t.la[a] * along(t, G(t.th[a])); continue; }
      base += t.la[a] * along(t, part(t.th[a], 0, 0));
      for (int k = 1; k <= mmax; ++k) { std::vector<LD> o{0}; for (int L = k == 1 ? 1 : std::max(k, lmax); L <= lmax; ++L) o.push_back(t.la[a] * along(t, part(t.th[a], k, L))); opt.push_back(o); }
    }
    if (opt.empty()) return false;
    std::vector<LD> A{0}, B{0}; std::sort(opt.begin(), opt.end(), [](auto &p, auto &q) { return p.size() > q.size(); });
    for (auto &o : opt) { auto &V = A.size() <= B.size() ? A : B; std::vector<LD> nv; for (LD v : V) for (LD q : o) nv.push_back(v + q); std::sort(nv.begin(), nv.end()); nv.erase(std::unique(nv.begin(), nv.end(), [&](LD p, LD q) { return fabsl(p - q) < 1e-3 * tol; }), nv.end()); V.swap(nv); if (V.size() > 2000000) return false; }
    for (LD v : A) { LD want = x - base - v; auto it = std::lower_bound(B.begin(), B.end(), want - tol); if (it != B.end() && *it <= want + tol) return true; }
    return false;
  }
};
} // namespace ref
#endif
