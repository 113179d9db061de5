// Numeric, text, type, random-number and coupling-coefficient helpers (P23, P24).
#include "pure.hpp"
#include "ls_arr.h"
#include "ls_math_utils.h"
#include "ls_string_utils.h"
#include "ls_safe_cast.h"
#include "ls_rng.h"
#include "ls_xcomplex.h"
#include "ls_vec3.h"
extern "C" {
#include "wrec3a.h"
#include "svd_c.h"
}
#include <algorithm>
#include <functional>
#include <limits>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf; using namespace levels;
typedef __int128 I128;
static string s128(I128 v) { if (v == 0) return "0"; bool n = v < 0; string s; while (v) { int d = (int)(v % 10); s += char('0' + (d < 0 ? -d : d)); v /= 10; } if (n) s += "-"; std::reverse(s.begin(), s.end()); return s; }
static string quote(const string &s) { string r = "\""; for (char c : s) r += c == '\n' ? "\\n" : c == '\t' ? "\\t" : c == '\r' ? "\\r" : string(1, c); return r + "\""; }
#define FAILS(expr) ([&] { try { expr; return false; } catch (LEVELSError &) { return true; } }())
// all words over an alphabet, by number
static size_t nwords(size_t k, int n) { size_t t = 0, p = 1; for (int i = 0; i <= n; ++i) { t += p; p *= k; } return t; }
static vector<size_t> word(size_t i, size_t k) { vector<size_t> w; size_t p = 1, n = 0; while (i >= p) { i -= p; p *= k; ++n; } for (size_t q = 0; q < n; ++q) { w.push_back(i % k); i /= k; } return w; }
static string wstr(size_t i, const string &al) { string s; for (size_t q : word(i, al.size())) s += al[q]; return s; }
struct Fns : Pure { vector<std::pair<string, std::function<string(Out &)> > > f; size_t size() override { return f.size(); } size_t batch() override { return 1; } double timeout() override { return 300; } string describe(size_t i) override { return f[i].first; } string run(size_t i, Out &o) override { return f[i].second(o); } };

// ---- integers and reals
template<class I> static vector<I> bounds() { vector<I> r; I128 lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max(); auto add = [&](I128 x) { if (x >= lo && x <= hi) r.push_back((I)x); }; for (int d = -3; d <= 3; ++d) { add(lo + d); add(hi + d); for (int b = 0; b < 65; ++b) { add(((I128)1 << b) + d); add(-((I128)1 << b) + d); } } for (int x = -130; x <= 130; ++x) add(x); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
template<class I> static string t_isqrt(Out &o) { I128 hi = std::numeric_limits<I>::max(); auto one = [&](I128 a) -> string { if (a < 0 || a > hi) return ""; ++o.ops; I128 n = isqrt((I)a); if (n*n <= a && a < (n+1)*(n+1)) return ""; return "isqrt(" + s128(a) + ") = " + s128(n); };
  for (int a = 0; a < (thorough() ? 1 << 23 : 1 << 19); ++a) { auto e = one(a); if (e.size()) return e; } for (int b = 4; b < 33; ++b) for (int d = -600; d <= 600; ++d) { I128 r = ((I128)1 << b) + d; if (r < 0 || r >= ((I128)1 << 32)) continue; for (int x = -2; x <= 2; ++x) { auto e = one(r*r + x); if (e.size()) return e; } } I128 s = 3037000499ll; for (I128 r : {s - 1, s, s + 1, (I128)65535, (I128)46340, (I128)33554432, (I128)33554431, (I128)94906265, (I128)4294967295ll}) for (int x = -3; x <= 3; ++x) { auto e = one(r*r + x); if (e.size()) return e; } for (int x = 0; x < 70000; ++x) { auto e = one(hi - x); if (e.size()) return e; } return ""; }
template<class I> static string t_ilog2(Out &o) { auto one = [&](I a) -> string { if (a <= 0) return ""; ++o.ops; int n = ilog2(a); if (n >= 0 && n < 64 && ((I128)1 << n) <= (I128)a && (I128)a < ((I128)1 << (n+1))) return ""; return strf("ilog2(%lld) = %d", (long long)a, n); }; for (int a = 1; a < 70000; ++a) if ((I128)a <= std::numeric_limits<I>::max()) { auto e = one(a); if (e.size()) return e; } for (I a : bounds<I>()) { auto e = one(a); if (e.size()) return e; } return ""; }
template<class I> static string t_imod(Out &o) { auto one = [&](I a, I b) -> string { if (b <= 0) return ""; ++o.ops; I128 r = imodulo(a, b), w = (((I128)a % b) + b) % b; return r == w ? "" : "imodulo(" + s128(a) + ", " + s128(b) + ") = " + s128(r); }; bool sg = std::numeric_limits<I>::is_signed; for (int a = sg ? -120 : 0; a <= 120; ++a) for (int b = 1; b <= 120; ++b) { auto e = one(a, b); if (e.size()) return e; } auto v = bounds<I>(); for (I a : v) for (I b : v) { auto e = one(a, b); if (e.size()) return e; } return ""; }
template<class A, class B> static string t_cast(Out &o) { for (B b : bounds<B>()) { ++o.ops; bool fits = (I128)b >= (I128)std::numeric_limits<A>::min() && (I128)b <= (I128)std::numeric_limits<A>::max(); A r = 0; bool ok = true; try { r = safe_cast<A>(b); } catch (LEVELSError &) { ok = false; } if (ok != fits) return "safe_cast of " + s128(b) + (ok ? " is accepted" : " is refused"); if (ok && (I128)r != (I128)b) return "safe_cast changes " + s128(b); } return ""; }
template<class A> static void allcasts(Fns &f, const char *n) { 
#define C_(B) f.f.push_back({string("safe_cast<") + n + ">(" #B ")", t_cast<A, B>});
  C_(signed char) C_(unsigned char) C_(short) C_(unsigned short) C_(int) C_(unsigned) C_(long) C_(unsigned long) C_(long long) C_(unsigned long long)
}
static string t_fmod(Out &o) { vector<double> v; for (int k = -400; k <= 400; ++k) v.push_back(k/8.); for (int e = -1074; e < 1024; e += 3) for (double m : {1., 1.5, 1.9999}) { v.push_back(std::ldexp(m, e)); v.push_back(-std::ldexp(m, e)); } for (double x : {0.1, 0.7, M_PI, 2*M_PI, 4*M_PI, 1e15 + 0.3, -0.0}) { v.push_back(x); v.push_back(-x); v.push_back(std::nextafter(x, 9)); v.push_back(-std::nextafter(x, 9)); v.push_back(std::nextafter(x, -9)); v.push_back(-std::nextafter(x, -9)); }
  for (double d : {1., 0.125, 2., 3., 7., 2*M_PI, M_PI, 0.1, 1e-3, 1e10, 360., 24., 1e-300, 1e300}) for (double a : v) { ++o.ops; double r = fmodulo(a, d); if (!(r >= 0 && r < d)) return strf("fmodulo(%.17g, %.17g) = %.17g is not in [0, %g)", a, d, r, d); double w = std::fmod(a, d); long double t = w < 0 ? (long double)w + d : w, df = std::fabs((long double)r - t); if (df > d/2) df = std::fabs(df - d); if (df > d*1.2e-16L + 1e-320L) return strf("fmodulo(%.17g, %.17g) = %.17g", a, d, r); } return ""; }
template<class I, class F> static string t_floor(Out &o) { vector<double> v; for (int k = -4000; k <= 4000; ++k) { v.push_back(k/8.); v.push_back(k/10.); } for (int k = 1; k < 25; ++k) for (int d = -3; d <= 3; ++d) for (int s = -1; s < 2; s += 2) { v.push_back(s*(std::ldexp(1., k) + d/4.)); } bool sg = std::numeric_limits<I>::is_signed; for (double x : v) { F a = (F)x; if (!sg && a < 0) continue; if (std::fabs((double)a) + 1 > (double)std::numeric_limits<I>::max()) continue; ++o.ops; I128 r = ifloor<I>(a); if (!((double)r <= (double)a && (double)a < (double)r + 1)) return strf("ifloor(%.17g) = ", (double)a) + s128(r); if (!sg && a < 0.5) continue; if (std::fabs((double)a) < 4194304) { r = nearest<I>(a); if (!((double)r - 0.5 <= (double)a && (double)a <= (double)r + 0.5)) return strf("nearest(%.17g) = ", (double)a) + s128(r); } } return ""; }
template<class T> static string t_sign(Out &o) { for (int k = -300; k <= 300; ++k) { T v = T(k/8.); ++o.ops; if (sign(v) != (v < T(0) ? T(-1) : T(1))) return strf("sign(%g) = %g", (double)v, (double)sign(v)); for (int m = -7; m <= 7; ++m) { T r = xpow(m, v), w = (m % 2) ? T(-v) : v; if (!(r == w)) return strf("xpow(%d, %g) = %g", m, (double)v, (double)r); } } return ""; }
static string t_atan(Out &o) { for (int y = -6; y <= 6; ++y) for (int x = -6; x <= 6; ++x) for (double sc : {1., 1e-300, 1e300}) { ++o.ops; double r = safe_atan2(y*sc, x*sc), w = x || y ? std::atan2(y*sc, x*sc) : 0.; if (r != w) return strf("safe_atan2(%d, %d) = %g", y, x, r); } for (double z : {0., -0.}) for (double w : {0., -0.}) if (safe_atan2(z, w) != 0.) return "safe_atan2 of zeros is not 0"; return ""; }
template<class F> static string t_approx(Out &o) { for (int a = -40; a <= 40; ++a) for (int b = -40; b <= 40; ++b) for (int e = 0; e <= 12; ++e) { ++o.ops; F A = a/F(4), B = b/F(4), E = e/F(8); if (approx(A, B, E) != (std::abs(a - b)*8 <= e*std::abs(b))) return strf("approx(%g, %g, %g)", (double)A, (double)B, (double)E); if (abs_approx(A, B, E) != (std::abs(a - b)*2 <= e)) return strf("abs_approx(%g, %g, %g)", (double)A, (double)B, (double)E); } return ""; }
static string t_multi(Out &o) { for (int i = 0; i < 729; ++i) { int v[6], r = i; for (int k = 0; k < 6; ++k) { v[k] = r % 3; r /= 3; } ++o.ops; auto all = [&](int n) { for (int k = 1; k < n; ++k) if (v[k] != v[0]) return false; return true; }; if (multiequal(v[0], v[1], v[2]) != all(3) || multiequal(v[0], v[1], v[2], v[3]) != all(4) || multiequal(v[0], v[1], v[2], v[3], v[4]) != all(5) || multiequal(v[0], v[1], v[2], v[3], v[4], v[5]) != all(6)) return strf("multiequal of %d %d %d %d %d %d", v[0], v[1], v[2], v[3], v[4], v[5]); } return ""; }
static string t_interp(Out &o) { static const double AL[] = {-3, -1.5, 0, 0.25, 1, 2, 7, 8.5, 100, 101.5}; const int K = thorough() ? 10 : 9; for (int mask = 0; mask < (1 << K); ++mask) { vector<double> d; for (int k = 0; k < K; ++k) if (mask >> k & 1) d.push_back(AL[k]); size_t n = d.size(); tsize idx = 99; double fr = 0; if (n < 2) { if (mask % 3 == 0 && !FAILS(levels::interpol_helper(d.begin(), d.end(), 1., idx, fr))) return "interpolation in fewer than two values is accepted"; continue; }
    vector<double> q; for (double a : d) { q.push_back(a); q.push_back(std::nextafter(a, 1e9)); q.push_back(std::nextafter(a, -1e9)); q.push_back(a + 0.125); q.push_back(a - 0.125); } q.push_back(-50); q.push_back(500);
    arr<double> ar(n); for (size_t i = 0; i < n; ++i) ar[i] = d[i]; vector<double> rv(d.rbegin(), d.rend());
    auto judge = [&](const vector<double> &a, double v, tsize idx, double fr, bool down, const char *w) -> string { string c = strf("%s for %.17g in (", w, v); for (double x : a) c += strf(" %g", x); c += strf(" ): index %zu fraction %.17g", (size_t)idx, fr); if (idx > n - 2) return c; double r = a[idx] + fr*(a[idx+1] - a[idx]); if (std::fabs(r - v) > 1e-13*(std::fabs(v) + 100)) return c; bool below = down ? v > a[0] : v < a[0], above = down ? v < a[n-1] : v > a[n-1]; double tiny = 1e-300; if (below && !(fr < 0 || (fr == 0 && std::fabs(v - a[0]) < tiny))) return c; if (above && !(fr > 1 || (fr == 1 && std::fabs(v - a[n-1]) < 1e-15*(1 + std::fabs(v))))) return c; if (!below && !above && !(fr >= 0 && fr <= 1)) return c; return ""; };
    for (double v : q) { ++o.ops; string e; levels::interpol_helper(d.begin(), d.end(), v, idx, fr); e = judge(d, v, idx, fr, false, "interpol_helper"); if (e.size()) return e; ar.interpol_helper(v, idx, fr); e = judge(d, v, idx, fr, false, "arr::interpol_helper"); if (e.size()) return e; levels::interpol_helper(rv.begin(), rv.end(), v, std::greater<double>(), idx, fr); e = judge(rv, v, idx, fr, true, "descending interpol_helper"); if (e.size()) return e; for (size_t i = 0; i < n; ++i) ar[i] = rv[i]; ar.interpol_helper(v, std::greater<double>(), idx, fr); e = judge(rv, v, idx, fr, true, "descending arr::interpol_helper"); if (e.size()) return e; for (size_t i = 0; i < n; ++i) ar[i] = d[i]; } }
  return ""; }
// ---- types
static string t_types(Out &o) { static const struct { PDT t; const char *n; int s; } T[] = {{LEVELS_INT8, "INT8", 1}, {LEVELS_UINT8, "UINT8", 1}, {LEVELS_INT16, "INT16", 2}, {LEVELS_UINT16, "UINT16", 2}, {LEVELS_INT32, "INT32", 4}, {LEVELS_UINT32, "UINT32", 4}, {LEVELS_INT64, "INT64", 8}, {LEVELS_UINT64, "UINT64", 8}, {LEVELS_FLOAT32, "FLOAT32", 4}, {LEVELS_FLOAT64, "FLOAT64", 8}, {LEVELS_BOOL, "BOOL", 1}, {LEVELS_STRING, "STRING", 1}};
  for (auto &x : T) { ++o.ops; if (string2type(x.n) != x.t || string(type2string(x.t)) != x.n || type2size(x.t) != x.s) return string("type ") + x.n; } for (const char *n : {"", "int8", "FLOAT", "FLOAT640", "INVALID"}) if (!FAILS(string2type(n))) return string("type name ") + n + " is accepted"; if (!FAILS(type2size(LEVELS_INVALID)) || !FAILS(type2string(LEVELS_INVALID))) return "the invalid type is accepted";
#define T_(A, t) if (planckType<A>() != t || type2size(t) != (int)sizeof(A)) return "planckType<" #A ">";
  T_(int8, LEVELS_INT8) T_(uint8, LEVELS_UINT8) T_(int16, LEVELS_INT16) T_(uint16, LEVELS_UINT16) T_(int32, LEVELS_INT32) T_(uint32, LEVELS_UINT32) T_(int64, LEVELS_INT64) T_(uint64, LEVELS_UINT64) T_(float32, LEVELS_FLOAT32) T_(float64, LEVELS_FLOAT64) T_(bool, LEVELS_BOOL) if (planckType<string>() != LEVELS_STRING) return "planckType<string>";
#define N_(A, t) if (nativeType<A>() != t || ndt2size(t) != (int)sizeof(A)) return "nativeType<" #A ">";
  N_(char, NAT_CHAR) N_(signed char, NAT_SCHAR) N_(unsigned char, NAT_UCHAR) N_(short, NAT_SHORT) N_(unsigned short, NAT_USHORT) N_(int, NAT_INT) N_(unsigned int, NAT_UINT) N_(long, NAT_LONG) N_(unsigned long, NAT_ULONG) N_(long long, NAT_LONGLONG) N_(unsigned long long, NAT_ULONGLONG) N_(float, NAT_FLOAT) N_(double, NAT_DOUBLE) N_(long double, NAT_LONGDOUBLE) N_(bool, NAT_BOOL) if (nativeType<string>() != NAT_STRING) return "nativeType<string>"; if (!FAILS(ndt2size(NAT_STRING))) return "ndt2size of a string";
#define M_(A) if (string(type2typename<A>()) != #A) return "type2typename<" #A ">";
  M_(signed char) M_(unsigned char) M_(short) M_(unsigned short) M_(int) M_(unsigned int) M_(long) M_(unsigned long) M_(long long) M_(unsigned long long) M_(float) M_(double) M_(long double) M_(bool) if (string(type2typename<string>()) != "std::string") return "type2typename<string>";
  if (sizeof(int8) != 1 || sizeof(uint8) != 1 || sizeof(int16) != 2 || sizeof(uint16) != 2 || sizeof(int32) != 4 || sizeof(uint32) != 4 || sizeof(int64) != 8 || sizeof(uint64) != 8) return "integer sizes"; return ""; }
// ---- random numbers
struct Ref { uint32_t x, y, z, w; double g; bool have; static uint32_t tw(uint32_t v) { for (int i = 0; i < 9; ++i) { v ^= v << 13; v ^= v >> 17; v ^= v << 5; } return v; }
  void seed(uint32_t a, uint32_t b, uint32_t c, uint32_t d) { x = tw(a ? a : 123456789); y = tw(b ? b : 362436069); z = tw(c ? c : 521288629); w = tw(d ? d : 88675123); have = false; for (int i = 0; i < 16; ++i) next(); }
  uint32_t next() { uint32_t t = x ^ (x << 11); x = y; y = z; z = w; return w = (w ^ (w >> 19)) ^ (t ^ (t >> 8)); } double uni() { return next()/4294967296.; }
  double gauss() { if (have) { have = false; return g; } double a, b, r; do { a = 2*uni() - 1; b = 2*uni() - 1; r = a*a + b*b; } while (r >= 1 || r == 0); double f = std::sqrt(-2*std::log(r)/r); g = a*f; have = true; return b*f; } };
static string t_rng(Out &o, int part) { static const uint32_t S[] = {0, 1, 123456789, 0xFFFFFFFF, 0x80000000, 42}; int D = thorough() ? 7 : 6;
  for (int s = part; s < 1296; s += 8) { uint32_t q[4]; int r = s; for (int k = 0; k < 4; ++k) { q[k] = S[r % 6]; r /= 6; } planck_rng g(q[0], q[1], q[2], q[3]); Ref f; f.seed(q[0], q[1], q[2], q[3]); for (int i = 0; i < 40; ++i) { ++o.ops; unsigned a = g.int_rand_uni(), b = f.next(); if (a != b) return strf("seeds %u %u %u %u: integer %d is %u, expected %u", q[0], q[1], q[2], q[3], i, a, b); } }
  if (part == 0) { planck_rng g; Ref f; f.seed(0, 0, 0, 0); for (int i = 0; i < 1000000; ++i) { double u = g.rand_uni(); if (u != f.uni()) return "uniform numbers"; if (!(u >= 0 && u < 1)) return "a uniform number is outside [0,1)"; } }
  size_t N = 1; for (int k = 0; k < D; ++k) N *= 6; // every history of draws and re-seedings
  for (size_t h = part; h < N; h += 8) { planck_rng g(7, 8, 9, 10); Ref f; f.seed(7, 8, 9, 10); size_t r = h; for (int k = 0; k < D; ++k) { int op = r % 6; r /= 6; ++o.ops; double a = 0, b = 0; if (op == 0) { a = g.int_rand_uni(); b = f.next(); } else if (op == 1) { a = g.rand_uni(); b = f.uni(); } else if (op == 2) { a = g.rand_gauss(); b = f.gauss(); } else if (op == 3) { a = g.rand_exp(); double u = f.uni(); b = -std::log(u == 0 ? 1. : u); if (!(a >= 0)) return "a negative exponential number"; } else if (op == 4) { g.seed(3, 0, 5, k + 1); f.seed(3, 0, 5, k + 1); } else { planck_rng c(g); unsigned x = c.int_rand_uni(); Ref d = f; if (x != d.next()) return "a copy continues differently"; } if (!(std::fabs(a - b) <= 1e-12*(1 + std::fabs(b)))) return strf("history %zu: draw %d is %.17g, expected %.17g", h, k, a, b); } }
  o.put(part); return ""; }
// ---- complex numbers and vectors
template<class T> static string t_complex(Out &o) { typedef std::complex<T> Z; typedef xcomplex<T> X; auto eq = [](const X &a, const Z &b) { T e = std::numeric_limits<T>::epsilon()*16*(1 + std::abs(b)); return std::fabs(a.re - b.real()) <= e && std::fabs(a.im - b.imag()) <= e; }; vector<Z> v; for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) v.push_back(Z(a*T(0.5), b*T(1.25)));
  for (Z a : v) { X x(a); X y; y = a; X y2; y2.Set(a.real(), a.imag()); if (!eq(x, a) || !eq(y, a) || !eq(y2, a) || !eq(X(a.real(), a.imag()), a) || Z(x) != a || x.real() != a.real() || x.imag() != a.imag()) return "construction or assignment"; if (!eq(-x, -a) || !eq(x.conj(), std::conj(a)) || !eq(levels::conj(x), std::conj(a)) || !eq(x.times_i(), a*Z(0, 1)) || std::fabs(x.norm() - std::norm(a)) > 1e-4*0 + std::norm(a)*1e-6 || std::fabs(levels::norm(x) - std::norm(a)) > std::norm(a)*1e-6 || std::fabs(levels::abs(x) - std::abs(a)) > 1e-6*(1 + std::abs(a)) || !eq(levels::exp(x), std::exp(a))) return strf("a unary operation on (%g,%g)", (double)a.real(), (double)a.imag()); y = x; y.Negate(); if (!eq(y, -a)) return "Negate"; y = x; y.Conjugate(); if (!eq(y, std::conj(a))) return "Conjugate";
    y = x; y = a.real(); if (!eq(y, Z(a.real(), 0)) || !eq(X(a.real()), Z(a.real(), 0))) return "a real number"; xcomplex<float> fl(x); if (std::fabs(fl.re - (float)a.real()) > 0 || std::fabs(fl.im - (float)a.imag()) > 0) return "conversion of the precision"; for (int k = -12; k <= 12; ++k) { ++o.ops; T t = k*T(0.37); y = x; y.Rotate(t); if (!eq(y, a*std::polar(T(1), t))) return "Rotate"; T r = k*T(0.5); y = x; y *= r; if (!eq(y, a*r) || !eq(x*r, a*r) || !eq(r*x, r*a)) return "multiplication by a real number"; if (k) { y = x; y /= r; if (!eq(y, a/r) || !eq(x/r, a/r)) return "division by a real number"; if (a != Z(0)) if (!eq(r/x, r/a)) return "division of a real number"; } }
    for (Z b : v) { ++o.ops; X z(b); y = x; y += z; if (!eq(y, a + b) || !eq(x + z, a + b)) return "sum"; y = x; y -= z; if (!eq(y, a - b) || !eq(x - z, a - b)) return "difference"; y = x; y *= z; if (!eq(y, a*b) || !eq(x*z, a*b)) return "product"; if (b != Z(0)) { y = x; y /= z; if (!eq(y, a/b) || !eq(x/z, a/b)) return "quotient"; } } y = x; y *= y; if (!eq(y, a*a)) return "product with itself"; y = x; y += y; if (!eq(y, a + a)) return "sum with itself"; if (a != Z(0)) { y = x; y /= y; if (!eq(y, Z(1))) return "quotient by itself"; } }
  return ""; }
template<class T> static string t_vec(Out &o) { vector<vec3_t<T> > v; for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) for (int c = -2; c <= 2; ++c) v.push_back(vec3_t<T>(a, T(b*1.5), T(c*0.5))); auto is = [](const vec3_t<T> &p, T x, T y, T z) { T e = std::numeric_limits<T>::epsilon()*8; return std::fabs(p.x - x) <= e*(1 + std::fabs(x)) && std::fabs(p.y - y) <= e*(1 + std::fabs(y)) && std::fabs(p.z - z) <= e*(1 + std::fabs(z)); };
  for (auto &a : v) { T n2 = a.x*a.x + a.y*a.y + a.z*a.z; vec3_t<T> s; s.Set(a.x, a.y, a.z); if (!is(s, a.x, a.y, a.z) || !is(-a, -a.x, -a.y, -a.z)) return "Set or negation"; s.Flip(); if (!is(s, -a.x, -a.y, -a.z)) return "Flip"; if (a.SquaredLength() != n2 || std::fabs(a.Length() - std::sqrt(n2)) > 1e-6*n2) return "length"; if (n2 > 0) { s = a; s.Normalize(); T l = std::sqrt(n2); if (!is(s, a.x/l, a.y/l, a.z/l) || !is(a.Norm(), a.x/l, a.y/l, a.z/l)) return "Normalize"; } vec3_t<double> w(a); if (w.x != a.x || w.y != a.y || w.z != a.z) return "conversion";
    for (int k = -4; k <= 4; ++k) { T f = k*T(0.75); s = a; s *= f; if (!is(a*f, a.x*f, a.y*f, a.z*f) || !is(s, a.x*f, a.y*f, a.z*f)) return "scaling"; if (k && !is(a/f, a.x/f, a.y/f, a.z/f)) return "division"; }
    for (auto &b : v) { ++o.ops; s = a; s += b; if (!is(s, a.x+b.x, a.y+b.y, a.z+b.z) || !is(a + b, a.x+b.x, a.y+b.y, a.z+b.z)) return "sum"; s = a; s -= b; if (!is(s, a.x-b.x, a.y-b.y, a.z-b.z) || !is(a - b, a.x-b.x, a.y-b.y, a.z-b.z)) return "difference"; if (dotprod(a, b) != a.x*b.x + a.y*b.y + a.z*b.z) return "dotprod"; if (!is(crossprod(a, b), a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x)) return "crossprod"; } }
  for (int k = -20; k <= 20; ++k) for (int p = -30; p <= 30; ++p) { T z = k/T(20), f = p*T(0.33); vec3_t<T> s; s.set_z_phi(z, f); double st = std::sqrt(1 - (double)z*z), e = std::numeric_limits<T>::epsilon()*40; if (s.z != z || std::fabs(s.x - st*std::cos((double)f)) > e || std::fabs(s.y - st*std::sin((double)f)) > e) return "set_z_phi"; }
  return ""; }
struct Num : Fns { void prepare() override {
#define EACH(F) {"int8: " #F, F<signed char>}, {"uint8: " #F, F<unsigned char>}, {"int16: " #F, F<short>}, {"uint16: " #F, F<unsigned short>}, {"int: " #F, F<int>}, {"unsigned: " #F, F<unsigned>}, {"long: " #F, F<long>}, {"unsigned long: " #F, F<unsigned long>}, {"long long: " #F, F<long long>}, {"unsigned long long: " #F, F<unsigned long long>}
    f = { {"int: isqrt", t_isqrt<int>}, {"unsigned: isqrt", t_isqrt<unsigned>}, {"long: isqrt", t_isqrt<long>}, {"unsigned long: isqrt", t_isqrt<unsigned long>}, {"short: isqrt", t_isqrt<short>}, {"long long: isqrt", t_isqrt<long long>}, {"unsigned long long: isqrt", t_isqrt<unsigned long long>}, EACH(t_ilog2), {"int: imodulo", t_imod<int>}, {"unsigned: imodulo", t_imod<unsigned>}, {"long: imodulo", t_imod<long>}, {"unsigned long: imodulo", t_imod<unsigned long>}, {"short: imodulo", t_imod<short>},
      {"fmodulo", t_fmod}, {"floor and nearest int of double", t_floor<int, double>}, {"floor and nearest long of double", t_floor<long, double>}, {"floor and nearest short of double", t_floor<short, double>}, {"floor and nearest int of float", t_floor<int, float>}, {"floor and nearest unsigned of double", t_floor<unsigned, double>}, {"sign and xpow of double", t_sign<double>}, {"sign and xpow of float", t_sign<float>}, {"sign and xpow of int", t_sign<int>}, {"safe_atan2", t_atan}, {"approx of double", t_approx<double>}, {"approx of float", t_approx<float>}, {"multiequal", t_multi}, {"interpol_helper", t_interp}, {"type tables", t_types}, {"complex<double>", t_complex<double>}, {"complex<float>", t_complex<float>}, {"vec3<double>", t_vec<double>}, {"vec3<float>", t_vec<float>} };
    for (int p = 0; p < 8; ++p) f.push_back({strf("random numbers, part %d of 8", p + 1), [p](Out &o) { return t_rng(o, p); }});
    allcasts<signed char>(*this, "signed char"); allcasts<unsigned char>(*this, "unsigned char"); allcasts<short>(*this, "short"); allcasts<unsigned short>(*this, "unsigned short"); allcasts<int>(*this, "int"); allcasts<unsigned>(*this, "unsigned"); allcasts<long>(*this, "long"); allcasts<unsigned long>(*this, "unsigned long"); } };
// ---- text
static string otrim(const string &s) { size_t a = 0, b = s.size(); while (a < b && (s[a] == ' ' || s[a] == '\t')) ++a; while (b > a && (s[b-1] == ' ' || s[b-1] == '\t')) --b; return s.substr(a, b - a); }
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static string t_trim(Out &o) { string al = " \tab\n"; int n = thorough() ? 8 : 7; for (size_t i = 0; i < nwords(5, n); ++i) { ++o.ops; string s = wstr(i, al), r = trim(s), w = otrim(s); if (r != w) return "trim(" + quote(s) + ") = " + quote(r); if (dataToString(s) != w || stringToData<string>(s) != w) return "conversion of " + quote(s); } return ""; }
static string t_case(Out &o) { string al = "aAzZ1_@["; auto low = [](string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }; vector<string> w; for (size_t i = 0; i < nwords(8, 3); ++i) w.push_back(wstr(i, al)); for (auto &a : w) { if (levels::tolower(a) != low(a)) return "tolower(" + quote(a) + ")"; for (auto &b : w) { ++o.ops; if (equal_nocase(a, b) != (low(a) == low(b))) return "equal_nocase(" + quote(a) + ", " + quote(b) + ")"; } } for (int c = 32; c < 127; ++c) for (int d = 32; d < 127; ++d) { string a(1, c), b(1, d); if (equal_nocase(a, b) != (low(a) == low(b))) return "equal_nocase(" + quote(a) + ", " + quote(b) + ")"; } return ""; }
template<class I> static string t_intio(Out &o) { auto one = [&](I128 v) -> string { ++o.ops; string w = s128(v), r = dataToString((I)v); if (r != w) return "dataToString(" + w + ") = " + quote(r); for (const char *pre : {"", " ", "\t "}) for (const char *post : {"", " ", "\n"}) { I x = stringToData<I>(pre + w + post); if ((I128)x != v) return "stringToData(" + quote(pre + w + post) + ") = " + s128(x); } return ""; };
  for (I v : bounds<I>()) { string e = one(v); if (e.size()) return e; } for (int v = -33000; v <= 66000; v += (sizeof(I) == 2 ? 1 : 7)) if (v >= (I128)std::numeric_limits<I>::min() && v <= (I128)std::numeric_limits<I>::max()) { string e = one(v); if (e.size()) return e; }
  for (int d = 1; d <= 40; d += 13) { I128 hi = (I128)std::numeric_limits<I>::max() + d; if (!FAILS(stringToData<I>(s128(hi)))) return "stringToData accepts " + s128(hi); if (std::numeric_limits<I>::is_signed) { I128 lo = (I128)std::numeric_limits<I>::min() - d; if (!FAILS(stringToData<I>(s128(lo)))) return "stringToData accepts " + s128(lo); } } return ""; }
// the number a text stands for, or none
static bool oint(const string &s, I128 &v) { size_t i = 0; while (i < s.size() && ws(s[i])) ++i; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; if (i >= s.size() || !isdigit(s[i])) return false; v = 0; while (i < s.size() && isdigit(s[i])) v = v*10 + (s[i++] - '0'); if (neg) v = -v; while (i < s.size() && ws(s[i])) ++i; return i == s.size(); }
static bool oreal(const string &s, double &v) { size_t i = 0; while (i < s.size() && ws(s[i])) ++i; size_t b = i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i; size_t dg = 0; while (i < s.size() && isdigit(s[i])) ++i, ++dg; if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit(s[i])) ++i, ++dg; } if (!dg) return false; if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i; if (i >= s.size() || !isdigit(s[i])) return false; while (i < s.size() && isdigit(s[i])) ++i; } v = strtod(s.c_str() + b, 0); if (std::isinf(v)) return false; while (i < s.size() && ws(s[i])) ++i; return i == s.size(); }
static string t_parseint(Out &o) { string al = "12 -+.x0"; for (size_t i = 0; i < nwords(8, thorough() ? 6 : 5); ++i) { string s = wstr(i, al); if (s.size() > 4 && i % 5) continue; ++o.ops; I128 w; bool ok = oint(s, w); if (!ok && i % 3) { if (s.size() > 3) continue; } int r = 0; bool got = true; try { stringToData(s, r); } catch (LEVELSError &) { got = false; } if (got != ok) return "stringToData<int>(" + quote(s) + (got ? ") is accepted" : ") fails"); if (ok && r != w) return "stringToData<int>(" + quote(s) + ") = " + s128(r); } return ""; }
static string t_parsereal(Out &o) { string al = "1 -.e5x"; for (size_t i = 0; i < nwords(7, 5); ++i) { string s = wstr(i, al); double w; bool ok = oreal(s, w); if (!ok && s.size() > 3 && i % 7) continue; ++o.ops; double r = 0; bool got = true; try { stringToData(s, r); } catch (LEVELSError &) { got = false; } if (got != ok) return "stringToData<double>(" + quote(s) + (got ? ") is accepted" : ") fails"); if (ok && r != w) return "stringToData<double>(" + quote(s) + strf(") = %.17g", r); } return ""; }
static string t_bool(Out &o) { for (const char *s : {"F", "f", "n", "N", "false", ".false.", "FALSE", ".FALSE."}) if (stringToData<bool>(s)) return string(s) + " is true"; for (const char *s : {"T", "t", "y", "Y", "true", ".true.", "TRUE", ".TRUE."}) if (!stringToData<bool>(s)) return string(s) + " is false"; for (const char *s : {"", "x", "tr", "truex", "0", "1", " ", "fals"}) { ++o.ops; bool b; if (!FAILS(stringToData(s, b))) return string(s) + " is a truth value"; } if (!stringToData<bool>(dataToString(true)) || stringToData<bool>(dataToString(false))) return "truth values do not survive"; return ""; }
template<class F, class U> static string t_realio(Out &o, int man, int exps, int part) { vector<U> M; for (int b = 0; b < man; ++b) { M.push_back((U)1 << b); M.push_back(((U)1 << b) - 1); M.push_back((((U)1 << man) - 1) ^ ((U)1 << b)); } U x = 0x9E3779B9; for (int k = 0; k < (thorough() ? 400 : 60); ++k) { x = x*6364136223846793005ull + 1442695040888963407ull; M.push_back((x >> 3) & (((U)1 << man) - 1)); }
  for (int e = part; e < exps; e += 8) for (U m : M) for (int sg = 0; sg < 2; ++sg) { U u = ((U)e << man) | (m & (((U)1 << man) - 1)); if (sg) u |= (U)1 << (sizeof(U)*8 - 1); F v; memcpy(&v, &u, sizeof v); ++o.ops; string t = dataToString(v); F r; try { r = stringToData<F>(t); } catch (LEVELSError &) { return strf("%.20g is written as %s, which cannot be read", (double)v, t.c_str()); } if (memcmp(&r, &v, sizeof v)) return strf("%.20g is written as %s, which reads as %.20g", (double)v, t.c_str(), (double)r); } o.put(part); return ""; }
static string t_ldio(Out &o) { for (int e = -300; e <= 300; e += 7) for (int k = 1; k < 60; ++k) { long double v = std::ldexp(1.L + 1.L/k + std::ldexp(1.L, -63 + k % 40), e); if (k & 1) v = -v; ++o.ops; string t = dataToString(v); long double r = stringToData<long double>(t); if (r != v) return "a long double is written as " + t; } return ""; }
static string t_padded(Out &o) { auto one = [&](int64 v, size_t w) -> string { ++o.ops; string s = s128(v < 0 ? -(I128)v : (I128)v); bool ok = s.size() + (v < 0) <= w; string e = ok ? (v < 0 ? "-" : "") + string(w - s.size() - (v < 0), '0') + s : ""; string r; bool got = true; try { r = intToString(v, w); } catch (LEVELSError &) { got = false; } if (got != ok) return "intToString(" + s128(v) + strf(", %zu)", w) + (got ? " = " + r + " is too short" : " fails"); if (got && r != e) return "intToString(" + s128(v) + strf(", %zu) = ", w) + r; return ""; };
  for (int v = -1010; v <= 1010; ++v) for (size_t w = std::to_string(v).size() - (v % 50 == 0 ? 1 : 0); w < 8; ++w) { string e = one(v, w); if (e.size()) return e; } for (int64 v : bounds<int64>()) for (size_t w : {s128(v).size() - 1, s128(v).size(), s128(v).size() + 1, (size_t)25}) { if (!w) continue; string e = one(v, w); if (e.size()) return e; } return ""; }
template<class T> static string t_split(Out &o, const string &al, std::function<bool(const string &, T &)> conv) { for (size_t i = 0; i < nwords(al.size(), thorough() ? 7 : 6); ++i) { string s = wstr(i, al); vector<T> want; bool ok = true; string cur; for (size_t q = 0; q <= s.size(); ++q) if (q == s.size() || ws(s[q])) { if (cur.size()) { T v; if (!conv(cur, v)) ok = false; else want.push_back(v); cur = ""; } } else cur += s[q]; if (!ok && i % 17) continue; ++o.ops; vector<T> r; bool got = true; try { split(s, r); } catch (LEVELSError &) { got = false; } if (got != ok || (ok && r != want)) return "split(" + quote(s) + ")" + (got ? strf(" gives %zu values", r.size()) : " fails"); } return ""; }
static string t_token(Out &o) { string al = "a,; "; for (size_t i = 0; i < nwords(4, thorough() ? 8 : 7); ++i) { string s = wstr(i, al); ++o.ops; vector<string> r(2, "old"); tokenize(s, ',', r); string j; for (size_t q = 0; q < r.size(); ++q) { if (r[q].find(',') != string::npos) return "tokenize(" + quote(s) + "): a token contains the delimiter"; j += (q ? "," : "") + r[q]; } bool ok = s.empty() ? (r.empty() || (r.size() == 1 && r[0].empty())) : (j == s || j + "," == s) && r.size(); if (!ok) return "tokenize(" + quote(s) + ") gives " + quote(j); } return ""; }
typedef std::map<string, string> Dict;
static string dstr(const Dict &d) { string s; for (auto &x : d) s += quote(x.first) + "=" + quote(x.second) + " "; return s; }
static void oline(string l, Dict &d, bool file) { if (file) { l = l.substr(0, l.find('\r')); l = l.substr(0, l.find('#')); } l = otrim(l); size_t e = l.find('='); if (e == string::npos) return; string k = otrim(l.substr(0, e)); if (k.size()) d[k] = otrim(l.substr(e + 1)); }
struct Quiet { int fd; Quiet() { fflush(stderr); std::cerr.flush(); fd = dup(2); FILE *f = fopen("/dev/null", "w"); if (f) { dup2(fileno(f), 2); fclose(f); } } ~Quiet() { std::cerr.flush(); dup2(fd, 2); ::close(fd); } };
static string tmpfile_() { const char *d = getenv("VF_SCRATCH"); return strf("%s/h%d.txt", d ? d : "/tmp", (int)getpid()); }
static string t_file(Out &o, int part) { Quiet quiet; static const char *L[] = {"a=1", " a = 2 ", "b=x#c", "#c", "", "novalue", "=5", "a=b=c", "c=9\r", "  \t", "d=", "a b = c d ", "e=#", "\tf=1\t", "a#=1"}; const size_t K = 15; string fn = tmpfile_(); size_t N = nwords(K, 3); for (size_t i = part; i < N; i += 8) for (int nl = 0; nl < 2; ++nl) { string t; Dict want, got; got["old"] = "x"; auto w = word(i, K); for (size_t q = 0; q < w.size(); ++q) { t += L[w[q]]; if (q + 1 < w.size() || nl) t += "\n"; oline(L[w[q]], want, true); } FILE *f = fopen(fn.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); ++o.ops; parse_file(fn, got); if (got != want) { unlink(fn.c_str()); return "parse_file of " + quote(t) + " gives " + dstr(got) + "expected " + dstr(want); }
      if (i % 3 == 0) { vector<string> words(1, "old"), ww; string cur; for (size_t q = 0; q <= t.size(); ++q) if (q == t.size() || ws(t[q])) { if (cur.size()) ww.push_back(cur); cur = ""; } else cur += t[q]; parse_words_from_file(fn, words); if (words != ww) { unlink(fn.c_str()); return "parse_words_from_file of " + quote(t) + strf(" gives %zu words, expected %zu", words.size(), ww.size()); } } }
  unlink(fn.c_str()); if (part == 0) { Dict d; vector<string> v; if (!FAILS(parse_file(fn, d)) || !FAILS(parse_words_from_file(fn, v))) return "a missing file is accepted"; } o.put(part); return ""; }
static bool opar(const string &s) { return s.size() > 1 && s[0] == '-' && !isdigit(s[1]) && s[1] != '.'; }
static string t_cmd(Out &o, int part) { Quiet quiet; static const char *A[] = {"-a", "-b", "x", "-1", "-.5", "-", "", "a=b", " c = d ", "=e", "f", "a=g=h"}; const size_t K = 12; size_t N = nwords(K, 4); for (size_t i = part; i < N; i += 8) { auto w = word(i, K); vector<const char *> v(1, "prog"); for (size_t q : w) v.push_back(A[q]); for (size_t lead = 0; lead < 3; ++lead) { vector<string> ln; for (size_t q = 0; q < lead; ++q) ln.push_back(q ? "second" : "first"); string c; for (auto p : v) c += string(" ") + quote(p); c += strf(" with %zu leading", lead); if (v.size() <= lead && i % 5) continue;
      bool ok = v.size() > lead; Dict want; if (ok) for (size_t q = 0; q < lead; ++q) want[ln[q]] = v[q + 1]; Dict eqs = want; bool cl = ok; if (ok) { for (size_t q = lead + 1; q < v.size();) { if (!opar(v[q])) { cl = false; break; } if (q + 1 == v.size() || opar(v[q + 1])) want[string(v[q]).substr(1)] = "true", ++q; else want[string(v[q]).substr(1)] = v[q + 1], q += 2; } for (size_t q = lead + 1; q < v.size(); ++q) oline(v[q], eqs, false); }
      if (cl || w.size() < 4) { Dict d; d["old"] = "x"; ++o.ops; bool got = true; try { if (lead) parse_cmdline_classic(v.size(), v.data(), ln, d); else parse_cmdline_classic(v.size(), v.data(), d); } catch (LEVELSError &) { got = false; } if (got != cl) return "classic command line" + c + (got ? " is accepted" : " fails"); if (got && d != want) return "classic command line" + c + " gives " + dstr(d) + "expected " + dstr(want); }
      { Dict d; d["old"] = "x"; ++o.ops; bool got = true; try { if (lead) parse_cmdline_equalsign(v.size(), v.data(), ln, d); else parse_cmdline_equalsign(v.size(), v.data(), d); } catch (LEVELSError &) { got = false; } if (got != ok) return "key=value command line" + c + (got ? " is accepted" : " fails"); if (got && d != eqs) return "key=value command line" + c + " gives " + dstr(d) + "expected " + dstr(eqs); } } }
  o.put(part); return ""; }
struct Text : Fns { void prepare() override { auto ci = [](const string &s, int &v) { I128 x; if (!oint(s, x)) return false; v = (int)x; return true; }; auto cl = [](const string &s, long &v) { I128 x; if (!oint(s, x)) return false; v = (long)x; return true; }; auto cd = [](const string &s, double &v) { return oreal(s, v); }; auto cf = [](const string &s, float &v) { double d; if (!oreal(s, d)) return false; v = (float)d; return true; }; auto cs = [](const string &s, string &v) { v = s; return true; };
    f = { {"trim", t_trim}, {"letter case", t_case}, {"short as text", t_intio<short>}, {"unsigned short as text", t_intio<unsigned short>}, {"int as text", t_intio<int>}, {"unsigned as text", t_intio<unsigned>}, {"long as text", t_intio<long>}, {"unsigned long as text", t_intio<unsigned long>}, {"long long as text", t_intio<long long>}, {"unsigned long long as text", t_intio<unsigned long long>}, {"every short text as an integer", t_parseint}, {"every short text as a real number", t_parsereal}, {"truth values", t_bool}, {"padded integers", t_padded}, {"tokenize", t_token}, {"long double as text", t_ldio},
      {"split into int", [ci](Out &o) { return t_split<int>(o, "1 -\tx", ci); }}, {"split into long", [cl](Out &o) { return t_split<long>(o, "12 -\n", cl); }}, {"split into double", [cd](Out &o) { return t_split<double>(o, "1 .-e", cd); }}, {"split into float", [cf](Out &o) { return t_split<float>(o, "3 .\tx", cf); }}, {"split into strings", [cs](Out &o) { return t_split<string>(o, "a \t\nB", cs); }} };
    for (int p = 0; p < 8; ++p) { f.push_back({strf("double as text, part %d of 8", p + 1), [p](Out &o) { return t_realio<double, uint64_t>(o, 52, 2047, p); }}); f.push_back({strf("float as text, part %d of 8", p + 1), [p](Out &o) { return t_realio<float, uint32_t>(o, 23, 255, p); }}); f.push_back({strf("parameter files, part %d of 8", p + 1), [p](Out &o) { return t_file(o, p); }}); f.push_back({strf("command lines, part %d of 8", p + 1), [p](Out &o) { return t_cmd(o, p); }}); } } };
// ---- Wigner 3j symbols and singular value decomposition (P24)
static long double lfac(int n) { static long double t[400]; static bool init = false; if (!init) { t[0] = 0; for (int i = 1; i < 400; ++i) t[i] = t[i-1] + std::log((long double)i); init = true; } return t[n]; }
// twice the quantum numbers; Racah's sum in exact-ish arithmetic: integer products by logarithms only for the prefactor, the sum in long double with ratios
static long double w3j(int a, int b, int c, int al, int be, int ga) { if (al + be + ga || (a + b + c) % 2 || c > a + b || c < std::abs(a - b) || std::abs(al) > a || std::abs(be) > b || std::abs(ga) > c || (a + al) % 2 || (b + be) % 2 || (c + ga) % 2) return 0; auto h = [](int x) { return x/2; };
  long double pre = lfac(h(a+b-c)) + lfac(h(a-b+c)) + lfac(h(-a+b+c)) - lfac(h(a+b+c)+1) + lfac(h(a+al)) + lfac(h(a-al)) + lfac(h(b+be)) + lfac(h(b-be)) + lfac(h(c+ga)) + lfac(h(c-ga)); int lo = std::max(0, std::max(h(b-c-al), h(a-c+be))), hi = std::min(h(a+b-c), std::min(h(a-al), h(b+be)));
  // sum of (-1)^t / (t! (c-b+t+al)! (c-a+t-be)! (a+b-c-t)! (a-t-al)! (b-t+be)!): the integers t! etc. are combined as products of binomials, exact in 128 bits
  auto bin = [](int n, int k) -> I128 { if (k < 0 || k > n) return 0; I128 r = 1; for (int i = 1; i <= k; ++i) r = r*(n - k + i)/i; return r; };
  I128 s = 0; int A = h(a+b-c), B = h(a-al), C = h(b+be); (void)B; (void)C; for (int t = lo; t <= hi; ++t) { I128 x = bin(A, t)*bin(h(a-b+c), B - t)*bin(h(-a+b+c), C - t); s += (t & 1) ? -x : x; }
  long double nrm = 0.5L*pre - lfac(A) - lfac(h(a-b+c)) - lfac(h(-a+b+c)); long double r = (long double)s*std::exp(nrm); if ((h(a-b-ga)) & 1) r = -r; return r; }
struct W3j : Pure { struct C { int l2, l3; }; vector<C> c; void prepare() override { int L = thorough() ? 60 : 40; for (int a = 0; a <= L; ++a) for (int b = 0; b <= L; ++b) c.push_back({a, b}); } size_t size() override { return c.size(); } size_t batch() override { return 8; } string describe(size_t i) override { return strf("3j symbols for l2=%g l3=%g, every m2, m3", c[i].l2/2., c[i].l3/2.); }
  string run(size_t i, Out &o) override { int a = c[i].l2, b = c[i].l3; for (int m2 = -a; m2 <= a; m2 += 2) for (int m3 = -b; m3 <= b; m3 += 2) { int m1 = -m2 - m3, lo = std::max(std::abs(a - b), std::abs(m1)), n = (a + b - lo)/2 + 1; vector<double> r(n + 3, -777.); ++o.ops; wrec3jj(a/2., b/2., m2/2., m3/2., r.data() + 1, n + (m2 & 2 ? 1 : 0)); for (int k = 0; k < n; ++k) { long double w = w3j(lo + 2*k, a, b, m1, m2, m3); if (!(std::fabs(r[k+1] - (double)w) <= 1e-11)) return strf("l1=%g l2=%g l3=%g m2=%g m3=%g: %.15g, expected %.15Lg", (lo + 2*k)/2., a/2., b/2., m2/2., m3/2., r[k+1], w); } if (r[0] != -777 || r[n+1] != -777 || r[n+2] != -777) return strf("l2=%g l3=%g m2=%g m3=%g: writes beyond the result", a/2., b/2., m2/2., m3/2.); o.put(r[1]); }
    return ""; } };
// large quantum numbers: the family over l1 is determined by the recursion over l1 (Schulten & Gordon), its norm and the sign of its last member
struct W3jLong : Pure { struct C { int l2, l3; }; vector<C> c; void prepare() override { vector<int> L{61, 90, 145, 250, 401, 600, 1200}; if (thorough()) for (int x : {75, 110, 180, 201, 320, 500, 801, 1000, 1601, 2000, 3000, 4001}) L.push_back(x); std::sort(L.begin(), L.end()); for (int a : L) { for (int b : L) c.push_back({a, b}); for (int b : {0, 1, 2, 3, 8}) { c.push_back({a, b}); c.push_back({b, a}); } } } size_t size() override { return c.size(); } size_t batch() override { return 4; } string describe(size_t i) override { return strf("3j symbols for l2=%g l3=%g, m2 and m3 from the ends, middle and quarters of their ranges", c[i].l2/2., c[i].l3/2.); }
  static vector<int> ms(int l) { std::set<int> s; for (int x : {0, 1, 2, l/4, l/2 - 1, l/2, l/2 + 1, 3*l/4, 9*l/10, l - 1, l}) if (x >= 0 && x <= l) { s.insert(-l + 2*x); } return vector<int>(s.begin(), s.end()); }
  string run(size_t i, Out &o) override { int a = c[i].l2, b = c[i].l3; for (int m2 : ms(a)) for (int m3 : ms(b)) { int m1 = -m2 - m3, lo = std::max(std::abs(a - b), std::abs(m1)), n = (a + b - lo)/2 + 1; vector<double> r(n + 2, -777.); ++o.ops; wrec3jj(a/2., b/2., m2/2., m3/2., r.data() + 1, n); string id = strf("l2=%g l3=%g m2=%g m3=%g: ", a/2., b/2., m2/2., m3/2.); if (r[0] != -777 || r[n+1] != -777) return id + "writes beyond the family";
      typedef long double LD; LD l2 = a/2.L, l3 = b/2.L, M1 = m1/2.L, M2 = m2/2.L, M3 = m3/2.L, nrm = 0; auto E = [&](LD l) { LD v = (l*l - (l2 - l3)*(l2 - l3))*((l2 + l3 + 1)*(l2 + l3 + 1) - l*l)*(l*l - M1*M1); return v > 0 ? std::sqrt(v) : 0; };
      for (int k = 0; k < n; ++k) { LD l = (lo + 2*k)/2.L, f = r[k+1]; if (!std::isfinite(r[k+1])) return id + strf("l1=%Lg is not finite", l); nrm += (2*l + 1)*f*f; LD x = k + 1 < n ? l*E(l + 1)*r[k+2] : 0, z = k ? (l + 1)*E(l)*r[k] : 0, y = -(2*l + 1)*((l2*(l2 + 1) - l3*(l3 + 1))*M1 - l*(l + 1)*(M3 - M2))*f; // l*E(l+1) f(l+1) + F(l) f(l) + (l+1)*E(l) f(l-1) = 0
        if (l == 0) continue; LD sum = std::fabs(x) + std::fabs(y) + std::fabs(z); if (!(std::fabs(x + y + z) <= 1e-8L*sum + 1e-12L*l*l*l)) return id + strf("the recursion over l1 is violated at l1=%Lg by %Lg of %Lg (%g %g %g)", l, x + y + z, sum, k ? r[k] : 0., r[k+1], k + 1 < n ? r[k+2] : 0.); }
      if (!(std::fabs(nrm - 1) <= 1e-10L)) return id + strf("the norm is %.15Lg", nrm); bool neg = ((a - b - m1)/2) & 1; if (r[n] != 0 && (r[n] < 0) != neg) return id + "wrong sign"; if (o.d.size() < 200) o.put(r[n]); } return ""; } };
struct Svd : Pure { struct C { int m, n, part; size_t cnt; }; vector<C> c; static const int NV = 3; vector<double> al;
  void prepare() override { al = {0, 1, -2, 3.5}; auto add = [&](int m, int n, int k) { size_t N = 1; for (int q = 0; q < m*n; ++q) N *= k; size_t P = std::max<size_t>(1, N/3000); for (size_t p = 0; p < P; ++p) c.push_back({m, n, (int)p, (size_t)k}); }; for (int m = 1; m <= 4; ++m) for (int n = 1; n <= m; ++n) add(m, n, m*n <= 6 ? 4 : m*n <= 9 ? (thorough() ? 4 : 3) : m*n <= 12 ? (thorough() ? 3 : 2) : 2); for (int n = 1; n <= 8; ++n) { if (n > 4) add(n, 2, 2), add(n, 1, 3); } }
  size_t size() override { return c.size(); } size_t batch() override { return 4; } string describe(size_t i) override { return strf("every %dx%d matrix over %zu values, part %d", c[i].m, c[i].n, c[i].cnt, c[i].part); }
  string run(size_t i, Out &o) override { int m = c[i].m, n = c[i].n; size_t k = c[i].cnt, N = 1; for (int q = 0; q < m*n; ++q) N *= k; size_t P = std::max<size_t>(1, N/3000);
    for (size_t x = c[i].part; x < N; x += P) { vector<vector<double> > M(m, vector<double>(n)); vector<double *> row(m); size_t r = x; for (int a = 0; a < m; ++a) { for (int b = 0; b < n; ++b) { M[a][b] = al[r % k]; r /= k; } row[a] = M[a].data(); } auto K = M; svd_obj s; ++o.ops; svd_init(row.data(), 1e-9, m, n, &s); string e; auto say = [&](const char *t) { if (e.size()) return; e = strf("%dx%d matrix (", m, n); for (auto &q : K) { for (double v : q) e += strf(" %g", v); e += ";"; } e += string(" ): ") + t; };
      if (M != K) say("the matrix is changed"); double nrm = 0; for (auto &q : K) for (double v : q) nrm = std::max(nrm, std::fabs(v));
      for (int a = 0; a < m; ++a) for (int b = 0; b < n; ++b) { double v = 0; for (int q = 0; q < n; ++q) v += s.u[q][a]*s.w[q]*s.v[q][b]; if (!(std::fabs(v - K[a][b]) < 1e-11*(1 + nrm))) say("the factors do not multiply to the matrix"); }
      for (int a = 0; a < n; ++a) { if (!(s.w[a] >= 0)) say("a singular value is negative"); for (int b = 0; b < n; ++b) { double v = 0; for (int q = 0; q < n; ++q) v += s.v[a][q]*s.v[b][q]; if (!(std::fabs(v - (a == b)) < 1e-11)) say("the right vectors are not orthonormal"); v = 0; for (int q = 0; q < m; ++q) v += s.u[a][q]*s.u[b][q]; if (s.w[a] > 0 && s.w[b] > 0 && !(std::fabs(v - (a == b)) < 1e-11)) say("the left vectors are not orthonormal"); } }
      for (int rhs = 0; rhs < 3; ++rhs) { vector<double> b(std::max(m, n) + 1, 0.), b0; for (int a = 0; a < m; ++a) b[a] = rhs == 0 ? a == 0 : rhs == 1 ? a + 1 : (a & 1 ? -1.5 : 2); b[std::max(m, n)] = 4711; b0 = b; svd_solve(&s, b.data()); if (b[std::max(m, n)] != 4711) say("solving writes beyond the vector");
        // least squares: A^T (A x - b) = 0; minimum norm: x is orthogonal to the null space, i.e. to v with w = 0
        for (int q = 0; q < n; ++q) { double g = 0; for (int a = 0; a < m; ++a) { double t = -b0[a]; for (int p = 0; p < n; ++p) t += K[a][p]*b[p]; g += K[a][q]*t; } if (!(std::fabs(g) < 1e-8*(1 + nrm*nrm)*100)) say("the solution is not the least-squares one"); if (s.w[q] == 0) { double t = 0; for (int p = 0; p < n; ++p) t += s.v[q][p]*b[p]; if (!(std::fabs(t) < 1e-9*100)) say("the solution is not the shortest one"); } } if (rhs == 0 && o.d.size() < 500) o.put(b[0]); }
      svd_destroy(&s); if (e.size()) return e; }
    return ""; } };
struct W3jBad : Pure { // quantum numbers that are not allowed, arrays that are too small
  static double lv(size_t k) { static const double L[] = {0, 0.5, 1, 1.5, 2.5, 3, 0.25}; return L[k]; } size_t size() override { return 49; } size_t batch() override { return 1; } string describe(size_t i) override { return strf("wrec3jj(l2=%g, l3=%g, ...) with every m2, m3 in quarter steps and every array size", lv(i/7), lv(i % 7)); }
  static int ends(double l2, double l3, double m2, double m3, int sz, int &bad) { fflush(stdout); pid_t c = fork(); if (c < 0) return -2; if (!c) { int n = open("/dev/null", O_WRONLY); if (n >= 0) dup2(n, 2); vector<double> r(40, -777.); wrec3jj(l2, l3, m2, m3, r.data() + 1, sz); _exit(42); } int st = 0; waitpid(c, &st, 0); bad = st; return WIFEXITED(st) ? WEXITSTATUS(st) : -1; }
  string run(size_t i, Out &o) override { double a = lv(i/7), b = lv(i % 7); o.put(i); int st = 0; auto whole = [](double x) { return std::fabs(x - std::floor(x + 0.5)) < 1e-9; };
    for (double m2 = -4; m2 <= 4; m2 += 0.25) for (double m3 = -4; m3 <= 4; m3 += 0.25) { ++o.ops; bool ok = a >= std::fabs(m2) && b >= std::fabs(m3) && whole(a + std::fabs(m2)) && whole(b + std::fabs(m3)); double lo = std::max(std::fabs(a - b), std::fabs(m2 + m3)); int n = ok ? (int)std::floor(a + b - lo + 0.5) + 1 : 20; 
        if (!ok) { int e = ends(a, b, m2, m3, n, st); if (e != 1) return strf("m2=%g, m3=%g is not allowed but is not refused (status %d)", m2, m3, e); continue; }
        for (int sz = 0; sz <= n; ++sz) { int e = ends(a, b, m2, m3, sz, st); if (e != (sz < n ? 1 : 42)) return strf("m2=%g, m3=%g with room for %d of %d symbols: status %d", m2, m3, sz, n, e); } }
    return ""; } };
int main(int argc, char **argv) { Registry r; r["w3jbad"] = [] { return new W3jBad; }; r["num"] = [] { return new Num; }; r["text"] = [] { return new Text; }; r["w3j"] = [] { return new W3j; }; r["w3jl"] = [] { return new W3jLong; }; r["svd"] = [] { return new Svd; }; return main_(argc, argv, r); }
