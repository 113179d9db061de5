// Calendar, memory, clock, error-reporting and packed-vector helpers (P25).
#include "pure.hpp"
#include "ls_sse_utils_cxx.h"
#include "ls_error_handling.h"
extern "C" {
#include "c_utils.h"
}
#include "time_utils.h"
#include "memusage.h"
#include "walltime_c.h"
#include <cmath>
#include <cstring>
#include <ctime>
#include <functional>
#include <limits>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf; using namespace levels;
// runs f in a process of its own; returns its text, or how the process ended
static string apart(std::function<string()> f, int *status = 0, string *err = 0, string *outp = 0) {
  int p[2], e[2], q[2]; if (pipe(p) || pipe(e) || pipe(q)) return "pipe failed"; fflush(stdout); fflush(stderr); pid_t c = fork(); if (c < 0) return "fork failed";
  if (!c) { close(p[0]); close(e[0]); close(q[0]); if (err) dup2(e[1], 2); if (outp) dup2(q[1], 1); string s = f(); fflush(stdout); fflush(stderr); std::cerr.flush(); std::cout.flush(); size_t o = 0; while (o < s.size()) { ssize_t k = write(p[1], s.data() + o, s.size() - o); if (k <= 0) break; o += k; } _exit(0); }
  close(p[1]); close(e[1]); close(q[1]); auto slurp = [](int fd) { string s; char b[4096]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k); close(fd); return s; };
  string se = slurp(e[0]), so = slurp(q[0]), s = slurp(p[0]); int st = 0; waitpid(c, &st, 0); if (err) *err = se; if (outp) *outp = so; if (status) { *status = WIFEXITED(st) ? WEXITSTATUS(st) : -1; return s; }
  if (!WIFEXITED(st) || WEXITSTATUS(st)) return strf("the process was ended (status %d)", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)); return s; }
// ---- calendar
static long long civil(long long y, int m, int d) { y -= m <= 2; long long era = (y >= 0 ? y : y - 399)/400; unsigned yoe = (unsigned)(y - era*400), doy = (153*(m + (m > 2 ? -3 : 9)) + 2)/5 + d - 1, doe = yoe*365 + yoe/4 - yoe/100 + doy; return era*146097 + (long long)doe - 719468; }
struct Calendar : Pure { // decades x time zones x which conversion comes first
  static const char *tz(int k) { static const char *Z[] = {0, "", "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "PST8PDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "IST-5:30", "<+14>-14"}; return Z[k]; }
  static const int NZ = 8, NDEC = 22; size_t size() override { return (size_t)NZ*NDEC*2; } size_t batch() override { return 1; }
  string describe(size_t i) override { int z = i % NZ, y = 1900 + 10*(int)(i/NZ/2), r = i/NZ%2; return strf("every day of %d..%d, %s conversion first, TZ=%s", y, y + 9, r ? "reverse" : "forward", tz(z) ? tz(z) : "(unset)"); }
  static string one(int y, int m, int d, int h, int mi, int s, bool rev) { long long w = civil(y, m, d)*86400 + h*3600 + mi*60 + s - civil(1958, 1, 1)*86400; auto fwd = [&]() -> string { long long t = dateandtime2planck(y, m, d, h, mi, s); return t == w ? "" : strf("%04d-%02d-%02d %02d:%02d:%02d is second %lld, expected %lld", y, m, d, h, mi, s, t, w); };
    auto bwd = [&]() -> string { int Y = -1, M = -1, D = -1, H = -1, N = -1, S = -1; planck2dateandtime(w, &Y, &M, &D, &H, &N, &S); return Y == y && M == m && D == d && H == h && N == mi && S == s ? "" : strf("second %lld is %04d-%02d-%02d %02d:%02d:%02d, expected %04d-%02d-%02d %02d:%02d:%02d", w, Y, M, D, H, N, S, y, m, d, h, mi, s); };
    string e = rev ? bwd() : fwd(); return e.size() ? e : rev ? fwd() : bwd(); }
  string run(size_t i, Out &o) override { int z = i % NZ, y0 = 1900 + 10*(int)(i/NZ/2); bool rev = i/NZ%2; long n = 0;
    string r = apart([&]() -> string { if (tz(z)) setenv("TZ", tz(z), 1); else unsetenv("TZ"); tzset(); time_t probe = 1690000000; struct tm b = *localtime(&probe);
      static const int ML[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; string e; 
      auto same = [&]() -> string { const char *t = getenv("TZ"); if (!t != !tz(z) || (t && strcmp(t, tz(z)))) return strf("TZ was changed to %s", t ? t : "(unset)"); struct tm a = *localtime(&probe); if (a.tm_hour != b.tm_hour || a.tm_min != b.tm_min || a.tm_isdst != b.tm_isdst) return "local time is another one afterwards"; return ""; };
      for (int y = y0; y < y0 + 10; ++y) { for (int m = 1; m <= 12; ++m) for (int d = 1; d <= ML[m-1] + (m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0))); ++d) { static const int T[][3] = {{0, 0, 0}, {23, 59, 59}, {12, 34, 56}, {2, 30, 0}}; for (auto &t : T) { if ((e = one(y, m, d, t[0], t[1], t[2], rev)).size()) return e; n += 2; } if (d == 1 && (e = same()).size()) return e; }
        int md[3] = {(y % 12) + 1, 6, 12}; for (int q = 0; q < (thorough() ? 3 : 1); ++q) for (int s = 0; s < 86400; s += (thorough() ? 1 : 7)) if ((e = one(y, md[q], 1 + (y + q) % 28, s/3600, s/60%60, s%60, rev)).size()) return e; }
      return same(); });
    o.ops += 30000; o.put(i); return r; }
};
// ---- memory
static double status(const char *key) { FILE *f = fopen("/proc/self/status", "r"); if (!f) return -1; char l[256]; double r = -1; size_t n = strlen(key); while (fgets(l, sizeof l, f)) if (!strncmp(l, key, n)) r = atof(l + n)*1024; fclose(f); return r; }
struct Memory : Pure { // every history of allocations
  static const int NOP = 5; int depth() { return thorough() ? 5 : 4; } size_t size() override { size_t n = 1; for (int k = 0; k < depth(); ++k) n *= NOP; return n; } size_t batch() override { return 50; }
  string describe(size_t i) override { static const char *N[] = {"take 6 MB", "take 24 MB", "reserve 24 MB", "return the last", "return all"}; string s = "memory use:"; for (int k = 0; k < depth(); ++k, i /= NOP) s += string(" ") + N[i % NOP]; return s; }
  string run(size_t i, Out &o) override { o.ops += depth(); o.put(i); return apart([&]() -> string { vector<std::pair<char *, size_t> > v; double slack = 5e6, high = 0; string e;
      auto drop = [&] { munmap(v.back().first, v.back().second); v.pop_back(); };
      for (int k = 0; k < depth() && e.empty(); ++k, i /= NOP) { int op = i % NOP; if (op < 3) { size_t n = (op ? 24 : 6) << 20; char *p = (char *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return ""; v.push_back({p, n}); if (op < 2) for (size_t q = 0; q < n; q += 4096) p[q] = 1; } else if (op == 3) { if (v.size()) drop(); } else while (v.size()) drop();
        double a = status("VmRSS:"), r = residentSetSize(), b = status("VmRSS:"), h = VmHWM(), hs = status("VmHWM:");
        if (a >= 0 && b >= 0 && !(r >= std::min(a, b) - slack && r <= std::max(a, b) + slack)) e = strf("the resident set size is reported as %.0f, the kernel says %.0f", r, a); else if (a < 0 && r != -1) { FILE *f = fopen("/proc/self/statm", "r"); if (f) fclose(f); else e = "an unsupported resident set size is not reported as -1"; }
        else if (hs >= 0 && !(std::fabs(h - hs) <= slack)) e = strf("the high-water mark is reported as %.0f, the kernel says %.0f", h, hs); else if (hs < 0 && h != -1) e = "an unsupported high-water mark is not reported as -1"; else if (h >= 0 && h < high - slack) e = "the high-water mark sank"; high = std::max(high, h); }
      return e; }); }
};
struct CMem : Pure { // C allocation helpers
  vector<size_t> sz; void prepare() override { for (size_t n = 0; n <= 9000; ++n) sz.push_back(n); for (int b = 13; b <= 22; ++b) for (int d = -200; d <= 200; ++d) sz.push_back(((size_t)1 << b) + d); for (int k = 2; k < 40; ++k) for (int d = -200; d <= 200; d += 3) sz.push_back((size_t)4096*k + d); }
  size_t chunks() { return (sz.size() + 199)/200; } size_t size() override { return chunks() + 150 + 256; }
  string describe(size_t i) override { if (i < chunks()) return strf("util_malloc of sizes %zu..%zu", sz[i*200], sz[std::min(sz.size(), i*200 + 200) - 1]); i -= chunks(); if (i < 150) return strf("two-dimensional allocation of %zu x %zu", i/10 + 1, i%10 + 1); return strf("growing array, history %zu", i - 150); }
  string run(size_t i, Out &o) override {
    if (i < chunks()) { vector<std::pair<char *, size_t> > live; string e; for (size_t k = i*200; k < std::min(sz.size(), i*200 + 200); ++k) { size_t n = sz[k]; ++o.ops; char *p = RALLOC(char, n); if (!n) { if (p) e = "a request of nothing gives memory"; util_free_(p); continue; } if (!p || (size_t)p % 16) e = strf("the memory for %zu bytes is not aligned", n); memset(p, (int)(k % 251), n); live.push_back({p, n}); if (live.size() > 20) { auto &l = live[live.size() - 20]; for (size_t q = 0; q < l.second; ++q) if (l.first[q] != l.first[0]) { e = strf("the memory of %zu bytes overlaps other memory", l.second); break; } } if (e.size()) break; }
      for (auto &l : live) { for (size_t q = 0; q < l.second && e.empty(); ++q) if (l.first[q] != l.first[0]) e = strf("the memory of %zu bytes overlaps other memory", l.second); DEALLOC(l.first); if (l.first) e = "DEALLOC keeps the pointer"; } return e; }
    i -= chunks();
    if (i < 150) { int n1 = (int)i/10 + 1, n2 = (int)i%10 + 1; int **a; ALLOC2D(a, int, n1, n2); for (int k = 0; k < n1; ++k) for (int l = 0; l < n2; ++l) a[k][l] = 100*k + l; string e; for (int k = 0; k < n1; ++k) { if (a[k] != a[0] + k*n2) e = "the rows are not contiguous"; for (int l = 0; l < n2; ++l) if (a[k][l] != 100*k + l) e = "rows overlap"; }
      int *s = RALLOC(int, n1*n2 + 2), *d = RALLOC(int, n1*n2 + 2); for (int q = 0; q < n1*n2 + 2; ++q) s[q] = d[q] = -1; SET_ARRAY(s, 1, n1*n2 + 1, 7); COPY_ARRAY(s, d, n1, n1*n2 + 1); for (int q = 0; q < n1*n2 + 2; ++q) { bool in = q >= 1 && q <= n1*n2; if (s[q] != (in ? 7 : -1) || d[q] != (in && q >= n1 ? 7 : -1)) e = "SET_ARRAY or COPY_ARRAY touches other elements"; } DEALLOC(s); DEALLOC(d); DEALLOC2D(a); if (a) e = "DEALLOC2D keeps the pointer"; int **z = 0; DEALLOC2D(z);
      int x = n1, y = n2; if (IMAX(n1, n2) != std::max(n1, n2) || IMIN(n1, n2) != std::min(n1, n2)) e = "IMAX or IMIN"; SWAP(x, y, int); if (x != n2 || y != n1) e = "SWAP"; for (double q : {-4., -1., -0.25, 0., 0.25, 1., 4.}) { double A = n1 - 5.0, B = A + q, E = n2*0.125; if (FAPPROX(A, B, E) != (std::fabs(A - B) < E*std::fabs(B)) || ABSAPPROX(A, B, E) != (std::fabs(A - B) < E)) e = "FAPPROX or ABSAPPROX"; } return e; }
    i -= 150; { size_t cap = 0; double *p = 0; string e; for (int k = 0; k < 4; ++k, i /= 4) { static const size_t W[] = {1, 3, 10, 40}; size_t want = W[i % 4], old = cap; GROW(p, double, cap, want); ++o.ops; if (cap < want || (want <= old && cap != old)) e = "GROW does not provide the size requested"; for (size_t q = 0; q < cap; ++q) p[q] = q; } RESIZE(p, double, 5); for (int q = 0; q < 5; ++q) p[q] = 1; DEALLOC(p); return e; } }
};
// ---- errors
struct Errors : Pure { size_t size() override { return 12; }
  string describe(size_t i) override { static const char *N[] = {"UTIL_FAIL", "UTIL_ASSERT with a false condition", "UTIL_ASSERT with a true condition", "UTIL_WARN with a false condition", "UTIL_WARN with a true condition", "levels_fail", "levels_fail_quietly", "levels_assert", "error texts", "program start, quiet", "program start, verbose", "wall clock"}; return N[i]; }
  string run(size_t i, Out &o) override { int st; string err, out; auto has = [](const string &s, const char *t) { return s.find(t) != string::npos; }; ++o.ops; o.put(i);
    if (i < 5) { int n = 0; string r = apart([&]() -> string { bool f = false, t = true; int ev = 0; (void)f; (void)t; if (i == 0) UTIL_FAIL("the text"); if (i == 1) { UTIL_ASSERT((++ev, f), "the text"); } if (i == 2) { UTIL_ASSERT((++ev, t), "the text"); } if (i == 3) { UTIL_WARN((++ev, f), "the text"); } if (i == 4) { UTIL_WARN((++ev, t), "the text"); } return strf("went on %d", ev); }, &st, &err); (void)n;
      bool ends = i < 2, says = i == 0 || i == 1 || i == 3; if (ends != (st == 1) || (!ends && st)) return strf("exit status %d", st); if (says != has(err, "the text")) return "the message is " + string(says ? "missing" : "unexpected"); if (says && (!has(err, "cutil.cc") || !has(err, "operator()"))) return "the message does not name the place"; if (!ends && r != "went on 1") return "the condition was not evaluated once: " + r; return ""; }
    if (i < 9) { string r = apart([&]() -> string { for (const char *t : {"", "x", "some text\nof two lines"}) { string s(t); if (i == 5 || i == 6) for (int k = 0; k < 2; ++k) { bool ok = false; try { if (i == 5) { if (k) levels_fail(s); else levels_fail(t); } else { if (k) levels_fail_quietly(s); else levels_fail_quietly(t); } } catch (LEVELSError &e) { ok = s == e.what(); } catch (...) {} if (!ok) return "no error with this text was thrown"; }
            if (i == 7) for (int k = 0; k < 2; ++k) { int ev = 0; bool thrown = false; try { if (ev == 0) levels_assert((++ev, k == 1), s); else return "the macro swallows an else"; } catch (LEVELSError &e) { thrown = s == e.what(); } if (thrown != (k == 0) || ev != 1) return "levels_assert"; }
            if (i == 8) { LEVELSError a(t), b(s), c(a); b = c; if (s != a.what() || s != b.what() || s != c.what()) return "an error's text is changed"; LEVELSError *p = new LEVELSError("temporary"); LEVELSError d(*p); delete p; if (string("temporary") != d.what()) return "a copied error depends on the original"; } } return "fine"; }, &st, &err); if (r != "fine" || st) return r; if (i == 5 && (!has(err, "some text") || !has(err, "cutil.cc"))) return "the diagnostic is missing"; if ((i == 6 || i == 8) && err.size()) return "a diagnostic is written"; return ""; }
    if (i < 11) { for (int a = 0; a <= 4; ++a) for (int b = 0; b <= 4; ++b) for (const char *n : {"", "tool", "a longer tool name"}) { apart([&]() -> string { module_startup_c(n, a, b, "<the arguments>", i == 10); return "on"; }, &st, &err, &out); if ((st != 0) != (a != b) || (st && st != 1)) return strf("started with %d words where %d are expected: status %d", a, b, st); if (i == 10) { if (!has(out, strf("| %s |", n).c_str())) return "the name is not announced"; if (has(err, "<the arguments>") != (a != b)) return "the usage text is wrong"; } else if (out.size() || err.size()) return "a quiet start writes something"; } return ""; }
    string e; for (int tr = 0; tr < 5; ++tr) { e = clock(); if (e.empty()) break; } return e; }
  static string clock() { // (repeated: somebody may set the system's clock)
    double t0 = wallTime(), last = t0; for (int k = 0; k < 100000; ++k) { double t = wallTime(); if (!(t >= last)) return "the wall clock runs backwards"; last = t; } struct timespec w = {0, 30000000}, a, b; clock_gettime(CLOCK_MONOTONIC, &a); t0 = wallTime(); nanosleep(&w, 0); double t1 = wallTime(); clock_gettime(CLOCK_MONOTONIC, &b); double d = (b.tv_sec - a.tv_sec) + 1e-9*(b.tv_nsec - a.tv_nsec); if (!(t1 - t0 >= 0.0299 && t1 - t0 <= d + 1e-4)) return strf("%.4f s passed, the clock says %.4f", d, t1 - t0); return ""; }
};
// ---- packed vectors: every operation on every pair of lanes' values, in every lane
template<class T> static uint64_t bits(T x) { uint64_t r = 0; memcpy(&r, &x, sizeof x); return r; }
template<class T> static bool eqv(T a, T b) { return bits(a) == bits(b) || (a != a && b != b); }
struct Simd : Pure {
  vector<float> F; vector<double> D; vector<int> I;
  void prepare() override { for (double x : {0.0, -0.0, 1.0, -1.5, 2.25, 1e30, -3e-30, 1e-45, 0.1, 7.0, 2.5, -3.5}) { F.push_back((float)x); D.push_back(x); } D.push_back(1e308); D.push_back(5e-324); for (int s = -1; s < 2; s += 2) { F.push_back(s*INFINITY); D.push_back(s*INFINITY); } F.push_back(NAN); D.push_back(NAN); I = {0, 1, -1, 2, -7, 255, 65536, INT32_MAX, INT32_MIN, INT32_MIN + 1, 0x55555555, (int)0xAAAAAAAA}; }
  size_t size() override { return F.size() + D.size() + I.size(); }
  string describe(size_t i) override { if (i < F.size()) return strf("four floats with %g", F[i]); i -= F.size(); if (i < D.size()) return strf("two doubles with %g", D[i]); return strf("four integers with %d", I[i - D.size()]); }
  template<class V, class T, int N> static string lanes(const V &v, const T *w, const char *op, const T *a, const T *b) { for (int k = 0; k < N; ++k) if (!eqv(v[k], w[k])) return strf("%s: lane %d of (%g, %g) is %g, expected %g", op, k, (double)a[k], b ? (double)b[k] : 0., (double)v[k], (double)w[k]); return ""; }
  template<class V, class T, int N> string real(const vector<T> &al, size_t i, Out &o) {
    T a[4], b[4], w[4]; string e; auto mk = [&](const T *x) { V v; v.readFrom(x); return v; }; typedef typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type U; auto ub = [](T x) { U u; memcpy(&u, &x, sizeof u); return u; }; auto ft = [](U u) { T x; memcpy(&x, &u, sizeof x); return x; };
    for (size_t j = 0; j < al.size(); ++j) for (int rot = 0; rot < N; ++rot) { ++o.ops; for (int k = 0; k < N; ++k) { a[k] = al[(i + 3*((k + rot) % N)) % al.size()]; b[k] = al[(j + 5*k) % al.size()]; } V x = mk(a), y = mk(b), z;
#define TRY(op, expr, val) { z = expr; for (int k = 0; k < N; ++k) w[k] = val; if ((e = lanes<V, T, N>(z, w, op, a, b)).size()) return e; }
      TRY("copy", x, a[k]) TRY("+", x + y, a[k] + b[k]) TRY("-", x - y, a[k] - b[k]) TRY("*", x * y, a[k] * b[k]) TRY("/", x / y, a[k] / b[k]) { V q(x); q += y; TRY("+=", q, a[k] + b[k]) q = x; q -= y; TRY("-=", q, a[k] - b[k]) q = x; q *= y; TRY("*=", q, a[k] * b[k]) q = x; q /= y; TRY("/=", q, a[k] / b[k])
        q = x; q &= y; for (int k = 0; k < N; ++k) if (ub(q[k]) != (ub(a[k]) & ub(b[k]))) return "&="; q = x; q |= y; for (int k = 0; k < N; ++k) if (ub(q[k]) != (ub(a[k]) | ub(b[k]))) return "|="; q = x; q ^= y; for (int k = 0; k < N; ++k) if (ub(q[k]) != (ub(a[k]) ^ ub(b[k]))) return "^="; 
        q = x & y; for (int k = 0; k < N; ++k) if (ub(q[k]) != (ub(a[k]) & ub(b[k]))) return "&"; q = x | y; for (int k = 0; k < N; ++k) if (ub(q[k]) != (ub(a[k]) | ub(b[k]))) return "|"; q = x ^ y; for (int k = 0; k < N; ++k) if (ub(q[k]) != (ub(a[k]) ^ ub(b[k]))) return "^";
        q = a[0]; TRY("= number", q, a[0]) V c(a[0]); TRY("from a number", c, a[0]) for (int k = 0; k < N; ++k) { V s(x); s.set(k, T(42.5)); for (int l = 0; l < N; ++l) if (!eqv(s[l], l == k ? T(42.5) : a[l])) return "set changes another lane"; } }
      TRY("negation", -x, ft(ub(a[k]) ^ ((U)1 << (8*sizeof(U) - 1)))) TRY("abs", levels::abs(x), std::fabs(a[k])) { z = levels::sqrt(x); for (int k = 0; k < N; ++k) { T v = std::sqrt(a[k]); if (!eqv(z[k], v)) return "sqrt"; } }
      V ms[6] = {x.eq(y), x.neq(y), x.lt(y), x.le(y), x.gt(y), x.ge(y)}; for (int c = 0; c < 6; ++c) { int cnt = 0; for (int k = 0; k < N; ++k) { bool t = c == 0 ? a[k] == b[k] : c == 1 ? a[k] != b[k] : c == 2 ? a[k] < b[k] : c == 3 ? a[k] <= b[k] : c == 4 ? a[k] > b[k] : a[k] >= b[k]; cnt += t; if (ub(ms[c][k]) != (t ? ~(U)0 : (U)0)) return strf("comparison %d of %g and %g in lane %d", c, (double)a[k], (double)b[k], k); } if (any(ms[c]) != (cnt > 0) || all(ms[c]) != (cnt == N) || none(ms[c]) != (cnt == 0)) return "any, all or none"; V bl = blend(ms[c], x, y); for (int k = 0; k < N; ++k) if (!eqv(bl[k], ub(ms[c][k]) ? a[k] : b[k])) return "blend"; }
      T t[N + 2]; t[0] = t[N + 1] = T(-77); x.writeTo(t + 1); for (int k = 0; k < N; ++k) if (!eqv(t[k+1], a[k])) return "writeTo"; if (t[0] != T(-77) || t[N+1] != T(-77)) return "writeTo writes elsewhere";
      if ((e = extra(x, y, a, b)).size()) return e; }
    o.put(i); return ""; }
  static string extra(const V4sf &x, const V4sf &y, const float *a, const float *b) { float t[4]; x.writeTo(t[0], t[1], t[2], t[3]); V4sf z(a[0], a[1], a[2], a[3]), q; q.readFrom(a[0], a[1], a[2], a[3]); V4sf mn = levels::min(x, y), mx = levels::max(x, y); for (int k = 0; k < 4; ++k) { if (!eqv(t[k], a[k]) || !eqv(z[k], a[k]) || !eqv(q[k], a[k])) return "four floats in or out"; if (a[k] == a[k] && b[k] == b[k] && (mn[k] != std::min(a[k], b[k]) || mx[k] != std::max(a[k], b[k]))) return "min or max"; } V4sf an = x.andnot(y); for (int k = 0; k < 4; ++k) if (bits(an[k]) != (~bits(a[k]) & bits(b[k]) & 0xffffffffu)) return "andnot"; V4si i = vcast<V4si>(x); for (int k = 0; k < 4; ++k) if ((uint32_t)i[k] != bits(a[k])) return "vcast to integers"; V4sf r = vcast<V4sf>(i); for (int k = 0; k < 4; ++k) if (!eqv(r[k], a[k])) return "vcast to floats"; bool fit = true; for (int k = 0; k < 4; ++k) fit = fit && std::fabs(a[k]) < 2e9f; if (fit) { V4si c = x; for (int k = 0; k < 4; ++k) if (c[k] != (int)std::nearbyint(a[k])) return "conversion to integers"; V4sf f(c); for (int k = 0; k < 4; ++k) if (f[k] != (float)c[k]) return "conversion from integers"; } return ""; }
  static string extra(const V2df &x, const V2df &, const double *a, const double *) { double t[2]; x.writeTo(t[0], t[1]); V2df z(a[0], a[1]), q; q.readFrom(a[0], a[1]); for (int k = 0; k < 2; ++k) if (!eqv(t[k], a[k]) || !eqv(z[k], a[k]) || !eqv(q[k], a[k])) return "two doubles in or out"; bool fit = true; for (int k = 0; k < 2; ++k) fit = fit && std::fabs(a[k]) < 2e9; if (fit) { V4si c = x; for (int k = 0; k < 2; ++k) if (c[k] != (int)std::nearbyint(a[k])) return "conversion to integers"; V2df f(c); for (int k = 0; k < 2; ++k) if (f[k] != (double)c[k]) return "conversion from integers"; } return ""; }
  string ints(size_t i, Out &o) { typedef uint32_t U; int a[4], b[4]; for (size_t j = 0; j < I.size(); ++j) for (int rot = 0; rot < 4; ++rot) { ++o.ops; for (int k = 0; k < 4; ++k) { a[k] = I[(i + 5*((k + rot) % 4)) % I.size()]; b[k] = I[(j + 7*k) % I.size()]; } V4si x(a[0], a[1], a[2], a[3]), y(b[0], b[1], b[2], b[3]), z;
#define TRI(op, expr, val) { z = expr; for (int k = 0; k < 4; ++k) if (z[k] != (int)(val)) return strf("%s: lane %d of (%d, %d) is %d, expected %d", op, k, a[k], b[k], z[k], (int)(val)); }
      TRI("copy", x, a[k]) TRI("+", x + y, (U)a[k] + (U)b[k]) TRI("-", x - y, (U)a[k] - (U)b[k]) TRI("&", x & y, a[k] & b[k]) TRI("|", x | y, a[k] | b[k]) TRI("^", x ^ y, a[k] ^ b[k]) TRI("andnot", x.andnot(y), ~a[k] & b[k]) TRI("eq", x.eq(y), a[k] == b[k] ? -1 : 0) TRI("gt", x.gt(y), a[k] > b[k] ? -1 : 0) TRI("lt", x.lt(y), a[k] < b[k] ? -1 : 0) V4si q(x); q += y; TRI("+=", q, (U)a[k] + (U)b[k]) q = x; q -= y; TRI("-=", q, (U)a[k] - (U)b[k]) q = x; q &= y; TRI("&=", q, a[k] & b[k]) q = x; q |= y; TRI("|=", q, a[k] | b[k]) q = x; q ^= y; TRI("^=", q, a[k] ^ b[k])
      for (int s = 0; s < 32; ++s) { TRI("<<", x << s, (U)a[k] << s) TRI(">>", x >> s, (a[k] >> s)) q = x; q <<= s; TRI("<<=", q, (U)a[k] << s) q = x; q >>= s; TRI(">>=", q, (a[k] >> s)) } q = a[0]; TRI("= number", q, a[0]) V4si c(a[0]); TRI("from a number", c, a[0]) for (int k = 0; k < 4; ++k) { q = x; q.set(k, 4711); for (int l = 0; l < 4; ++l) if (q[l] != (l == k ? 4711 : a[l])) return "set changes another lane"; } V2df d = vcast<V2df>(x); for (int k = 0; k < 2; ++k) if (bits(d[k]) != ((uint64_t)(U)a[2*k+1] << 32 | (U)a[2*k])) return "vcast to doubles"; } o.put(i); return ""; }
  string run(size_t i, Out &o) override { if (i < F.size()) return real<V4sf, float, 4>(F, i, o); i -= F.size(); if (i < D.size()) return real<V2df, double, 2>(D, i, o); return ints(i - D.size(), o); }
};
int main(int argc, char **argv) { Registry r; r["calendar"] = [] { return new Calendar; }; r["memory"] = [] { return new Memory; }; r["cmem"] = [] { return new CMem; }; r["errors"] = [] { return new Errors; }; r["simd"] = [] { return new Simd; }; return main_(argc, argv, r); }
