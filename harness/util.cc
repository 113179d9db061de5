// Sort helpers and work partitioning (P19).
#include "pure.hpp"
#include "conviqt.hpp"
#undef pi
#include "ls_share_utils.h"
#include <algorithm>
#include <limits>
using namespace vf; using levels::arr;
static const char *FN[] = {"hpsort_arrTheta", "hpsort_arrTOD", "hpsort_arrTime", "hpsort_DL", "hpsort_DDcm"};
static const int COL[] = {1, 3, 4};
// keys in, every row carries its number; dup: payloads repeat as well
static string sorttest(int f, const vector<double> &keys, Out &o) {
  size_t n = keys.size(); auto say = [&](const char *m) { string s = strf("%s of %zu keys (", FN[f], n); for (size_t i = 0; i < n && i < 40; ++i) s += strf(" %g", keys[i]); return s + " ): " + m; };
  vector<char> seen(n, 0);
  auto judge = [&](size_t i, double key, double id, double prev) -> const char * { if (!(id >= 0 && id < n) || id != std::floor(id)) return "an item appears that was not there"; if (seen[(size_t)id]++) return "an item is duplicated"; double want = keys[(size_t)id]; if (!(key == want && std::signbit(key) == std::signbit(want))) return "a key was separated from its row"; if (i && !(prev <= key)) return "the keys are not in order"; return 0; };
  if (f < 3) { arr<double> a(5*n); int c = COL[f]; for (size_t i = 0; i < n; ++i) for (int k = 0; k < 5; ++k) a[5*i + k] = k == c ? keys[i] : (double)i + 1000*k; if (f == 0) conviqt::hpsort_arrTheta(a); else if (f == 1) conviqt::hpsort_arrTOD(a); else conviqt::hpsort_arrTime(a); if (a.size() != 5*n) return say("the size changed");
    for (size_t i = 0; i < n; ++i) { double id = a[5*i]; if (c == 0) id = a[5*i + 2] - 2000; for (int k = 0; k < 5; ++k) if (k != c && a[5*i + k] != id + 1000*k) return say("a row was torn apart"); o.put(id); auto e = judge(i, a[5*i + c], id, i ? a[5*(i-1) + c] : 0); if (e) return say(e); } }
  else if (f == 3) { arr<double> a(n); arr<long> b(n); for (size_t i = 0; i < n; ++i) { a[i] = keys[i]; b[i] = i; } conviqt::hpsort_DL(a, b); if (a.size() != n || b.size() != n) return say("the size changed"); for (size_t i = 0; i < n; ++i) { o.put(b[i]); auto e = judge(i, a[i], b[i], i ? a[i-1] : 0); if (e) return say(e); } }
  else { arr<double> a(n), b(n); for (size_t i = 0; i < n; ++i) { a[i] = keys[i]; b[i] = i; } conviqt::hpsort_DDcm(a, b); if (a.size() != n || b.size() != n) return say("the size changed"); for (size_t i = 0; i < n; ++i) { o.put(b[i]); auto e = judge(i, a[i], b[i], i ? a[i-1] : 0); if (e) return say(e); } }
  return "";
}
struct Sort : Pure { // each case: one function, one block of key sequences
  struct C { int f, kind, n, k; }; vector<C> c; size_t count(const C &x) { size_t r = 1; if (x.kind == 0) for (int i = 0; i < x.n; ++i) r *= x.k; else if (x.kind == 1) for (int i = 2; i <= x.n; ++i) r *= i; return r; }
  size_t nseq = 0;
  void prepare() override { bool T = thorough(); for (int f = 0; f < 5; ++f) {
      for (int n = 0; n <= 1; ++n) c.push_back({f, 0, n, 2}); for (int k = 2; k <= 6; ++k) for (int n = 2; n <= 18; ++n) if (std::pow(k, n) <= (T ? 2e6 : 7e4)) c.push_back({f, 0, n, k}); // every sequence over k keys
      for (int n = 2; n <= (T ? 10 : 8); ++n) c.push_back({f, 1, n, 0}); // every order of distinct keys
      for (int n = 9; n <= (T ? 140 : 70); ++n) c.push_back({f, 2, n, 0}); // up to three runs
      for (int n : {100, 257, 1000, 4099, 20011}) if (n <= 1000 || T) c.push_back({f, 3, n, 0}); } }
  size_t size() override { return c.size(); } double timeout() override { return 120; } size_t batch() override { return 8; }
  string describe(size_t i) override { auto &x = c[i]; static const char *K[] = {"every sequence", "every permutation", "all sequences of up to three runs", "structured sequences"}; return strf("%s: %s of %d keys (alphabet %d)", FN[x.f], K[x.kind], x.n, x.k); }
  bool nontrivial(size_t i) override { return c[i].n > 1; }
  string run(size_t i, Out &o) override { auto &x = c[i]; static const double A[] = {0.5, 1.5, -0.0, -2.25, 0.0, 1e300}; string e; vector<double> k(x.n); Out tmp;
    auto go = [&]() { tmp.d.clear(); e = sorttest(x.f, k, tmp); double h = 0; for (size_t q = 0; q < tmp.d.size(); ++q) h += tmp.d[q] * (q + 1); if (o.d.size() < 400) o.put(h); return e.size() > 0; };
    if (x.kind == 0) { size_t N = count(x); for (size_t s = 0; s < N; ++s) { size_t r = s; for (int q = 0; q < x.n; ++q) { k[q] = A[r % x.k]; r /= x.k; } if (go()) return e; } }
    else if (x.kind == 1) { vector<int> p(x.n); for (int q = 0; q < x.n; ++q) p[q] = q; do { for (int q = 0; q < x.n; ++q) k[q] = p[q]*0.3 - 1; if (go()) return e; } while (std::next_permutation(p.begin(), p.end())); }
    else if (x.kind == 2) { int n = x.n; for (int a = 0; a <= n; a += (n > 30 ? 3 : 1)) for (int b = a; b <= n; b += (n > 30 ? 5 : 2)) for (int d = 0; d < 27; ++d) { int dd[3] = {d % 3 - 1, d/3 % 3 - 1, d/9 - 1}; for (int q = 0; q < n; ++q) { int s = q < a ? 0 : q < b ? 1 : 2, st = s == 0 ? 0 : s == 1 ? a : b; k[q] = dd[s]*(q - st) + s*2; } if (go()) return e; } }
    else { int n = x.n; for (int step = 1; step < 60; ++step) { for (int m : {n, n/2 + 1, 7, 2}) { for (int q = 0; q < n; ++q) k[q] = ((long)q*step*step + q*3) % m; if (go()) return e; } } for (int q = 0; q < n; ++q) k[q] = std::min(q, n - q); if (go()) return e; for (int q = 0; q < n; ++q) k[q] = std::max(q, n - q); if (go()) return e; }
    return ""; }
};
// ranges and chunks
struct Part : Pure {
  struct C { int64_t lo, len; }; vector<C> c;
  void prepare() override { int N = thorough() ? 300 : 130; for (int64_t lo : {0ll, 1ll, -1ll, -17ll, 1000003ll, -(1ll << 40), 1ll << 61}) for (int64_t len = 1; len <= N; ++len) c.push_back({lo, len}); for (int64_t b : {1ll << 31, 1ll << 32, 1ll << 40, (1ll << 60)}) for (int d = -3; d <= 3; ++d) for (int64_t lo : {0ll, -5ll, 7ll}) c.push_back({lo, b + d}); }
  size_t size() override { return c.size(); } size_t batch() override { return 200; }
  string describe(size_t i) override { return strf("range of %lld items from %lld", (long long)c[i].len, (long long)c[i].lo); }
  string run(size_t i, Out &o) override { auto &x = c[i]; 
    for (int64_t n = 1; n <= 140; ++n) { int64_t at = x.lo; for (int64_t s = 0; s < n; ++s) { int64 lo, hi; levels::calcShareGeneral(x.lo, x.lo + x.len, n, s, lo, hi); if (lo != at) return strf("share %lld of %lld starts at %lld, expected %lld", (long long)s, (long long)n, (long long)lo, (long long)at); int64_t q = hi - lo; if (q < x.len/n || q > x.len/n + (x.len % n ? 1 : 0)) return strf("share %lld of %lld has %lld items", (long long)s, (long long)n, (long long)q); at = hi; o.put(s == 0 ? q : 0); if (o.d.size() > 300) o.d.resize(300); } if (at != x.lo + x.len) return strf("%lld shares end at %lld", (long long)n, (long long)at); }
    if (x.lo == 0) { vector<uint64_t> ch; if (x.len <= 4096) for (int64_t k = 1; k <= x.len + 3; ++k) ch.push_back(k); else for (int64_t k : {x.len/7, x.len/3, x.len/2, x.len - 1, x.len, x.len + 1, x.len*2}) ch.push_back(k); ch.push_back(1ull << 62);
      for (uint64_t k : ch) { levels::chunkMaker m(x.len, k); uint64_t at = 0, cnt = 0; uint64 st = 7, sz = 7; if (m.nchunks() != ((uint64_t)x.len + k - 1)/k) return strf("chunk size %llu: %llu chunks announced", (unsigned long long)k, (unsigned long long)m.nchunks()); while (m.getNext(st, sz)) { if (st != at) return strf("chunk size %llu: a chunk starts at %llu, expected %llu", (unsigned long long)k, (unsigned long long)st, (unsigned long long)at); if (sz == 0 || sz > k) return strf("chunk size %llu: a chunk has %llu items", (unsigned long long)k, (unsigned long long)sz); at += sz; if (at < (uint64_t)x.len && sz != k) return strf("chunk size %llu: a chunk in the middle has %llu items", (unsigned long long)k, (unsigned long long)sz); if (++cnt > (uint64_t)x.len) return "too many chunks"; } if (at != (uint64_t)x.len) return strf("chunk size %llu: the chunks end at %llu", (unsigned long long)k, (unsigned long long)at); if (cnt != m.nchunks()) return strf("chunk size %llu: %llu chunks, announced %llu", (unsigned long long)k, (unsigned long long)cnt, (unsigned long long)m.nchunks()); if (m.getNext(st, sz)) return "a further chunk after the end"; } }
    return ""; }
};
int main(int argc, char **argv) { Registry reg; reg["sort"] = [] { return new Sort; }; reg["part"] = [] { return new Part; }; return main_(argc, argv, reg); }
