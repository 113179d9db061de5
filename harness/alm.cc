// Expansion files (P10): every bounded file layout read through every interface; every bounded expansion written and read back.
#include "fix.hpp"
#include "ls_alm_fitsio.h"
#include "ls_fitshandle.h"
#include <algorithm>
using namespace vf; using namespace fix;
typedef levels::Alm<xcomplex<float> > AlmF; typedef levels::Alm<xcomplex<double> > AlmD;
typedef std::map<std::pair<int,int>, ref::C> Coefs;
static string path(const string &t) { return tmpfile(strf("%s_%d", t.c_str(), getpid())); }
struct Each : Suite { // every rank judges what it sees itself
  virtual string run(size_t i, int rank, MPI_Comm comm, Out &o) = 0;
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override { try { o.note = run(i, rank, comm, o); } catch (std::exception &e) { o.note = string("unexpected exception: ") + e.what(); } catch (levels::LEVELSError &e) { o.note = "unexpected LEVELSError"; } }
  string check(size_t, const vector<Out> &o) override { for (size_t r = 0; r < o.size(); ++r) if (o[r].note.size()) return strf("rank %zu: ", r) + o[r].note; return ""; }
};
static double val(unsigned k, int l, int m, int part) { static const double odd[] = {1/3., 1e-30, -2.7182818284590452e10, 3e-200, 0.1}; double c = coef(k, 0, l, m, part); return (hash(k + 31*l + 7*m + part) & 3) ? c : odd[hash(k*3 + l + m*5 + part) % 5] * (c + 0.5); }
// ---- what a file means -------------------------------------------------------------------------------
struct File { vector<fitsgen::Table> t; };
static void limits(const fitsgen::Table &t, int &F, int &G) { if (t.keys) { F = t.lkey; G = t.mkey; return; } F = G = -1; for (auto &r : t.rows) { F = std::max(F, r.l); G = std::max(G, r.m); } }
static Coefs coefs(const fitsgen::Table &t) { Coefs c; for (auto &r : t.rows) { bool dr = t.retype ? t.retype == 'D' : t.dbl, di = t.imtype ? t.imtype == 'D' : t.dbl; c[{r.l, r.m}] = ref::C(dr ? r.re : (float)r.re, di ? r.im : (float)r.im); } return c; }
template<class A> static string same(const A &a, const Coefs &c, int L, int M, const string &who) {
  if (a.Lmax() != L || a.Mmax() != M) return strf("%s: limits are %d, %d, expected %d, %d", who.c_str(), a.Lmax(), a.Mmax(), L, M);
  typedef typename std::remove_cv<typename std::remove_reference<decltype(a(0,0).re)>::type>::type T;
  for (int m = 0; m <= M; ++m) for (int l = m; l <= L; ++l) { auto it = c.find({l, m}); ref::C e = it == c.end() ? ref::C(0) : it->second; if (a(l, m).re != (T)e.real() || a(l, m).im != (T)e.imag()) return strf("%s: coefficient (%d,%d) is (%.17g, %.17g), expected (%.17g, %.17g)", who.c_str(), l, m, (double)a(l, m).re, (double)a(l, m).im, (double)(T)e.real(), (double)(T)e.imag()); }
  return "";
}
// every interface, every request up to hi
static string requests(const string &f, const File &x, int hi, MPI_Comm comm, Out &o, bool direct, const vector<int> &only = {}) {
  string e; Coefs c[3]; int F[3], G[3]; for (size_t k = 0; k < x.t.size(); ++k) { c[k] = coefs(x.t[k]); limits(x.t[k], F[k], G[k]); }
  vector<int> req = only; if (req.empty()) for (int l = -1; l <= hi; ++l) req.push_back(l);
  for (int pol = 0; pol < (x.t.size() == 3 ? 2 : 1); ++pol) {
    int FF = F[0], GG = G[0]; if (pol) { FF = std::max({0, F[0], F[1], F[2]}); GG = std::max({0, G[0], G[1], G[2]}); }
    if (FF < 0 || GG < 0) continue; // a file without limits
    for (int l : req) {
      bool ok = l <= FF; int L = l > 0 ? l : FF; string w; conviqt::sky s;
      { bool good = ok && GG >= L; w = strf("sky::read(lmax=%d, pol=%d)", l, pol); bool did = true; try { if (s.read(l, pol, f, 0, comm)) return w + " succeeded but returned a failure"; } catch (...) { did = false; } if (did != good) return w + (good ? " failed" : " did not fail") + strf(" (the file's limits are %d, %d)", FF, GG);
        if (good) { if ((e = same(s.slmT(), c[0], L, L, w + " T")).size()) return e; if (pol && ((e = same(s.slmG(), c[1], L, L, w + " G")).size() || (e = same(s.slmC(), c[2], L, L, w + " C")).size())) return e; o.put(s.slmT()(L, 0).re); } }
      for (int m : req) { bool good = ok && m <= GG; int M = m > 0 ? m : std::min(L, GG); if (M > L) good = false; w = strf("beam::read(lmax=%d, mmax=%d, pol=%d)", l, m, pol); conviqt::beam b; bool did = true; try { if (b.read(l, m, pol, f, comm)) return w + " succeeded but returned a failure"; } catch (...) { did = false; } if (did != good) return w + (good ? " failed" : " did not fail") + strf(" (the file's limits are %d, %d)", FF, GG);
        if (good) { if ((e = same(b.blmT(), c[0], L, M, w + " T")).size()) return e; if (pol && ((e = same(b.blmG(), c[1], L, M, w + " G")).size() || (e = same(b.blmC(), c[2], L, M, w + " C")).size())) return e; o.put(b.blmT()(L, M).re); } }
    }
  }
  if (!direct) return "";
  for (size_t k = 0; k < x.t.size(); ++k) {
    int a, b; levels::get_almsize(f, a, b, k + 2); if (a != F[k] || b != G[k]) return strf("get_almsize of HDU %zu is %d, %d, expected %d, %d", k + 2, a, b, F[k], G[k]);
    for (int l : req) for (int m : req) { if (l < 0 || m < 0 || m > l) continue; AlmD d(5, 3); levels::read_Alm_from_fits(f, d, l, m, k + 2); if ((e = same(d, c[k], l, m, strf("read_Alm_from_fits<double>(%d, %d, hdu %zu)", l, m, k + 2))).size()) return e; AlmF s; levels::read_Alm_from_fits(f, s, l, m, k + 2); if ((e = same(s, c[k], l, m, strf("read_Alm_from_fits<float>(%d, %d, hdu %zu)", l, m, k + 2))).size()) return e; }
  }
  if (x.t.size() == 3) { int a, b; levels::get_almsize_pol(f, a, b); if (a != std::max({0, F[0], F[1], F[2]}) || b != std::max({0, G[0], G[1], G[2]})) return strf("get_almsize_pol is %d, %d", a, b); AlmD t, g, cc; levels::read_Alm_from_fits(f, t, g, cc, 2, 1); if ((e = same(t, c[0], 2, 1, "polarised read T")).size() || (e = same(g, c[1], 2, 1, "polarised read G")).size() || (e = same(cc, c[2], 2, 1, "polarised read C")).size()) return e; }
  return "";
}
static const char *KEYN[] = {"both keywords", "no keywords", "only the keyword for l", "only the keyword for m", "keywords below the contents", "keywords above the contents"};
static void setkeys(fitsgen::Table &t, int mode, int F, int G) { t.lkey = F; t.mkey = G; t.keys = true; t.keysel = 3; if (mode == 1) t.keysel = 0, t.keys = false; if (mode == 2) t.keysel = 1, t.keys = false, t.lkey = F + 1; if (mode == 3) t.keysel = 2, t.keys = false, t.mkey = G + 1; if (mode == 4) { t.lkey = std::max(F - 1, 0); t.mkey = std::max(G - 1, 0); } if (mode == 5) { t.lkey = F + 1; t.mkey = G + 1; } }
static void reorder(vector<fitsgen::Row> &r, int order) { if (order == 1) std::reverse(r.begin(), r.end()); if (order == 2) std::stable_sort(r.begin(), r.end(), [](const fitsgen::Row &a, const fitsgen::Row &b) { return a.m < b.m; }); if (order == 3) { vector<fitsgen::Row> o; for (size_t i = 0, j = r.size(); i < j;) { o.push_back(r[i++]); if (i < j) o.push_back(r[--j]); } r = o; } }
struct Subsets : Each { // every subset of the coefficients in four row orders
  struct C { int F, G, sub, order, keys; bool dbl; int n; }; vector<C> c; vector<std::pair<int,int>> lm(int F, int G) { vector<std::pair<int,int>> v; for (int l = 0; l <= F; ++l) for (int m = 0; m <= std::min(l, G); ++m) v.push_back({l, m}); return v; }
  void prepare() override { for (int F = 0; F <= (thorough() ? 3 : 2); ++F) for (int G = 0; G <= F; ++G) { int n = lm(F, G).size(); for (int s = 0; s < (1 << n); ++s) for (int o = 0; o < 4; ++o) for (int k = 0; k < 6; ++k) for (int d = 0; d < 2; ++d) { if (F == 3 && (s + o*3 + k*5 + d) % 4) continue; int h = s*7 + o*3 + k + d; c.push_back({F, G, s, o, k, (bool)d, h % 5 == 1 ? 2 : h % 11 == 2 ? 3 : 1}); } } }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].n; }
  size_t batch() override { return 40; }
  string describe(size_t i) override { auto &x = c[i]; return strf("file with limits %d, %d, present coefficients %#x in order %d, %s, %s columns, on %d ranks", x.F, x.G, x.sub, x.order, KEYN[x.keys], x.dbl ? "double" : "single", x.n); }
  File make(size_t i) { auto &x = c[i]; auto v = lm(x.F, x.G); int n = v.size(), full = (1 << n) - 1; File f; for (int k = 0; k < 3; ++k) { int s = k == 0 ? x.sub : (x.sub*5 + 11*k) & full; fitsgen::Table t; t.dbl = x.dbl; for (int q = 0; q < n; ++q) if (s >> q & 1) t.rows.push_back({v[q].first, v[q].second, val(k + 3*x.sub, v[q].first, v[q].second, 0), v[q].second ? val(k + 3*x.sub, v[q].first, v[q].second, 1) : 0}); reorder(t.rows, x.order); setkeys(t, x.keys, x.F, x.G); f.t.push_back(t); } return f; }
  string run(size_t i, int rank, MPI_Comm comm, Out &o) override { File f = make(i); string p = tmpfile(strf("sub%zu_%d_%d", i, rank, getpid())); if (rank == 0) fitsgen::write(p, f.t); string e = requests(p, f, c[i].F + 1, comm, o, rank == 0 && c[i].n == 1); if (rank == 0) unlink(p.c_str()); return e; }
};
struct Columns : Each { // several values per row, column types, further columns
  struct C { int F, G, drop, rep, order, keys; char it, rt, mt; bool extra; int n; }; vector<C> c;
  void prepare() override { int q = 0; for (int F = 1; F <= 4; ++F) for (int G = 0; G <= F; ++G) for (int rep = 1; rep <= 7; ++rep) for (int order = 0; order < 4; ++order) for (int keys = 0; keys < 2; ++keys) for (char it : {'I', 'J', 'K'}) for (int v = 0; v < 4; ++v) for (int ex = 0; ex < 2; ++ex) { int n = 0; for (int l = 0; l <= F; ++l) n += std::min(l, G) + 1; if (n < rep) continue; if (!thorough() && q % 3) { ++q; continue; } c.push_back({F, G, n % rep, rep, order, keys, it, v & 1 ? 'D' : 'E', v & 2 ? 'D' : 'E', (bool)ex, q++ % 10 == 3 ? 2 : 1}); } }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].n; }
  size_t batch() override { return 40; }
  string describe(size_t i) override { auto &x = c[i]; return strf("file with limits %d, %d, %d values of types %c, %c, %c in each row, %d coefficients absent, order %d, %s%s, on %d ranks", x.F, x.G, x.rep, x.it, x.rt, x.mt, x.drop, x.order, KEYN[x.keys], x.extra ? ", a further column" : "", x.n); }
  string run(size_t i, int rank, MPI_Comm comm, Out &o) override { auto &x = c[i]; File f; for (int k = 0; k < 3; ++k) { fitsgen::Table t; t.rep = x.rep; t.itype = x.it; t.retype = x.rt; t.imtype = x.mt; t.extra = x.extra; int skip = x.drop; for (int l = 0; l <= x.F; ++l) for (int m = 0; m <= std::min(l, x.G); ++m) { if (skip && !(l == x.F && m == x.G)) { --skip; continue; } t.rows.push_back({l, m, val(k + i, l, m, 0), m ? val(k + i, l, m, 1) : 0}); } reorder(t.rows, x.order); setkeys(t, x.keys, x.F, x.G); f.t.push_back(t); }
    string p = tmpfile(strf("co%zu_%d_%d", i, rank, getpid())); if (rank == 0) fitsgen::write(p, f.t); string e = requests(p, f, x.F + 1, comm, o, rank == 0 && x.n == 1); if (rank == 0) unlink(p.c_str()); return e; }
};
struct CompLim : Each { // components with different limits
  struct C { int a, b, c, keys; int n; }; vector<C> c; vector<std::pair<int,int>> L = {{0,0},{1,0},{1,1},{2,0},{2,1},{2,2},{3,1}};
  void prepare() override { int n = thorough() ? 7 : 6, q = 0; for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int d = 0; d < n; ++d) for (int k = 0; k < 8; ++k) c.push_back({a, b, d, k, (q++ % 7) == 3 ? 2 : 1}); }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].n; }
  string describe(size_t i) override { auto &x = c[i]; return strf("components with limits %d,%d / %d,%d / %d,%d, size keywords in components %#x, on %d ranks", L[x.a].first, L[x.a].second, L[x.b].first, L[x.b].second, L[x.c].first, L[x.c].second, x.keys, x.n); }
  string run(size_t i, int rank, MPI_Comm comm, Out &o) override { auto &x = c[i]; File f; int id[3] = {x.a, x.b, x.c}; for (int k = 0; k < 3; ++k) { int F = L[id[k]].first, G = L[id[k]].second; fitsgen::Table t; for (int l = 0; l <= F; ++l) for (int m = 0; m <= std::min(l, G); ++m) t.rows.push_back({l, m, coef(i, k, l, m, 0) + 5, m ? coef(i, k, l, m, 1) + 5 : 0}); reorder(t.rows, i % 4); setkeys(t, x.keys >> k & 1 ? 0 : 1 + (i + k) % 3, F, G); f.t.push_back(t); }
    string p = tmpfile(strf("cl%zu_%d_%d", i, rank, getpid())); if (rank == 0) fitsgen::write(p, f.t); string e = requests(p, f, 4, comm, o, rank == 0 && x.n == 1); if (rank == 0) unlink(p.c_str()); return e; }
};
struct Chunk : Each { // row counts around multiples of the read chunk
  struct C { int rows, order, keys; bool dbl; int n; }; vector<C> c;
  static long chunk(bool dbl) { fitsgen::Table t; t.dbl = dbl; t.rows.push_back({0, 0, 1, 0}); t.lkey = t.mkey = 0; string p = path("probe"); fitsgen::write(p, {t}); levels::fitshandle h; h.open(p); h.goto_hdu(2); long r = h.efficientChunkSize(1); h.close(); unlink(p.c_str()); return r; }
  void prepare() override { for (int d = 0; d < 2; ++d) { long k = chunk(d); vector<long> n; for (long q = 1; q <= 3; ++q) for (long s = -1; s <= 1; ++s) n.push_back(q*k + s); if (thorough()) for (long s = -40; s <= 40; ++s) if (s) n.push_back(k*4 + s); for (long r : n) for (int o = 0; o < 5; ++o) for (int key = 0; key < 2; ++key) c.push_back({(int)r, o, key, (bool)d, (r + o) % 4 == 1 ? 2 : 1}); } }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].n; }
  size_t batch() override { return 4; }
  double timeout() override { return 120; }
  string describe(size_t i) override { auto &x = c[i]; return strf("file with %d rows in order %d, %s, %s columns, on %d ranks", x.rows, x.order, x.keys ? "no keywords" : "both keywords", x.dbl ? "double" : "single", x.n); }
  string run(size_t i, int rank, MPI_Comm comm, Out &o) override { auto &x = c[i]; File f; fitsgen::Table t; t.dbl = x.dbl; int F = 0; for (int l = 0; (int)t.rows.size() < x.rows; ++l) for (int m = 0; m <= l && (int)t.rows.size() < x.rows; ++m) { t.rows.push_back({l, m, coef(5, 0, l, m, 0) + 6, m ? coef(5, 0, l, m, 1) + 6 : 0}); F = l; } int G = 0; for (auto &r : t.rows) G = std::max(G, r.m);
    if (x.order == 4) std::rotate(t.rows.begin(), t.rows.begin() + x.rows/2 + 1, t.rows.end()); else reorder(t.rows, x.order); setkeys(t, x.keys, F, G); f.t.push_back(t);
    string p = tmpfile(strf("ck%zu_%d_%d", i, rank, getpid())); if (rank == 0) fitsgen::write(p, f.t); string e = requests(p, f, 0, comm, o, rank == 0 && x.n == 1, {-1, F/2, G, F, F + 1}); if (rank == 0) unlink(p.c_str()); return e; }
};
// ---- writing -----------------------------------------------------------------------------------------
static string readrows(const string &p, int hdu, Coefs &c, int &lk, int &mk) { // independent reader
  fitsfile *f; int st = 0, ty; if (fits_open_file(&f, p.c_str(), READONLY, &st)) return "cannot open the file"; fits_movabs_hdu(f, hdu, &ty, &st); long n = 0; fits_get_num_rows(f, &n, &st); { int ty1, ty2, ty3; long r1 = 0, r2 = 0, r3 = 0, w; fits_get_coltype(f, 1, &ty1, &r1, &w, &st); fits_get_coltype(f, 2, &ty2, &r2, &w, &st); fits_get_coltype(f, 3, &ty3, &r3, &w, &st); if (!st && (r1 != r2 || r1 != r3)) { int s2 = 0; fits_close_file(f, &s2); return strf("a row holds %ld indices, %ld real parts and %ld imaginary parts", r1, r2, r3); } n *= r1; } vector<int> ix(n); vector<double> re(n), im(n); int any; if (n && !st) { fits_read_col(f, TINT, 1, 1, 1, n, 0, ix.data(), &any, &st); fits_read_col(f, TDOUBLE, 2, 1, 1, n, 0, re.data(), &any, &st); fits_read_col(f, TDOUBLE, 3, 1, 1, n, 0, im.data(), &any, &st); }
  lk = mk = -1; fits_read_key(f, TINT, "MAX-LPOL", &lk, 0, &st); fits_read_key(f, TINT, "MAX-MPOL", &mk, 0, &st); int s2 = 0; fits_close_file(f, &s2); if (st) return strf("the file written cannot be read (status %d)", st);
  for (long i = 0; i < n; ++i) { int k = ix[i] - 1, l = 0; if (k < 0) return strf("row %ld has index %d", i, ix[i]); while ((l+1)*(l+1) <= k) ++l; int m = k - l*l - l; if (m < 0 || m > l) return strf("row %ld has index %d", i, ix[i]); if (!c.insert({{l, m}, ref::C(re[i], im[i])}).second) return strf("coefficient (%d,%d) is stored twice", l, m); }
  return ""; }
struct WriteBack : Each {
  // entry values by digit: 0, dyadic, a third, tiny, purely imaginary (m>0), tiny imaginary
  struct C { int L, M, l, m; bool dbl, fdbl, compressed; unsigned code; int base; bool three; }; vector<C> c;
  int pairs(int L, int M) { int n = 0; for (int l = 0; l <= L; ++l) n += std::min(l, M) + 1; return n; }
  void prepare() override {
    auto add = [&](int L, int M, int base, bool many) { int n = pairs(L, M); size_t tot = 1; for (int q = 0; q < n; ++q) tot *= base; for (size_t code = 0; code < tot; ++code) for (int l = 0; l <= L + 2; ++l) for (int m = 0; m <= std::min(l, M + 2); ++m) for (int t = 0; t < 8; ++t) { if (!many && (code*5 + l*3 + m + t*7) % 4) continue; c.push_back({L, M, l, m, bool(t & 1), bool(t & 2), bool(t & 4), (unsigned)code, base, (code + l + m) % 9 == 2}); } };
    add(0, 0, 6, true); add(1, 0, 6, true); add(1, 1, 6, true); add(2, 1, 2, true); add(2, 2, 2, true); if (thorough()) { add(3, 1, 2, true); add(2, 0, 6, true); add(3, 3, 2, false); add(2, 1, 4, false); }
  }
  size_t size() override { return c.size(); }
  size_t batch() override { return 200; }
  string describe(size_t i) override { auto &x = c[i]; return strf("%s %s expansion with lmax=%d mmax=%d (values %u base %d) written with limits %d, %d to %s columns", x.compressed ? "compressed" : "complete", x.dbl ? "double" : "single", x.L, x.M, x.code, x.base, x.l, x.m, x.fdbl ? "double" : "single"); }
  template<class A> string go(const C &x, Out &o) {
    typedef typename std::remove_reference<decltype(std::declval<A>()(0,0).re)>::type T; A a[3]; Coefs want[3], full; string e;
    for (int k = 0; k < (x.three ? 3 : 1); ++k) { a[k].Set(x.L, x.M); unsigned code = x.code + k; for (int l = 0; l <= x.L; ++l) for (int m = 0; m <= std::min(l, x.M); ++m) { int d = code % x.base; code /= x.base; if (x.base == 2 && d) d = 1 + (l + m + k) % 2; double tiny = x.dbl ? (x.fdbl ? 1e-200 : 1e-30) : 1e-30, re = d == 1 ? 1.5 + l : d == 2 ? 1/3. + m : d == 3 ? -tiny : 0, im = !m ? 0 : d == 1 ? -0.25 : d == 4 ? 2.5 : d == 5 ? tiny : 0; a[k](l, m).Set((T)re, (T)im); if (l <= x.l && m <= x.m) { double r2 = (T)re, i2 = (T)im; if (!x.fdbl) r2 = (float)r2, i2 = (float)i2; if (r2 != 0 || i2 != 0) want[k][{l, m}] = ref::C(r2, i2); } } }
    string p = path("wb"); unlink(p.c_str()); levels::PDT pdt = x.fdbl ? levels::LEVELS_FLOAT64 : levels::LEVELS_FLOAT32;
    if (x.three && !x.compressed) levels::write_Alm_to_fits(p, a[0], a[1], a[2], x.l, x.m, pdt);
    else { levels::fitshandle h; h.create(p); for (int k = 0; k < (x.three ? 3 : 1); ++k) if (x.compressed) levels::write_compressed_Alm_to_fits(h, a[k], x.l, x.m, pdt); else levels::write_Alm_to_fits(h, a[k], x.l, x.m, pdt); }
    for (int k = 0; k < (x.three ? 3 : 1) && e.empty(); ++k) {
      Coefs got; int lk, mk; e = readrows(p, k + 2, got, lk, mk); if (e.size()) break; int ml = 0, mm = 0; for (auto &g : got) { auto it = want[k].find(g.first); ref::C v = it == want[k].end() ? ref::C(0) : it->second; if (g.second != v) { e = strf("the stored coefficient (%d,%d) is (%.17g, %.17g), expected (%.17g, %.17g)", g.first.first, g.first.second, g.second.real(), g.second.imag(), v.real(), v.imag()); break; } if (g.first.first > x.l || g.first.second > x.m) { e = "a coefficient beyond the limits was stored"; break; } }
      if (e.empty()) for (auto &w : want[k]) { ml = std::max(ml, w.first.first); mm = std::max(mm, w.first.second); if (!got.count(w.first)) { e = strf("coefficient (%d,%d) = (%g, %g) was not stored", w.first.first, w.first.second, w.second.real(), w.second.imag()); break; } }
      if (e.empty() && !x.compressed && (lk != x.l || mk != x.m)) e = strf("the size keywords are %d, %d", lk, mk);
      if (e.empty() && x.compressed && (lk < ml || mk < mm || lk > x.l || mk > x.m)) e = strf("the size keywords are %d, %d but the largest indices stored are %d, %d", lk, mk, ml, mm);
      if (e.empty() && x.compressed && got.size() > want[k].size() + 0u && x.fdbl) e = "zeros were stored";
      for (int l = 0; l <= x.l + 1 && e.empty(); ++l) for (int m = 0; m <= l && m <= x.m + 1 && e.empty(); ++m) { A b; levels::read_Alm_from_fits(p, b, l, m, k + 2); e = same(b, want[k], l, m, strf("read back with limits %d, %d", l, m)); }
      o.put(got.size()*100.0 + lk*10 + mk);
    }
    unlink(p.c_str()); return e; }
  string run(size_t i, int rank, MPI_Comm, Out &o) override { if (rank) return ""; auto &x = c[i]; return x.dbl ? go<AlmD>(x, o) : go<AlmF>(x, o); }
};
struct WriteLong : Each { // more coefficients than one chunk, sparse or not
  struct C { int L, M, step; bool compressed, fdbl; }; vector<C> c;
  void prepare() override { for (int L : {60, 104, 105, 106, 134, 135, 136, 137, 138, 150, 200}) for (int M : {0, 3, 50, L}) for (int step : {1, 2, 7, 5000}) for (int t = 0; t < 4; ++t) { if (!thorough() && step == 2 && M == 50) continue; c.push_back({L, std::min(M, L), step, bool(t & 1), bool(t & 2)}); } }
  size_t size() override { return c.size(); }
  size_t batch() override { return 8; }
  double timeout() override { return 120; }
  string describe(size_t i) override { auto &x = c[i]; return strf("%s expansion with lmax=%d mmax=%d and every %dth coefficient nonzero written to %s columns", x.compressed ? "compressed" : "complete", x.L, x.M, x.step, x.fdbl ? "double" : "single"); }
  string run(size_t i, int rank, MPI_Comm, Out &o) override {
    if (rank) return ""; auto &x = c[i]; AlmF a(x.L, x.M); a.SetToZero(); Coefs w; int q = 0, ml = 0, mm = 0; for (int l = 0; l <= x.L; ++l) for (int m = 0; m <= std::min(l, x.M); ++m) if (q++ % x.step == 0) { float re = 1 + l/256.f, im = m ? -m/8.f : 0; a(l, m).Set(re, im); w[{l, m}] = ref::C(re, im); ml = std::max(ml, l); mm = std::max(mm, m); }
    string p = path("wl"); unlink(p.c_str()); { levels::fitshandle h; h.create(p); auto pdt = x.fdbl ? levels::LEVELS_FLOAT64 : levels::LEVELS_FLOAT32; if (x.compressed) levels::write_compressed_Alm_to_fits(h, a, x.L, x.M, pdt); else levels::write_Alm_to_fits(h, a, x.L, x.M, pdt); }
    Coefs got; int lk, mk; string e = readrows(p, 2, got, lk, mk); if (e.empty() && x.compressed && got != w) e = strf("%zu coefficients stored, expected %zu", got.size(), w.size()); AlmF b; if (e.empty()) { levels::read_Alm_from_fits(p, b, x.L, x.M); e = same(b, w, x.L, x.M, "read back"); } conviqt::beam bm; if (e.empty()) { bm.read(0, 0, false, p, MPI_COMM_SELF); e = same(bm.blmT(), w, x.compressed ? bm.get_lmax() : x.L, x.compressed ? bm.get_mmax() : x.M, "read as a beam"); if (e.empty() && (bm.get_lmax() < ml || bm.get_mmax() < mm)) e = strf("the beam read back has limits %d, %d", bm.get_lmax(), bm.get_mmax()); }
    o.put(got.size()); unlink(p.c_str()); return e; }
};
int main(int argc, char **argv) {
  Registry reg;
  reg["subsets"] = [] { return new Subsets; }; reg["complim"] = [] { return new CompLim; }; reg["columns"] = [] { return new Columns; }; reg["chunk"] = [] { return new Chunk; }; reg["writeback"] = [] { return new WriteBack; }; reg["writelong"] = [] { return new WriteLong; };
  return main_(argc, argv, reg);
}
