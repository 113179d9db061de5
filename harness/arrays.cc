// Array containers (P22): every sequence of operations on two objects of each class against a model.
#include "pure.hpp"
#include "ls_arr.h"
#include "ls_alm.h"
#include "ls_xcomplex.h"
#include <malloc.h>
#include <memory>
using namespace vf; using namespace levels;

// an element type that knows whether it is alive
struct Tr { static long live; unsigned magic; int v; Tr() : magic(0xA11FE), v(-77) { ++live; } Tr(int x) : magic(0xA11FE), v(x) { ++live; } Tr(const Tr &o) : magic(0xA11FE), v(o.v) { if (o.magic != 0xA11FE) throw std::runtime_error("a dead element was copied"); ++live; } ~Tr() { if (magic != 0xA11FE) bad = true; magic = 0xDEAD; --live; }
  Tr &operator=(const Tr &o) { if (magic != 0xA11FE || o.magic != 0xA11FE) throw std::runtime_error("a dead element was assigned"); v = o.v; return *this; }
  Tr &operator*=(const Tr &o) { v *= o.v; return *this; } bool operator==(const Tr &o) const { return v == o.v; } bool operator!=(const Tr &o) const { return v != o.v; } bool operator<(const Tr &o) const { return v < o.v; } bool operator>(const Tr &o) const { return v > o.v; } static bool bad; };
long Tr::live = 0; bool Tr::bad = false;
static int val(int x) { return x; } static int val(const Tr &x) { return x.v; }

struct Buf { vector<int> v; vector<char> def; explicit Buf(size_t n = 0) : v(n, 0), def(n, 0) {} bool all(size_t n) const { for (size_t i = 0; i < n; ++i) if (!def[i]) return false; return true; } };
typedef std::shared_ptr<Buf> PBuf;

template<class A> struct Make { static const bool foreign = false; static A *view(void *, size_t) { return 0; } };
template<> struct Make<arr<int> > { static const bool foreign = true; static arr<int> *view(int *p, size_t n) { return new arr<int>(p, n); } };

static const char *X2[] = {"A", "B"};
// ---- one-dimensional arrays
template<class A, class T, int align> struct One {
  struct M { PBuf b; size_t n; }; A *a[2]; M m[2]; T *mem; PBuf memb; int next;
  static const int NOPS = 24;
  One() { next = 1; mem = 0; for (int k = 0; k < 2; ++k) { a[k] = new A; m[k].b = std::make_shared<Buf>(0); m[k].n = 0; } if (Make<A>::foreign) { mem = new T[4]; memb = std::make_shared<Buf>(4); for (int i = 0; i < 4; ++i) { mem[i] = T(-10 - i); memb->v[i] = -10 - i; memb->def[i] = 1; } } }
  ~One() { delete a[0]; delete a[1]; delete[] mem; }
  static string name(int op) { static const char *N[] = {"alloc(0)", "alloc(2)", "alloc(3)", "resize(0)", "resize(1)", "resize(2)", "resize(4)", "dealloc()", "allocAndFill(3)", "allocAndFill(2)", "fill", "write last", "write first", "= other", "= itself", "transfer(other)", "swap(other)", "copyFrom(2)", "copyFromPtr(3)", "copy-construct from other", "construct(2)", "construct(3,value)", "view of 4 foreign", "view of 2 foreign"}; return string(X2[op % 2]) + "." + N[op / 2]; }
  void renew(int k, size_t n) { m[k].b = std::make_shared<Buf>(n); m[k].n = n; }
  void undef(int k) { for (size_t i = 0; i < m[k].n; ++i) m[k].b->def[i] = 0; }
  void modalloc(int k, size_t n) { if (n != m[k].n) renew(k, n); else undef(k); }
  void set(int k, size_t i, int v) { m[k].b->v[i] = v; m[k].b->def[i] = 1; }
  void make(int k, A *p) { delete a[k]; a[k] = p; }
  bool apply(int op) { int k = op % 2; A &x = *a[k], &y = *a[1 - k]; M &mx = m[k], &my = m[1 - k];
    switch (op / 2) {
      case 0: case 1: case 2: { size_t n = op/2 ? op/2 + 1 : 0; x.alloc(n); modalloc(k, n); break; }
      case 3: case 4: case 5: case 6: { size_t n = op/2 == 6 ? 4 : op/2 - 3; x.resize(n); if (n != mx.n) { M o = mx; renew(k, n); for (size_t i = 0; i < std::min(n, o.n); ++i) { mx.b->v[i] = o.b->v[i]; mx.b->def[i] = o.b->def[i]; } } break; }
      case 7: x.dealloc(); renew(k, 0); break;
      case 8: case 9: { size_t n = op/2 == 8 ? 3 : 2; int v = next++; x.allocAndFill(n, T(v)); modalloc(k, n); for (size_t i = 0; i < n; ++i) set(k, i, v); break; }
      case 10: { int v = next++; x.fill(T(v)); for (size_t i = 0; i < mx.n; ++i) set(k, i, v); break; }
      case 11: case 12: { if (!mx.n) return false; int v = next++; size_t i = op/2 == 11 ? mx.n - 1 : 0; x[i] = T(v); set(k, i, v); break; }
      case 13: { x = y; Buf c = *my.b; size_t n = my.n; modalloc(k, n); for (size_t i = 0; i < n; ++i) { mx.b->v[i] = c.v[i]; mx.b->def[i] = c.def[i]; } break; }
      case 14: { A &z = x; x = z; break; }
      case 15: x.transfer(y); mx = my; renew(1 - k, 0); break;
      case 16: x.swap(y); std::swap(mx, my); break;
      case 17: { vector<int> w; w.push_back(next++); w.push_back(next++); x.copyFrom(w); modalloc(k, 2); for (size_t i = 0; i < 2; ++i) set(k, i, w[i]); break; }
      case 18: { int w[3]; for (auto &q : w) q = next++; x.copyFromPtr(w, 3); modalloc(k, 3); for (size_t i = 0; i < 3; ++i) set(k, i, w[i]); break; }
      case 19: { make(k, new A(y)); size_t n = my.n; Buf c = *my.b; renew(k, n); for (size_t i = 0; i < n; ++i) { mx.b->v[i] = c.v[i]; mx.b->def[i] = c.def[i]; } break; }
      case 20: make(k, new A(2)); renew(k, 2); break;
      case 21: { int v = next++; make(k, new A(3, T(v))); renew(k, 3); for (size_t i = 0; i < 3; ++i) set(k, i, v); break; }
      case 22: case 23: { if (!Make<A>::foreign) return false; size_t n = op/2 == 22 ? 4 : 2; make(k, Make<A>::view(mem, n)); mx.b = memb; mx.n = n; break; } }
    return true; }
  bool full; string check() { for (int k = 0; k < 2; ++k) { A &x = *a[k]; const A &c = x; M &q = m[k]; size_t n = q.n; string w = string(X2[k]) + ": ";
      if (x.size() != n) return w + strf("size %zu, expected %zu", (size_t)x.size(), n);
      if ((size_t)(x.end() - x.begin()) != n || c.begin() != x.begin() || c.end() != x.end() || (n == 0) != (x.begin() == 0)) return w + "begin() and end() do not enclose the elements";
      if (align && ((size_t)x.begin() % align)) return w + "not aligned";
      for (size_t i = 0; i < n; ++i) if (q.b->def[i]) { if (val(x[i]) != q.b->v[i] || val(c[(int)i]) != q.b->v[i] || val(x.begin()[i]) != q.b->v[i]) return w + strf("element %zu is %d, expected %d", i, val(x[i]), q.b->v[i]); }
      if (mem && q.b == memb && x.begin() != (void *)mem) return w + "no longer uses the memory it was given";
      if (q.b->all(n)) { vector<T> t; x.copyTo(t); if (t.size() != n) return w + "copyTo gives a wrong size"; for (size_t i = 0; i < n; ++i) if (val(t[i]) != q.b->v[i]) return w + "copyTo gives wrong elements";
        int lo = 0, hi = 0; for (size_t i = 0; i < n; ++i) { if (!i || q.b->v[i] < lo) lo = q.b->v[i]; if (!i || q.b->v[i] > hi) hi = q.b->v[i]; }
        if (n || full) try { T l, h; x.minmax(l, h); if (!n) return w + "minmax of an empty array succeeds"; if (val(l) != lo || val(h) != hi) return w + strf("minmax gives %d..%d", val(l), val(h)); } catch (LEVELSError &) { if (n) return w + "minmax fails"; }
        for (int v = -14; v <= next; ++v) { size_t at = 0; while (at < n && q.b->v[at] != v) ++at; if (c.contains(T(v)) != (at < n)) return w + "contains is wrong"; if (at < n && c.find(T(v)) != at) return w + "find is wrong"; }
      } }
    if (m[0].b->all(m[0].n) && m[1].b->all(m[1].n)) { bool eq = m[0].n == m[1].n; for (size_t i = 0; eq && i < m[0].n; ++i) eq = m[0].b->v[i] == m[1].b->v[i]; if (a[0]->contentsEqual(*a[1]) != eq || a[1]->contentsEqual(*a[0]) != eq) return "contentsEqual is wrong"; }
    if (mem) for (int i = 0; i < 4; ++i) if (memb->def[i] && val(mem[i]) != memb->v[i]) return "foreign memory was changed or not written";
    return ""; }
  double sum() { double s = 0; for (int k = 0; k < 2; ++k) { s = s*31 + m[k].n; for (size_t i = 0; i < m[k].n; ++i) s = s*3 + (m[k].b->def[i] ? m[k].b->v[i] : -5); } return s; }
};
// ---- two- and three-dimensional arrays
struct Dim { size_t d[3]; size_t n() const { return d[0]*d[1]*d[2]; } bool operator==(const Dim &o) const { return d[0] == o.d[0] && d[1] == o.d[1] && d[2] == o.d[2]; } };
static const Dim DZ = {{0, 0, 1}};
template<class A, class T> struct Acc2 { static Dim empty() { return DZ; } static Dim dims(int i) { static const Dim D[] = {{{0, 0, 1}}, {{2, 3, 1}}, {{3, 2, 1}}, {{1, 2, 1}}, {{4, 1, 1}}, {{0, 2, 1}}}; return D[i]; }
  static A *make(const Dim &d) { return new A(d.d[0], d.d[1]); } static void alloc(A &a, const Dim &d) { a.alloc(d.d[0], d.d[1]); } static Dim of(const A &a) { Dim r = {{a.size1(), a.size2(), 1}}; return r; } };
template<class A, class T> struct Full2 : Acc2<A, T> { using Acc2<A, T>::make; static const bool flat = true; static A *make(const Dim &d, const T &v) { return new A(d.d[0], d.d[1], v); } static void af(A &a, const Dim &d, const T &v) { a.allocAndFill(d.d[0], d.d[1], v); } static bool fast(A &a, const Dim &d) { a.fast_alloc(d.d[0], d.d[1]); return true; } static bool scale(A &a, int f) { a.scale(T(f)); return true; } static bool swap(A &a, A &b) { a.swap(b); return true; }
  static T &at(A &a, const Dim &, size_t i, size_t j, size_t) { return a(i, (int)j); } static bool same(A &a, const A &c, size_t i, size_t j, size_t, int v) { return val(c((int)i, j)) == v && val(a[i][j]) == v && val(c[(int)i][j]) == v; }
  static string extra(A &a, const Dim &d, bool all, int lo, int hi) { if (a.size() != d.n()) return "size()"; if (!all) return ""; try { T l, h; a.minmax(l, h); if (!d.n()) return "minmax of an empty array succeeds"; if (val(l) != lo || val(h) != hi) return "minmax"; } catch (LEVELSError &) { if (d.n()) return "minmax fails"; } return ""; } static int conf(A &a, A &b) { return a.conformable(b); } };
template<class A, class T> struct Ptr2 : Acc2<A, T> { static A *make(const Dim &d) { return new A(d.d[0], d.d[1]); } static Dim dims(int i) { static const Dim D[] = {{{0, 0, 1}}, {{2, 3, 1}}, {{3, 2, 1}}, {{1, 2, 1}}, {{4, 1, 1}}, {{2, 2, 1}}}; return D[i]; }
  static A *make(const Dim &, const T &) { return 0; } static void af(A &, const Dim &, const T &) {} static const bool flat = false; static bool fast(A &, const Dim &) { return false; } static bool scale(A &, int) { return false; } static bool swap(A &, A &) { return false; }
  static T &at(A &a, const Dim &, size_t i, size_t j, size_t) { return a[i][j]; } static bool same(A &a, const A &c, size_t i, size_t j, size_t, int v) { return val(a.p0()[i][j]) == v && val(c[(int)i][j]) == v; }
  static string extra(A &a, const Dim &d, bool, int, int) { if (a.size() != d.n()) return "size()"; return ""; } static int conf(A &, A &) { return -1; } };
template<class A, class T> struct Full3 { static Dim empty() { Dim d = {{0, 0, 0}}; return d; } static Dim dims(int i) { static const Dim D[] = {{{0, 0, 0}}, {{2, 1, 3}}, {{3, 2, 1}}, {{1, 2, 2}}, {{1, 3, 2}}, {{2, 2, 2}}}; return D[i]; }
  static A *make(const Dim &d) { return new A(d.d[0], d.d[1], d.d[2]); } static void alloc(A &a, const Dim &d) { a.alloc(d.d[0], d.d[1], d.d[2]); } static Dim of(const A &a) { Dim r = {{a.size1(), a.size2(), a.size3()}}; return r; }
  static A *make(const Dim &, const T &) { return 0; } static void af(A &, const Dim &, const T &) {} static const bool flat = false; static bool fast(A &, const Dim &) { return false; } static bool scale(A &, int) { return false; } static bool swap(A &a, A &b) { a.swap(b); return true; }
  static T &at(A &a, const Dim &, size_t i, size_t j, size_t k) { return a(i, (int)j, k); } static bool same(A &, const A &c, size_t i, size_t j, size_t k, int v) { return val(c((int)i, j, (long)k)) == v; }
  static string extra(A &a, const Dim &d, bool, int, int) { if (a.size() != d.n()) return "size()"; return ""; } static int conf(A &a, A &b) { return a.conformable(b); } };
template<class A, class T, class Q> struct Many {
  struct M { Dim d; Buf b; }; A *a[2]; M m[2]; int next; static const int NOPS = 29;
  Many() { next = 1; for (int k = 0; k < 2; ++k) { a[k] = new A; m[k].d = Q::empty(); } } ~Many() { delete a[0]; delete a[1]; }
  static string name(int op) { int o = op/2; static const char *N[] = {"fill", "write first", "write last", "= other", "= itself", "copy-construct from other", "dealloc()", "swap(other)", "scale(3)"}; Dim d = Q::dims(o >= 9 ? (o - 9) % 6 : 0); string s = strf("(%zu,%zu,%zu)", d.d[0], d.d[1], d.d[2]); return string(X2[op % 2]) + "." + (o < 9 ? N[o] : o < 15 ? "alloc" + s : o < 21 ? "construct" + s : o < 27 ? "fast_alloc" + s : o == 27 ? "allocAndFill" + s : "construct with value" + s); }
  void renew(int k, const Dim &d) { m[k].d = d; m[k].b = Buf(d.n()); } void put(int k, size_t i, int v) { m[k].b.v[i] = v; m[k].b.def[i] = 1; }
  bool apply(int op) { int k = op % 2, o = op/2; A &x = *a[k], &y = *a[1 - k]; M &q = m[k]; size_t n = q.d.n();
    switch (o) {
      case 0: { int v = next++; x.fill(T(v)); for (size_t i = 0; i < n; ++i) put(k, i, v); return true; }
      case 1: case 2: { if (!n) return false; int v = next++; size_t i = 0, j = 0, l = 0; if (o == 2) { i = q.d.d[0] - 1; j = q.d.d[1] - 1; l = q.d.d[2] - 1; } Q::at(x, q.d, i, j, l) = T(v); put(k, o == 1 ? 0 : n - 1, v); return true; }
      case 3: x = y; q = m[1 - k]; return true;
      case 4: { A &z = x; x = z; return true; }
      case 5: { A *p = new A(y); delete a[k]; a[k] = p; q = m[1 - k]; return true; }
      case 6: x.dealloc(); { Dim z = Q::empty(); renew(k, z); } return true;
      case 7: if (!Q::swap(x, y)) return false; std::swap(m[0], m[1]); return true;
      case 8: if (!q.b.all(n)) return false; if (!Q::scale(x, 3)) return false; for (size_t i = 0; i < n; ++i) q.b.v[i] *= 3; return true; }
    Dim d = Q::dims((o - 9) % 6);
    if (o < 15) { Q::alloc(x, d); renew(k, d); } else if (o < 21) { A *p = Q::make(d); delete a[k]; a[k] = p; renew(k, d); } else if (o < 27) { if (!Q::fast(x, d)) return false; renew(k, d); }
    else { if (!Q::flat) return false; d = Q::dims((o - 9) % 6); int v = next++; if (o == 27) Q::af(x, d, T(v)); else { A *p = Q::make(d, T(v)); delete a[k]; a[k] = p; } renew(k, d); for (size_t i = 0; i < d.n(); ++i) put(k, i, v); }
    return true; }
  bool full; string check() { for (int k = 0; k < 2; ++k) { A &x = *a[k]; const A &c = x; M &q = m[k]; string w = string(X2[k]) + ": "; Dim e = Q::of(x); if (!(e == q.d)) return w + strf("dimensions %zu,%zu,%zu, expected %zu,%zu,%zu", e.d[0], e.d[1], e.d[2], q.d.d[0], q.d.d[1], q.d.d[2]);
      size_t p = 0; int lo = 0, hi = 0; for (size_t i = 0; i < q.d.d[0]; ++i) for (size_t j = 0; j < q.d.d[1]; ++j) for (size_t l = 0; l < q.d.d[2]; ++l, ++p) if (q.b.def[p]) { int v = q.b.v[p]; if (val(Q::at(x, q.d, i, j, l)) != v || !Q::same(x, c, i, j, l, v)) return w + strf("element %zu,%zu,%zu is %d, expected %d", i, j, l, val(Q::at(x, q.d, i, j, l)), v); if (!p || v < lo) lo = v; if (!p || v > hi) hi = v; }
      string ex = Q::extra(x, q.d, q.b.all(q.d.n()) && (q.d.n() || full), lo, hi); if (ex.size()) return w + ex + " is wrong"; }
    int cf = Q::conf(*a[0], *a[1]); if (cf >= 0 && cf != (m[0].d == m[1].d)) return "conformable is wrong"; return ""; }
  double sum() { double s = 0; for (int k = 0; k < 2; ++k) { s = s*31 + m[k].d.d[0] + 7*m[k].d.d[1] + 49*m[k].d.d[2]; for (size_t i = 0; i < m[k].b.v.size(); ++i) s = s*3 + (m[k].b.def[i] ? m[k].b.v[i] : -5); } return s; }
};
// ---- expansions
struct AlmH { typedef xcomplex<double> C; typedef std::map<std::pair<int,int>, std::complex<double> > V; struct M { int l, m; V v; bool def; };
  Alm<C> *a[2]; M m[2]; int next; static const int NOPS = 27;
  static constexpr int LM[6][2] = {{0, 0}, {1, 0}, {1, 1}, {3, 1}, {2, 2}, {3, 3}};
  AlmH() { next = 1; for (int k = 0; k < 2; ++k) { a[k] = new Alm<C>; m[k].l = m[k].m = 0; m[k].def = false; } } ~AlmH() { delete a[0]; delete a[1]; }
  static string name(int op) { int o = op/2; static const char *N[] = {"SetToZero", "write all", "write last", "Scale(2)", "ScaleL", "ScaleL(too short)", "ScaleM", "ScaleM(too short)", "Add(3)", "Add(other)", "swap(other)", "= other", "= itself", "copy-construct from other", "Scale by i"}; if (o < 15) return string(X2[op % 2]) + "." + N[o]; auto &q = LM[o < 21 ? o - 15 : o - 21]; return string(X2[op % 2]) + strf("%s(%d,%d)", o < 21 ? ".Set" : ".Set from array of ", q[0], q[1]); }
  void each(int k, std::function<void(int, int, std::complex<double> &)> f) { for (int mm = 0; mm <= m[k].m; ++mm) for (int l = mm; l <= m[k].l; ++l) f(l, mm, m[k].v[{l, mm}]); }
  bool apply(int op) { int k = op % 2, o = op/2; Alm<C> &x = *a[k], &y = *a[1 - k]; M &q = m[k], &r = m[1 - k]; typedef std::complex<double> Z;
    switch (o) {
      case 0: x.SetToZero(); q.v.clear(); each(k, [](int, int, Z &z) { z = 0; }); q.def = true; return true;
      case 1: { int b = next++; each(k, [&](int l, int mm, Z &z) { z = Z(b + l, 10*mm - b); x(l, mm) = C(b + l, 10*mm - b); }); q.def = true; return true; }
      case 2: { if (!q.def) return false; int b = next++; x.mstart(q.m)[q.l] = C(b, b); q.v[{q.l, q.m}] = Z(b, b); return true; }
      case 3: if (!q.def) return false; x.Scale(2.); each(k, [](int, int, Z &z) { z *= 2; }); return true;
      case 4: case 6: { if (!q.def) return false; arr<double> f((o == 4 ? q.l : q.m) + 1); for (size_t i = 0; i < f.size(); ++i) f[i] = 0.5*i - 1; if (o == 4) x.ScaleL(f); else x.ScaleM(f); each(k, [&](int l, int mm, Z &z) { z *= 0.5*(o == 4 ? l : mm) - 1; }); return true; }
      case 5: case 7: { if (!q.def) return false; if (!full) return true; arr<double> f(o == 5 ? q.l : q.m, 0.); try { if (o == 5) x.ScaleL(f); else x.ScaleM(f); err = "a factor array that is too short is accepted"; } catch (LEVELSError &) {} return true; }
      case 8: if (!q.def) return false; x.Add(3.); q.v[{0, 0}] += 3; return true;
      case 9: { if (!q.def || !r.def) return false; bool ok = q.l == r.l && q.m == r.m; if (!ok && !full) return true; try { x.Add(y); if (!ok) err = "expansions of different limits are added"; } catch (LEVELSError &) { if (ok) err = "Add fails"; } if (ok) each(k, [&](int l, int mm, Z &z) { z += r.v[{l, mm}]; }); return true; }
      case 10: x.swap(y); std::swap(m[0], m[1]); return true;
      case 11: x = y; q = r; return true;
      case 12: { Alm<C> &z = x; x = z; return true; }
      case 13: { Alm<C> *p = new Alm<C>(y); delete a[k]; a[k] = p; q = r; return true; }
      case 14: if (!q.def) return false; x.Scale(C(0, 1)); each(k, [](int, int, Z &z) { z *= Z(0, 1); }); return true; }
    if (o < 21) { auto &d = LM[o - 15]; x.Set(d[0], d[1]); q.l = d[0]; q.m = d[1]; q.v.clear(); q.def = false; return true; }
    auto &d = LM[o - 21]; int b = next++; arr<C> t(Alm_Base::Num_Alms(d[0], d[1])); for (size_t i = 0; i < t.size(); ++i) t[i] = C(b, i); bool wrong = false;
    if (full) try { arr<C> u(t.size() + 1); u.fill(C(7, 7)); x.Set(u, d[0], d[1]); wrong = true; } catch (LEVELSError &) {} if (wrong) { err = "an array of the wrong size is accepted"; return true; } string e = check(); if (e.size()) { err = "after a rejected Set: " + e; return true; }
    x.Set(t, d[0], d[1]); if (t.size()) err = "Set leaves the array with its elements"; q.l = d[0]; q.m = d[1]; q.v.clear(); q.def = true; size_t i = 0; each(k, [&](int, int, Z &z) { z = Z(b, i++); }); return true; }
  string err; bool full;
  string check() { if (err.size()) return err; for (int k = 0; k < 2; ++k) { Alm<C> &x = *a[k]; const Alm<C> &c = x; M &q = m[k]; string w = string(X2[k]) + ": "; if (x.Lmax() != q.l || x.Mmax() != q.m) return w + strf("limits %d,%d, expected %d,%d", x.Lmax(), x.Mmax(), q.l, q.m);
      size_t n = 0; string e; for (int mm = 0; mm <= q.m; ++mm) for (int l = mm; l <= q.l; ++l, ++n) { if (x.index(l, mm) != (int)n || x.index_l0(mm) + l != (int)n) return w + "coefficients are not stored by rising m, then l"; if (q.def) { auto z = q.v[{l, mm}]; const C &s = c(l, mm); const C *t = c.mstart(mm) + l; if (&s != t || s.re != z.real() || s.im != z.imag()) return w + strf("coefficient %d,%d is (%g,%g), expected (%g,%g)", l, mm, s.re, s.im, z.real(), z.imag()); } }
      if (x.Alms().size() != n || Alm_Base::Num_Alms(q.l, q.m) != n) return w + strf("holds %zu coefficients, expected %zu", (size_t)x.Alms().size(), n); }
    if (a[0]->conformable(*a[1]) != (m[0].l == m[1].l && m[0].m == m[1].m)) return "conformable is wrong"; return ""; }
  double sum() { double s = 0; for (int k = 0; k < 2; ++k) { s = s*31 + m[k].l*7 + m[k].m; if (m[k].def) for (auto &z : m[k].v) s = s*1.7 + z.second.real() - 3*z.second.imag(); } return s; }
};
constexpr int AlmH::LM[6][2];

template<class S> struct Hist : Pure { string cls; Hist(const char *n, int dq, int dt, size_t step = 1) : cls(n), dq(dq), dt(dt) { (void)step; } int dq, dt, D; static const int N = 2*S::NOPS;
  void prepare() override { D = thorough() ? dt : dq; if (const char *e = getenv("VF_ARR_DEPTH")) D = atoi(e); } size_t size() override { return (size_t)N*N; } size_t batch() override { return 64; } double timeout() override { return 300; }
  string describe(size_t i) override { return cls + ": " + S::name(i / N) + "; " + S::name(i % N) + strf("; every %d further operation(s)", D - 2); }
  string seq(const vector<int> &p) { string s = cls + ":"; for (int x : p) s += " " + S::name(x) + ";"; return s; }
  string pass(size_t i, Out &o) { vector<int> p(D, 0); p[0] = i / N; p[1] = i % N; double h = 0; for (;;) { ++o.execs; { S s; s.full = true; for (int q = 2; q < D; ++q) if (p[q]) s.full = false; string e; int k = 0; bool ok = true; try { for (; k < D; ++k) { if (!s.apply(p[k])) { ok = false; break; } ++o.ops; if ((e = s.check()).size()) return seq(vector<int>(p.begin(), p.begin() + k + 1)) + " " + e; } } catch (LEVELSError &x) { return seq(vector<int>(p.begin(), p.begin() + k + 1)) + " unexpected error"; } catch (std::exception &x) { return seq(vector<int>(p.begin(), p.begin() + k + 1)) + " " + x.what(); }
        if (ok) h = std::fmod(h*31 + s.sum(), 1e12); else { for (int q = k + 1; q < D; ++q) p[q] = N - 1; if (k < 2) break; } }
      if (Tr::live || Tr::bad) return seq(p) + strf(" %ld elements are never destroyed or some are destroyed twice", Tr::live);
      int q = D - 1; while (q >= 2 && ++p[q] == N) p[q--] = 0; if (q < 2) break; }
    o.put(h); return ""; }
  string run(size_t i, Out &o) override { string e = pass(i, o); if (e.size()) return e; if (!getenv("VF_BALANCE")) return ""; Out t; long a = mallinfo2().uordblks; e = pass(i, t); t.d.clear(); t.d.shrink_to_fit(); long b = mallinfo2().uordblks; if (e.size()) return "second pass: " + e; if (a != b) return strf("memory in use grows by %ld bytes", b - a); return ""; }
};
int main(int argc, char **argv) { Registry r;
  r["arr"] = [] { return new Hist<One<arr<int>, int, 0> >("arr<int>", 4, 5); }; r["arrt"] = [] { return new Hist<One<arr<Tr>, Tr, 0> >("arr<tracked>", 4, 5); }; r["align"] = [] { return new Hist<One<arr_align<int, 32>, int, 32> >("arr_align<int,32>", 4, 5); };
  r["arr2"] = [] { return new Hist<Many<arr2<int>, int, Full2<arr2<int>, int> > >("arr2<int>", 4, 5); }; r["arr2a"] = [] { return new Hist<Many<arr2_align<int, 16>, int, Full2<arr2_align<int, 16>, int> > >("arr2_align<int,16>", 4, 5); }; r["arr2t"] = [] { return new Hist<Many<arr2<Tr>, Tr, Full2<arr2<Tr>, Tr> > >("arr2<tracked>", 4, 5); };
  r["arr2b"] = [] { return new Hist<Many<arr2b<int>, int, Ptr2<arr2b<int>, int> > >("arr2b<int>", 4, 5); }; r["arr3"] = [] { return new Hist<Many<arr3<int>, int, Full3<arr3<int>, int> > >("arr3<int>", 4, 5); };
  r["alm"] = [] { return new Hist<AlmH>("Alm", 4, 5); };
  return main_(argc, argv, r); }
