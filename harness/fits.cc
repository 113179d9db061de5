// The FITS layer (P20): operation histories, column types and sizes, images, keywords and misuse, against a model and an independent reader.
#include "pure.hpp"
#include <fitsio.h>
#include "ls_fitshandle.h"
#include <algorithm>
#include <limits>
using namespace vf; using namespace levels; typedef long double LD;
struct MCol { string name, unit; int rep; PDT type; vector<LD> v; vector<string> s; };
struct MHdu { bool image = false, ascii = false; PDT itype = LEVELS_INVALID; vector<int64> axes; vector<LD> px; vector<MCol> cols; long rows = 0; std::map<string, std::pair<int, string>> keys; };
struct Model { vector<MHdu> h; int cur = 0; bool writable = true, valid = true; };
static const char *tname(PDT t) { switch (t) { case LEVELS_BOOL: return "bool"; case LEVELS_INT8: return "int8"; case LEVELS_UINT8: return "uint8"; case LEVELS_INT16: return "int16"; case LEVELS_INT32: return "int32"; case LEVELS_INT64: return "int64"; case LEVELS_FLOAT32: return "float32"; case LEVELS_FLOAT64: return "float64"; case LEVELS_STRING: return "string"; default: return "?"; } }
static PDT back(PDT t) { return t == LEVELS_UINT8 ? LEVELS_INT8 : t; } // both are unsigned bytes in the file
static string path() { return scratch() + strf("/f%d.fits", (int)getpid()); }
template<class F> static bool fails(F f) { try { f(); return false; } catch (LEVELSError &) { return true; } catch (std::exception &) { return true; } }
template<class T> static vector<LD> readn(const fitshandle &h, int c, long n, long off) { arr<T> a(n); h.read_column(c, a, off); vector<LD> r; for (long i = 0; i < n; ++i) r.push_back(a[i]); return r; }
static vector<LD> readt(const fitshandle &h, PDT t, int c, long n, long off) { switch (t) { case LEVELS_BOOL: return readn<bool>(h, c, n, off); case LEVELS_INT8: case LEVELS_UINT8: return readn<uint8>(h, c, n, off); case LEVELS_INT16: return readn<int16>(h, c, n, off); case LEVELS_INT32: return readn<int32>(h, c, n, off); case LEVELS_INT64: return readn<int64>(h, c, n, off); case LEVELS_FLOAT32: return readn<float>(h, c, n, off); default: return readn<double>(h, c, n, off); } }
template<class T> static void writen(fitshandle &h, int c, const vector<LD> &v, long off) { arr<T> a(v.size()); for (size_t i = 0; i < v.size(); ++i) a[i] = T(v[i]); if (v.size() == 1) h.write_column(c, a[0], off); else h.write_column(c, a, off); }
static void writet(fitshandle &h, PDT t, int c, const vector<LD> &v, long off) { switch (t) { case LEVELS_BOOL: writen<bool>(h, c, v, off); break; case LEVELS_INT8: { bool big = false; for (LD q : v) big |= q > 127; if (big) writen<uint8>(h, c, v, off); else writen<int8>(h, c, v, off); break; } case LEVELS_UINT8: writen<uint8>(h, c, v, off); break; case LEVELS_INT16: writen<int16>(h, c, v, off); break; case LEVELS_INT32: writen<int32>(h, c, v, off); break; case LEVELS_INT64: writen<int64>(h, c, v, off); break; case LEVELS_FLOAT32: writen<float>(h, c, v, off); break; default: writen<double>(h, c, v, off); } }
static LD value(PDT t, int k) { // exactly representable, with extremes
  switch (t) { case LEVELS_BOOL: return k % 3 != 1; case LEVELS_INT8: return (k*7 + 1) % 128; case LEVELS_UINT8: return (k*29 + 3) % 256; case LEVELS_INT16: { static const int A[] = {-32768, 32767, 0, -1, 257, 12345}; return k < 6 ? A[k] : (k*37) % 30000 - 9; }
    case LEVELS_INT32: { static const int A[] = {-2147483647 - 1, 2147483647, 0, -1, 65537, 16777217}; return k < 6 ? A[k] : k % 20000*100003 - 7; } case LEVELS_INT64: { static const int64 A[] = {std::numeric_limits<int64>::min() + 1, std::numeric_limits<int64>::max(), 0, -1, (1ll << 53) + 1, 1ll << 32}; return k < 6 ? A[k] : (int64)k*1000000007ll*31 - 7; }
    case LEVELS_FLOAT32: { static const float A[] = {-0.1f, 3.4e38f, 1.2e-38f, 0, 16777217.f, 1/3.f}; return k < 6 ? A[k] : (float)(k*0.37f - 1); } default: { static const double A[] = {-0.1, 1.7e308, 2.3e-308, 0, 1 + 2.220446049250313e-16, 1/3.}; return k < 6 ? A[k] : k*0.37 - 1; } } }
static string sval(int k, int w) { static const char *A[] = {"a", "xyz", "", "hello", "Q w", "longer than it", "'q'"}; return string(A[k % 7]).substr(0, w); }
static string rstrip(string s) { while (s.size() && s.back() == ' ') s.pop_back(); return s; }
static string cmpv(const vector<LD> &g, const LD *w, size_t n, const char *what, long off) { if (g.size() != n) return strf("%s: %zu values, expected %zu", what, g.size(), n); for (size_t i = 0; i < n; ++i) if (g[i] != w[i]) return strf("%s: element %ld is %.20Lg, expected %.20Lg", what, off + (long)i, g[i], w[i]); return ""; }
// ---- the handle against the model -----------------------------------------------------------------
static string check_head(fitshandle &h, const Model &m) {
  auto &u = m.h[m.cur]; if (h.num_hdus() != (int)m.h.size()) return strf("%d HDUs, expected %zu", h.num_hdus(), m.h.size()); if (!m.valid) return "";
  if (u.image) { if (h.axes() != u.axes) return "the axes are wrong"; if (!fails([&] { h.ncols(); })) return "an image passes as a table"; return ""; }
  if (!fails([&] { h.axes(); })) return "a table passes as an image"; if (h.ncols() != (int)u.cols.size()) return strf("%d columns, expected %zu", h.ncols(), u.cols.size()); if (h.nrows() != u.rows) return strf("%ld rows, expected %ld", (long)h.nrows(), u.rows);
  return ""; }
static string check_hdu(fitshandle &h, const MHdu &u, bool deep) {
  string e; if (u.image) { size_t n = u.px.size(); if (n) { arr<double> a(n); h.read_subimage(a); for (size_t i = 0; i < n; ++i) if ((LD)a[i] != u.px[i]) return strf("pixel %zu is %.17g, expected %.17Lg", i, a[i], u.px[i]); if (u.axes.size() == 2) { arr2<double> b; h.read_image(b); if ((int64)b.size1() != u.axes[0] || (int64)b.size2() != u.axes[1]) return "the image has wrong dimensions"; for (int64 i = 0; i < u.axes[0]; ++i) for (int64 j = 0; j < u.axes[1]; ++j) if ((LD)b[i][j] != u.px[i*u.axes[1] + j]) return strf("pixel (%ld,%ld) is %.17g, expected %.17Lg", (long)i, (long)j, b[i][j], u.px[i*u.axes[1] + j]); } } }
  else for (size_t c = 0; c < u.cols.size(); ++c) { auto &k = u.cols[c]; int q = c + 1; if (h.colname(q) != k.name || h.colunit(q) != k.unit) return strf("column %d has name '%s' and unit '%s'", q, h.colname(q).c_str(), h.colunit(q).c_str()); if (h.coltype(q) != back(k.type)) return strf("column %d has type %s, expected %s", q, tname(h.coltype(q)), tname(k.type)); if (h.repcount(q) != k.rep) return strf("column %d has repetition count %ld, expected %d", q, (long)h.repcount(q), k.rep);
      long n = k.type == LEVELS_STRING ? u.rows : u.rows*k.rep; if (h.nelems(q) != n) return strf("column %d has %ld elements, expected %ld", q, (long)h.nelems(q), n); if (!n) continue; string what = strf("column %d", q);
      if (k.type == LEVELS_STRING) { arr<string> a; h.read_entire_column(q, a); if ((long)a.size() != n) return what + " has a wrong length"; for (long i = 0; i < n; ++i) if (rstrip(a[i]) != k.s[i]) return strf("string %ld of column %d is '%s', expected '%s'", i, q, a[i].c_str(), k.s[i].c_str()); if (!fails([&] { arr<string> b(n + 1); h.read_column(q, b); })) return "reading more strings than there are succeeds"; continue; }
      if ((e = cmpv(readt(h, k.type, q, n, 0), k.v.data(), n, what.c_str(), 0)).size()) return e;
      if (deep) { long ch = h.efficientChunkSize(q); if (ch < 1 || ch % k.rep) return strf("chunk size %ld of column %d", ch, q); for (long o = 0; o < n; o += ch) { long l = std::min(ch, n - o); if ((e = cmpv(readt(h, k.type, q, l, o), &k.v[o], l, (what + " by chunks").c_str(), o)).size()) return e; }
        for (long o = 0; o < n; ++o) if (n < 40 || o < 6 || o > n - 6) for (long l = 1; l <= 3 && o + l <= n; ++l) if ((e = cmpv(readt(h, k.type, q, l, o), &k.v[o], l, (what + " by offset").c_str(), o)).size()) return e; 
        for (long o = 0; o <= n; o += std::max(1L, n/5)) if (!fails([&] { readt(h, k.type, q, n - o + 1, o); })) return "reading beyond the end of a column succeeds"; if ((e = cmpv(readt(h, k.type, q, n, 0), k.v.data(), n, (what + " after a failed read").c_str(), 0)).size()) return e; } }
  for (auto &kv : u.keys) { if (!h.key_present(kv.first)) return "keyword " + kv.first + " is missing"; string g; switch (kv.second.first) { case 0: g = strf("%d", h.get_key<int32>(kv.first)); break; case 1: h.get_key(kv.first, g); break; case 2: g = strf("%.12g", h.get_key<double>(kv.first)); break; default: g = h.get_key<bool>(kv.first) ? "T" : "F"; } if (g != kv.second.second) return "keyword " + kv.first + " is '" + g + "', expected '" + kv.second.second + "'"; }
  for (const char *n : {"KEYA", "lower", "KEYB"}) if (!u.keys.count(n)) { if (h.key_present(n)) return string("keyword ") + n + " is present but was not set"; if (!fails([&] { h.get_key<int32>(n); })) return string("missing keyword ") + n + " can be read"; }
  return ""; }
static string check_all(fitshandle &h, const Model &m, bool deep) { string e; for (int pass = 0; pass < 2; ++pass) for (size_t q = 0; q < m.h.size(); ++q) { size_t k = pass ? m.h.size() - 1 - q : q; h.goto_hdu(k + 1); Model n = m; n.cur = k; n.valid = true; if ((e = check_head(h, n)).size() || (e = check_hdu(h, m.h[k], deep && !pass)).size()) return strf("HDU %zu: ", k + 1) + e; } if (!fails([&] { h.goto_hdu(m.h.size() + 1); })) return "a HDU that does not exist can be entered"; return ""; }
// plain cfitsio
static string check_raw(const string &f, const Model &m) {
  fitsfile *p; int st = 0; fits_open_file(&p, f.c_str(), READONLY, &st); if (st) return "the file cannot be opened by cfitsio"; int nh = 0; fits_get_num_hdus(p, &nh, &st); string e; if (nh != (int)m.h.size()) e = strf("the file has %d HDUs, expected %zu", nh, m.h.size());
  for (size_t k = 0; k < m.h.size() && e.empty() && !st; ++k) { auto &u = m.h[k]; int ty; fits_movabs_hdu(p, k + 1, &ty, &st); if (u.image) { if (ty != IMAGE_HDU) e = "not an image"; int bp; fits_get_img_type(p, &bp, &st); if (u.px.size()) { if (bp != (u.itype == LEVELS_FLOAT32 ? FLOAT_IMG : DOUBLE_IMG)) e = "wrong pixel type in the file"; vector<double> a(u.px.size()); fits_read_img(p, TDOUBLE, 1, a.size(), 0, a.data(), 0, &st); for (size_t i = 0; i < a.size(); ++i) if ((LD)a[i] != u.px[i]) e = strf("HDU %zu: pixel %zu is %g in the file", k + 1, i, a[i]); } continue; }
    LONGLONG nr; fits_get_num_rowsll(p, &nr, &st); if (nr != u.rows) { e = strf("HDU %zu has %ld rows in the file, expected %ld", k + 1, (long)nr, u.rows); break; }
    for (size_t c = 0; c < u.cols.size(); ++c) { auto &q = u.cols[c]; long n = u.rows*q.rep; if (!u.rows) continue; if (q.type == LEVELS_STRING) { for (long i = 0; i < u.rows; ++i) { vector<char> b(q.rep + 2); char *s = b.data(); char nul[] = ""; fits_read_col_str(p, c + 1, i + 1, 1, 1, nul, &s, 0, &st); if (rstrip(s) != rstrip(q.s[i])) e = strf("HDU %zu: string %ld is '%s' in the file", k + 1, i, s); } continue; }
      if (q.type == LEVELS_INT64) { vector<LONGLONG> a(n); fits_read_col(p, TLONGLONG, c + 1, 1, 1, n, 0, a.data(), 0, &st); for (long i = 0; i < n; ++i) if ((LD)a[i] != q.v[i]) e = strf("HDU %zu column %zu: element %ld is wrong in the file", k + 1, c + 1, i); }
      else if (q.type == LEVELS_BOOL) { vector<char> a(n); fits_read_col(p, TLOGICAL, c + 1, 1, 1, n, 0, a.data(), 0, &st); for (long i = 0; i < n; ++i) if ((LD)a[i] != q.v[i]) e = strf("HDU %zu column %zu: element %ld is wrong in the file", k + 1, c + 1, i); }
      else { vector<double> a(n); fits_read_col(p, TDOUBLE, c + 1, 1, 1, n, 0, a.data(), 0, &st); for (long i = 0; i < n; ++i) if ((LD)a[i] != q.v[i]) e = strf("HDU %zu column %zu: element %ld is %.17g in the file, expected %.17Lg", k + 1, c + 1, i, a[i], q.v[i]); } } }
  if (st && e.empty()) e = strf("cfitsio reports status %d", st); st = 0; fits_close_file(p, &st); return e; }
static vector<fitscolumn> cols(const MHdu &u) { vector<fitscolumn> v; for (auto &c : u.cols) v.push_back(fitscolumn(c.name, c.unit, c.rep, c.type)); return v; }
static void mwrite(MHdu &u, int c, const vector<LD> &v, long off) { auto grow = [&](long rows) { if (rows > u.rows) { u.rows = rows; for (auto &k : u.cols) { if (k.type == LEVELS_STRING) k.s.resize(rows); else k.v.resize(rows*k.rep, 0); } } }; auto &k = u.cols[c - 1]; grow((off + v.size() + k.rep - 1)/k.rep); for (size_t i = 0; i < v.size(); ++i) k.v[off + i] = v[i]; }
static void mwrites(MHdu &u, int c, const vector<string> &v, long off) { auto &k = u.cols[c - 1]; if (off + (long)v.size() > u.rows) { u.rows = off + v.size(); for (auto &q : u.cols) { if (q.type == LEVELS_STRING) q.s.resize(u.rows); else q.v.resize(u.rows*q.rep, 0); } } for (size_t i = 0; i < v.size(); ++i) k.s[off + i] = rstrip(v[i].substr(0, k.rep)); }
// ---- histories --------------------------------------------------------------------------------------
struct Hist : Pure {
  enum { INS_A, INS_B, INS_IMG, INS_IMG2, INS_BAD, GO1, GO2, GO3, GO9, W1, W1OFF, W2SPAN, W2LAST, WAPP, WGAP, WIMG, WSUB, WBAD, KEYI, KEYS, KEYL, KEYD, KDEL, REOPEN, RECREATE, NOPS };
  static const char *name(int k) { static const char *N[] = {"insert table A", "insert table B", "insert a 2x3 double image", "insert a 3x2 float image with data", "insert a column of an unsupported type", "goto 1", "goto 2", "goto 3", "goto 9", "write 3 rows of column 1", "write 2 elements of column 1 from 2", "write 5 elements of the last column from 1", "overwrite the first element of the last column", "append a row to column 1", "write column 1 beyond the end", "write the whole image", "write two pixels", "write column 7", "set KEYA to an integer", "set KEYA to a string", "set a lower-case keyword", "set KEYB to a float", "delete KEYA", "close and open", "create again over the open file"}; return N[k]; }
  int D; void prepare() override { D = thorough() ? 5 : 4; }
  size_t size() override { size_t r = 1; for (int i = 0; i < D; ++i) r *= NOPS; return r; } size_t batch() override { return 500; }
  string describe(size_t i) override { Radix r(i); string s; for (int k = 0; k < D; ++k) s += (k ? ", " : "") + string(name(r.take(NOPS))); return s; }
  static MHdu tabA() { MHdu u; u.cols = {{"index", "unit", 1, LEVELS_INT32, {}, {}}, {"vec", "m/s", 3, LEVELS_FLOAT64, {}, {}}}; return u; }
  static MHdu tabB() { MHdu u; u.cols = {{"Name", "", 5, LEVELS_STRING, {}, {}}, {"flag", "-", 1, LEVELS_BOOL, {}, {}}, {"small", "K", 2, LEVELS_INT16, {}, {}}}; return u; }
  string run(size_t i, Out &o) override {
    Radix r(i); string f = path(); unlink(f.c_str()); Model m; MHdu p; p.image = true; m.h.push_back(p); string e; int serial = 0; bool closefail = false;
    { fitshandle h; h.create(f);
      for (int k = 0; k < D; ++k) { int op = r.take(NOPS); bool expect = true, got; ++serial; MHdu *u = &m.h[m.cur]; bool tab = m.valid && !u->image, img = m.valid && u->image; int lc = tab ? u->cols.size() : 0; bool strcol = tab && u->cols[0].type == LEVELS_STRING;
        auto insert = [&](const MHdu &x) { m.h.insert(m.h.begin() + m.cur + 1, x); m.cur++; m.valid = true; };
        auto wcol = [&](int c, long off, int n) { auto &q = u->cols[c - 1]; if (q.type == LEVELS_STRING) { arr<string> a(n); vector<string> v; for (int j = 0; j < n; ++j) v.push_back(a[j] = sval(serial*5 + j, 12)); bool fl = fails([&] { h.write_column(c, a, off); }); if (!fl && m.writable) mwrites(*u, c, v, off); return fl; } vector<LD> v; for (int j = 0; j < n; ++j) v.push_back(value(q.type, serial*4 + j)); bool fl = fails([&] { writet(h, q.type, c, v, off); }); if (!fl && m.writable) mwrite(*u, c, v, off); return fl; };
        switch (op) {
          case INS_A: case INS_B: { MHdu x = op == INS_A ? tabA() : tabB(); got = !fails([&] { h.insert_bintab(cols(x), "EXT"); }); expect = m.writable; if (expect) insert(x); else m.valid = false; break; }
          case INS_IMG: { MHdu x; x.image = true; x.itype = LEVELS_FLOAT64; x.axes = {2, 3}; x.px.assign(6, 0); got = !fails([&] { h.insert_image(LEVELS_FLOAT64, x.axes); }); expect = m.writable; if (expect) insert(x); else m.valid = false; break; }
          case INS_IMG2: { MHdu x; x.image = true; x.itype = LEVELS_FLOAT32; x.axes = {3, 2}; arr2<double> a(3, 2); for (int j = 0; j < 6; ++j) x.px.push_back(a[j/2][j % 2] = serial + j*0.25); got = !fails([&] { h.insert_image(LEVELS_FLOAT32, a); }); expect = m.writable; if (expect) insert(x); else m.valid = false; break; }
          case INS_BAD: { got = !fails([&] { h.insert_bintab({fitscolumn("x", "", 1, LEVELS_UINT32)}); }); expect = false; m.valid = false; break; }
          case GO1: case GO2: case GO3: case GO9: { int t = op == GO9 ? 9 : op - GO1 + 1; expect = t <= (int)m.h.size(); got = !fails([&] { h.goto_hdu(t); }); if (expect) { m.cur = t - 1; m.valid = true; } break; }
          case W1: if (!tab) { expect = false; got = !fails([&] { arr<int> a(3, 1); h.write_column(1, a); }); } else { expect = m.writable; got = !wcol(1, 0, 3); } break;
          case W1OFF: if (!tab) { expect = false; got = !fails([&] { arr<string> a(2); h.write_column(1, a, 2); }); } else { expect = m.writable; got = !wcol(1, 2, 2); } break;
          case W2SPAN: if (!tab) { expect = false; got = !fails([&] { int32 a = 1; h.write_column(2, a); }); } else { expect = m.writable; got = !wcol(lc, 1, 5); } break;
          case W2LAST: if (!tab) { expect = false; got = !fails([&] { int32 a; h.read_column(1, a); }); } else { expect = m.writable; got = !wcol(lc, 0, 1); } break;
          case WAPP: case WGAP: if (!tab) { expect = false; got = !fails([&] { h.nelems(1); }); } else { expect = m.writable; got = !wcol(1, u->rows + (op == WGAP ? 2 : 0), 1); } break;
          case WIMG: if (!img || u->axes.size() != 2 || u->axes[0] != 2) { expect = false; got = !fails([&] { arr2<double> a(2, 3, 1.); h.write_image(a); }); } else { expect = m.writable; arr2<double> a(2, 3); for (int j = 0; j < 6; ++j) a[j/3][j % 3] = serial*10 + j; got = !fails([&] { h.write_image(a); }); if (expect) for (int j = 0; j < 6; ++j) u->px[j] = serial*10 + j; } break;
          case WSUB: if (!img || u->px.empty()) { if (img) { got = expect = true; break; } expect = false; got = !fails([&] { arr<double> a(2, 1.); h.write_subimage(a, 1); }); } else { expect = m.writable; arr<double> a(2); a[0] = serial*0.5; a[1] = -serial; got = !fails([&] { h.write_subimage(a, 1 + serial % 3); }); if (expect) { u->px[1 + serial % 3] = a[0]; u->px[2 + serial % 3] = a[1]; } } break;
          case WBAD: expect = false; got = !fails([&] { arr<int> a(1, 1); h.write_column(7, a); }) || !fails([&] { arr<int> a(1, 1); h.write_column(0, a); }); break;
          case KEYI: case KEYS: case KEYL: case KEYD: { expect = m.writable && m.valid; int32 vi = serial*3 - 5; string vs = strf("text %d 'q'", serial); double vd = serial/8.; got = !fails([&] { if (op == KEYI) h.set_key("KEYA", vi, "comment"); else if (op == KEYS) h.set_key("KEYA", vs); else if (op == KEYL) h.set_key("lower", vi); else h.set_key("KEYB", vd); }); if (!m.valid) expect = got = false; if (expect) { if (op == KEYI) u->keys["KEYA"] = {0, strf("%d", vi)}; else if (op == KEYS) u->keys["KEYA"] = {1, vs}; else if (op == KEYL) u->keys["lower"] = {0, strf("%d", vi)}; else u->keys["KEYB"] = {2, strf("%.12g", vd)}; } break; }
          case KDEL: if (!m.valid) { expect = got = false; break; } expect = m.writable && u->keys.count("KEYA"); got = !fails([&] { h.delete_key("KEYA"); }); if (expect) u->keys.erase("KEYA"); break;
          case REOPEN: h.close(); got = expect = true; h.open(f); m.writable = false; m.cur = 0; m.valid = true; break;
          default: expect = false; got = !fails([&] { fitshandle g; g.create(f); }); break;
        }
        if (!got && !m.valid) { h.goto_hdu(m.cur + 1); m.valid = true; } if (got != expect) return strf("step %d (%s) %s", k + 1, name(op), got ? "succeeded but cannot be satisfied" : "failed"); o.put(got); if ((e = check_head(h, m)).size()) return strf("after step %d (%s): ", k + 1, name(op)) + e; }
      if ((e = check_all(h, m, false)).size()) return "at the end: " + e; if (fails([&] { h.close(); })) return "closing the file fails"; }
    if ((e = check_raw(f, m)).size()) return e; { fitshandle h; h.open(f); if ((e = check_all(h, m, false)).size()) return "opened again: " + e; } unlink(f.c_str()); for (auto &u : m.h) o.put(u.rows); return ""; }
};
// ---- every column type, width and way of writing --------------------------------------------------------
static const PDT TY[] = {LEVELS_BOOL, LEVELS_INT8, LEVELS_UINT8, LEVELS_INT16, LEVELS_INT32, LEVELS_INT64, LEVELS_FLOAT32, LEVELS_FLOAT64, LEVELS_STRING};
struct Cols : Pure {
  struct C { PDT t; int rep, rows; vector<int> cuts; vector<int> order; int pos; int chunk, delta; }; vector<C> c;
  void prepare() override {
    for (PDT t : TY) for (int rep = 1; rep <= 4; ++rep) for (int rows = 0; rows <= (thorough() ? 5 : 4); ++rows) { int N = t == LEVELS_STRING ? rows : rows*rep; if (N > 12) continue; for (int a = 0; a <= N; ++a) for (int b = a; b <= N; ++b) { if (a == 0 && b) continue; vector<int> o = {0, 1, 2}; do { if (a == b && (o[1] == 1 || o[0] == 1)) continue; for (int pos = 0; pos < 3; ++pos) c.push_back({t, rep, rows, {0, a, b, N}, o, pos, 0, 0}); } while (std::next_permutation(o.begin(), o.end())); } }
    for (PDT t : TY) for (int mult = 1; mult <= 3; ++mult) for (int d = -2; d <= 2; ++d) for (int how = 0; how < 4; ++how) for (int rep : {1, 3}) if (rep == 1 || t != LEVELS_STRING) c.push_back({t, rep, 0, {how}, {}, how % 3, mult, d}); }
  size_t size() override { return c.size(); } size_t batch() override { return 100; } double timeout() override { return 60; }
  string describe(size_t i) override { auto &x = c[i]; string s = strf("column of type %s, repetition %d, at position %d", tname(x.t), x.rep, x.pos + 1); if (x.chunk) return s + strf(", %d chunks%+d elements, way %d", x.chunk, x.delta, x.cuts[0]); s += strf(", %d rows, pieces", x.rows); for (int o : x.order) s += strf(" [%d,%d)", x.cuts[o], x.cuts[o+1]); return s; }
  string run(size_t i, Out &o) override {
    auto &x = c[i]; string f = path(); unlink(f.c_str()); string e; Model m; MHdu p; p.image = true; m.h.push_back(p); MHdu u; vector<MCol> cs = {{"first", "a", 1, LEVELS_INT16, {}, {}}, {"second", "", 2, LEVELS_FLOAT32, {}, {}}}; cs.insert(cs.begin() + x.pos, {"the_column", "unit/s", x.rep, x.t, {}, {}}); u.cols = cs; m.h.push_back(u); m.cur = 1; MHdu &w = m.h[1]; int col = x.pos + 1, other = col == 1 ? 2 : 1;
    { fitshandle h; h.create(f); h.insert_bintab(cols(u)); auto put = [&](int lo, int hi, int salt) { if (hi <= lo && x.chunk) return; if (x.t == LEVELS_STRING) { arr<string> a(hi - lo); vector<string> v; for (int j = lo; j < hi; ++j) v.push_back(a[j - lo] = sval(j + salt, 20)); h.write_column(col, a, lo); mwrites(w, col, v, lo); } else { vector<LD> v; for (int j = lo; j < hi; ++j) v.push_back(value(x.t, j + salt)); if (v.empty()) return; writet(h, x.t, col, v, lo); mwrite(w, col, v, lo); } };
      if (!x.chunk) { for (int k : x.order) if (x.cuts[k] < x.cuts[k+1]) put(x.cuts[k], x.cuts[k+1], 0); vector<LD> v = {5, -6}; writet(h, w.cols[other-1].type, other, v, 0); mwrite(w, other, v, 0); if (x.rows) { int N = x.cuts[3]; put(N/2, N/2 + 1, 3); put(N - 1, N, 5); } }
      else { long ch = h.efficientChunkSize(col); int N = x.chunk*ch + x.delta; if (x.cuts[0] == 0) put(0, N, 0); else if (x.cuts[0] == 1) for (int a = 0; a < N; a += ch) put(a, std::min<long>(N, a + ch), 0); else if (x.cuts[0] == 2) { put(ch, N, 0); put(0, ch, 1); } else { put(0, N, 0); put(ch - 1, ch + 1 < N ? ch + 1 : N, 2); } writet(h, w.cols[other-1].type, other, {7}, 3); mwrite(w, other, {7}, 3); }
      if ((e = check_all(h, m, true)).size()) return e; h.goto_hdu(2); h.write_checksum(); h.close(); }
    if ((e = check_raw(f, m)).size()) return e; { fitshandle h; h.open(f); if ((e = check_all(h, m, true)).size()) return "opened again: " + e; } unlink(f.c_str()); o.put(w.rows); return ""; }
};
// ---- conversions between memory and column types ------------------------------------------------------
struct Conv : Pure {
  struct C { PDT ct, mt; LD v; bool rd; int n; }; vector<C> c; vector<LD> vals;
  static bool rep(PDT t, LD v) { switch (t) { case LEVELS_INT8: case LEVELS_UINT8: return v == (LD)(uint8)(v >= 0 && v < 256 ? v : 0); case LEVELS_INT16: return v >= -32768 && v <= 32767 && v == std::floor(v); case LEVELS_INT32: return v >= -2147483648.L && v <= 2147483647.L && v == std::floor(v); case LEVELS_INT64: return v >= -9223372036854775808.L && v <= 9223372036854775807.L && v == std::floor(v); case LEVELS_FLOAT32: return std::fabs(v) < 3.5e38L && v == (LD)(float)v; default: return v == (LD)(double)v; } }
  static bool outside(PDT t, LD v) { switch (t) { case LEVELS_INT8: case LEVELS_UINT8: return v <= -1 || v >= 256; case LEVELS_INT16: return v <= -32769 || v >= 32768; case LEVELS_INT32: return v <= -2147483649.L || v >= 2147483648.L; case LEVELS_INT64: return v < -9.3e18L || v > 9.3e18L; default: return false; } }
  void prepare() override { vals = {0, 1, -1, 0.5, -0.5, 100, 127, 128, 200, 255, 256, -128, -129, 300, 32767, 32768, -32768, -32769, 65535, 16777217, 2147483647.L, 2147483648.L, -2147483648.L, -2147483649.L, 4294967296.L, 9007199254740993.L, 9223372036854775807.L, -9223372036854775807.L, 1e10L, 1e19L, 1e30L, 1.5e30L, 1e39L, 1e300L, -1e300L, 0.1L, 1.5L, 254.6L}; for (auto &v : vals) if (v != std::floor(v) || std::fabs(v) > 1e19L) v = (double)v; for (PDT ct : TY) for (PDT mt : TY) if (ct != LEVELS_BOOL && mt != LEVELS_BOOL && ct != LEVELS_STRING && mt != LEVELS_STRING) for (LD v : vals) for (int rd = 0; rd < 2; ++rd) if (rep(rd ? ct : mt, v)) for (int n : {1, 3}) c.push_back({ct, mt, v, (bool)rd, n}); }
  size_t size() override { return c.size(); } size_t batch() override { return 200; }
  string describe(size_t i) override { auto &x = c[i]; return strf("%.20Lg %s (%s column, %s in memory)%s", x.v, x.rd ? "read" : "written", tname(x.ct), tname(x.mt), x.n > 1 ? " between other values" : ""); }
  static string close_enough(LD g, LD w, PDT to) { if (rep(to, w) ? g == w : to == LEVELS_FLOAT32 ? (std::fabs(w) > 3.4e38L && std::isinf(g)) || std::fabs(g - w) <= 1.2e-7L*std::fabs(w) + 1e-44L : to == LEVELS_FLOAT64 ? std::fabs(g - w) <= 2.3e-16L*std::fabs(w) : std::fabs(g - w) < 1) return ""; return strf("the value becomes %.20Lg", g); }
  string run(size_t i, Out &o) override {
    auto &x = c[i]; string f = path(), e; unlink(f.c_str()); fitshandle h; h.create(f); h.insert_bintab({fitscolumn("c", "", 1, x.ct)}); vector<LD> v(x.n, 1); v[x.n/2] = x.v; PDT w = x.rd ? x.ct : x.mt, to = x.rd ? x.mt : x.ct;
    bool wf = fails([&] { writet(h, w, 1, v, 0); }); bool out = outside(to, x.v);
    if (!x.rd) { bool border = x.ct <= LEVELS_UINT8 && x.v < 0; if (wf && !out && !border) return "writing fails"; if (!wf && out) return "a value outside the range of the column was accepted"; long n = h.nrows(); h.goto_hdu(1); h.goto_hdu(2); if (h.nrows() != n) return strf("the table is said to have %ld rows but has %ld", n, (long)h.nrows()); if (wf) { writet(h, x.ct, 1, {3}, 0); if (readt(h, x.ct, 1, 1, 0)[0] != 3) return "the column cannot be written after a failed write"; } else { auto g = readt(h, x.ct, 1, x.n, 0); if ((e = close_enough(g[x.n/2], x.v, x.ct)).size()) return e; if (x.n > 1 && (g[0] != 1 || g[2] != 1)) return "a neighbouring value changed"; } }
    else { if (wf) return "writing fails"; vector<LD> g; bool rf = fails([&] { g = readt(h, x.mt, 1, x.n, 0); }); if (rf && !out && !(x.mt <= LEVELS_UINT8 && x.v < 0) && !(x.mt == LEVELS_FLOAT32 && std::fabs(x.v) > 3.4e38L)) return "reading fails"; if (!rf && out) return "a value outside the range of the type was delivered"; if (!rf) { if ((e = close_enough(g[x.n/2], x.v, x.mt)).size()) return e; if (x.n > 1 && (g[0] != 1 || g[2] != 1)) return "a neighbouring value changed"; } auto q = readt(h, x.ct, 1, x.n, 0); if (q[x.n/2] != x.v) return "the column cannot be read after the conversion"; }
    o.put(wf); return ""; }
};
// ---- images ---------------------------------------------------------------------------------------------
struct Img : Pure {
  struct C { PDT t; vector<int64> ax; int how; }; vector<C> c;
  void prepare() override { int N = thorough() ? 5 : 4; for (PDT t : {LEVELS_FLOAT32, LEVELS_FLOAT64}) for (int how = 0; how < 4; ++how) { for (int a = 1; a <= 7; ++a) c.push_back({t, {a}, how}); for (int a = 1; a <= N; ++a) for (int b = 1; b <= N; ++b) { c.push_back({t, {a, b}, how}); if (how < 2) for (int d = 1; d <= 3; ++d) c.push_back({t, {a, b, d}, how}); } c.push_back({t, {61, 59}, how}); if (how < 2) c.push_back({t, {13, 17, 19}, how}); } }
  size_t size() override { return c.size(); } size_t batch() override { return 20; } double timeout() override { return 60; }
  string describe(size_t i) override { auto &x = c[i]; string s = strf("%s image", tname(x.t)); for (auto a : x.ax) s += strf(" %ld", (long)a); static const char *H[] = {"written in pieces", "written in overlapping pieces from the end", "inserted from or written as a double array", "inserted from or written as a float array"}; return s + ", " + H[x.how]; }
  template<class T> static string rects(fitshandle &h, const MHdu &u) { int64 a = u.axes[0], b = u.axes[1]; if (a > 8) return ""; for (int64 x = -1; x <= a; ++x) for (int64 y = -1; y <= b; ++y) for (int64 p = 1; p <= a + 1; ++p) for (int64 q = 1; q <= b + 1; ++q) { arr2<T> r(p, q); bool in = x >= 0 && y >= 0 && x + p <= a && y + q <= b; bool f = fails([&] { h.read_subimage(r, x, y); }); if (f == in) return strf("the section of %ldx%ld pixels from (%ld,%ld) %s", (long)p, (long)q, (long)x, (long)y, f ? "cannot be read" : "is delivered although it is not inside the image"); if (in) for (int64 i = 0; i < p; ++i) for (int64 j = 0; j < q; ++j) if ((LD)r[i][j] != (LD)(T)u.px[(x + i)*b + y + j]) return strf("the section of %ldx%ld pixels from (%ld,%ld) is wrong at (%ld,%ld)", (long)p, (long)q, (long)x, (long)y, (long)i, (long)j); } return ""; }
  string run(size_t i, Out &o) override {
    auto &x = c[i]; string f = path(), e; unlink(f.c_str()); Model m; MHdu p; p.image = true; m.h.push_back(p); MHdu u; u.image = true; u.itype = x.t; u.axes = x.ax; int64 N = 1; for (auto a : x.ax) N *= a; u.px.assign(N, 0); auto val = [&](int64 k) { return (LD)(x.t == LEVELS_FLOAT32 ? (float)(k*0.7 - 3) : k*0.7 - 3); };
    { fitshandle h; h.create(f); m.cur = 1; bool two = x.ax.size() == 2; 
      if (x.how >= 2 && two) { int64 A = x.ax[0], B = x.ax[1]; arr2<double> d(A, B); arr2<float> g(A, B); for (int64 k = 0; k < N; ++k) { d[k/B][k % B] = val(k); g[k/B][k % B] = (float)(k*0.25 - 3); u.px[k] = x.how == 2 ? val(k) : (LD)(float)(k*0.25 - 3); } if (N % 2) { if (x.how == 2) h.insert_image(x.t, d); else h.insert_image(x.t, g); } else { h.insert_image(x.t, x.ax); if (x.how == 2) h.write_image(d); else h.write_image(g); } arr2<double> bad(A + 1, B), bad2(A, B + 1); bad.fill(0); bad2.fill(0); if (!fails([&] { h.write_image(bad); }) || !fails([&] { h.write_image(bad2); })) return "an image of the wrong size was accepted"; }
      else { h.insert_image(x.t, x.ax); auto put = [&](int64 lo, int64 n, int salt) { n = std::min(n, N - lo); if (n <= 0) return; arr<double> d(n); for (int64 k = 0; k < n; ++k) u.px[lo + k] = d[k] = val(lo + k + salt); h.write_subimage(d, lo); }; int64 w = std::max<int64>(1, N/3); if (x.how % 2 == 0) for (int64 k = 0; k < N; k += w) put(k, w, 0); else for (int64 k = N - 1; k >= 0; k -= w) put(std::max<int64>(0, k - w), w + 2, k); }
      m.h.push_back(u); if ((e = check_all(h, m, true)).size()) return e; h.goto_hdu(2); if ((e = sections(h, u)).size()) return e; h.close(); }
    if ((e = check_raw(f, m)).size()) return e; { fitshandle h; h.open(f); if ((e = check_all(h, m, true)).size()) return "opened again: " + e; h.goto_hdu(2); if ((e = sections(h, u)).size()) return "opened again: " + e; } unlink(f.c_str()); o.put(N); return ""; }
  static string sections(fitshandle &h, const MHdu &u) { string e; int64 N = u.px.size(); for (int64 lo = 0; lo <= N; lo += N > 300 ? 97 : 1) for (int64 n = 1; n <= N - lo + 2; n += N > 300 ? 101 : 1) { arr<double> d(n); bool in = lo + n <= N; bool f = fails([&] { h.read_subimage(d, lo); }); if (f == in) return strf("%ld pixels from %ld %s", (long)n, (long)lo, f ? "cannot be read" : "are delivered"); if (in) for (int64 k = 0; k < n; ++k) if ((LD)d[k] != u.px[lo + k]) return strf("pixel %ld of %ld from %ld is wrong", (long)k, (long)n, (long)lo); }
    if (u.axes.size() == 2) { if ((e = rects<double>(h, u)).size() || (e = rects<float>(h, u)).size()) return e; arr2<float> g; h.read_image(g); for (int64 k = 0; k < N; ++k) if (g[k/u.axes[1]][k % u.axes[1]] != (float)u.px[k]) return "the image is wrong as float"; } else { arr2<double> d; if (!fails([&] { h.read_image(d); })) return "an image with the wrong number of dimensions was read"; }
    if (u.axes.size() == 3) { arr3<double> d; arr3<float> g; h.read_image(d); h.read_image(g); if ((int64)d.size1() != u.axes[0] || (int64)d.size2() != u.axes[1] || (int64)d.size3() != u.axes[2]) return "the cube has wrong dimensions"; int64 q = 0; for (int64 i = 0; i < u.axes[0]; ++i) for (int64 j = 0; j < u.axes[1]; ++j) for (int64 k = 0; k < u.axes[2]; ++k, ++q) if ((LD)d(i, j, k) != u.px[q] || g(i, j, k) != (float)u.px[q]) return "the cube is wrong"; } else { arr3<double> d; if (!fails([&] { h.read_image(d); })) return "an image with the wrong number of dimensions was read as a cube"; } return ""; }
};
// ---- keywords -------------------------------------------------------------------------------------------
struct Keys : Pure {
  struct V { int t; double d; int64 i; string s; }; vector<V> v; vector<string> names; int D = 2;
  void prepare() override { names = {"K", "ABCDEFGH", "KEY_1", "WITH-D", "lower", "MixedCase"};
    for (int64 i : {0ll, 5ll, 127ll}) v.push_back({0, 0, i, ""}); for (int64 i : {0ll, 255ll}) v.push_back({1, 0, i, ""}); for (int64 i : {-32768ll, 32767ll}) v.push_back({2, 0, i, ""}); for (int64 i : {-2147483648ll, 2147483647ll, 12ll}) v.push_back({3, 0, i, ""}); for (int64 i : {std::numeric_limits<int64>::max(), std::numeric_limits<int64>::min() + 1, (int64)1 << 53}) v.push_back({4, 0, i, ""}); for (double d : {0., 1.5, -3.25e10, 1e30}) v.push_back({5, d, 0, ""}); for (double d : {0., -0.1, 1e300, 123456.789, -2.5e-300, 5.}) v.push_back({6, d, 0, ""}); for (int b : {0, 1}) v.push_back({7, 0, b, ""});
    for (string s : {string("abc"), string("it's"), string("'"), string("with / slash"), string("a & b"), string("12"), string("T"), string(68, 'x'), string(69, 'y'), string(150, 'z'), string("  lead"), string(66, 'q') + "''"}) v.push_back({8, 0, 0, s}); }
  size_t size() override { return names.size() * v.size() * v.size(); } size_t batch() override { return 200; }
  static string show(const V &x) { static const char *T[] = {"int8", "uint8", "int16", "int32", "int64", "float32", "float64", "bool", "string"}; return string(T[x.t]) + " " + (x.t == 8 ? "'" + x.s + "'" : x.t >= 5 && x.t < 7 ? strf("%g", x.d) : strf("%lld", (long long)x.i)); }
  string describe(size_t i) override { Radix r(i); string n = names[r.take(names.size())]; size_t a = r.take(v.size()), b = r.take(v.size()); return "keyword " + n + " = " + show(v[a]) + ", then " + show(v[b]); }
  static void set(fitshandle &h, const string &n, const V &x) { switch (x.t) { case 0: h.set_key<int8>(n, x.i, "c"); break; case 1: h.set_key<uint8>(n, x.i); break; case 2: h.set_key<int16>(n, x.i); break; case 3: h.set_key<int32>(n, x.i, "a comment"); break; case 4: h.set_key<int64>(n, x.i); break; case 5: h.set_key<float>(n, x.d); break; case 6: h.set_key<double>(n, x.d); break; case 7: h.set_key<bool>(n, x.i); break; default: h.set_key<string>(n, x.s); } }
  static string test(const fitshandle &h, const string &n, const V &x) { auto bad = [&](const string &g) { return "keyword " + n + " = " + show(x) + " is read as " + g; }; if (!h.key_present(n)) return "keyword " + n + " is missing"; switch (x.t) { case 0: { auto g = h.get_key<int8>(n); if (g != x.i) return bad(strf("%d", g)); break; } case 1: { auto g = h.get_key<uint8>(n); if (g != x.i) return bad(strf("%d", g)); break; } case 2: { auto g = h.get_key<int16>(n); if (g != x.i) return bad(strf("%d", g)); break; } case 3: { auto g = h.get_key<int32>(n); if (g != x.i) return bad(strf("%d", g)); break; } case 4: { auto g = h.get_key<int64>(n); if (g != x.i) return bad(strf("%lld", (long long)g)); break; }
      case 5: { auto g = h.get_key<float>(n); if (!(std::fabs(g - x.d) <= 1e-6*std::fabs(x.d))) return bad(strf("%g", g)); break; } case 6: { auto g = h.get_key<double>(n); if (!(std::fabs(g - x.d) <= 1e-14*std::fabs(x.d))) return bad(strf("%.17g", g)); break; } case 7: { auto g = h.get_key<bool>(n); if (g != (bool)x.i) return bad(g ? "T" : "F"); break; } default: { auto g = h.get_key<string>(n); if (rstrip(g) != rstrip(x.s)) return bad("'" + g + "'"); } }
    if (x.t <= 4 && std::llabs(x.i) < (1ll << 53) && h.get_key<double>(n) != (double)x.i) return bad("another float64"); if (x.t <= 3 && h.get_key<int64>(n) != x.i) return bad("another int64"); return ""; }
  string run(size_t i, Out &o) override {
    Radix r(i); string n = names[r.take(names.size())], e, f = path(); V a = v[r.take(v.size())], b = v[r.take(v.size())]; unlink(f.c_str()); V ka{3, 0, 77, ""}, kb{8, 0, 0, "neighbour"}; string other = n == "K" ? "L" : "K";
    auto list = [&](fitshandle &h, bool has) { vector<string> k; h.get_all_keys(k); int c1 = 0, c2 = 0; for (auto &s : k) { string q = s, N = n; for (auto &ch : q) ch = toupper(ch); for (auto &ch : N) ch = toupper(ch); if (q == N) ++c1; if (q == "KEYEND" || q == "ZFIRST") ++c2; } if (c1 != (has ? 1 : 0) || c2 != 2) { string l; for (auto &s : k) l += " " + s; return "the list of keywords is wrong:" + l; } return string(); };
    { fitshandle h; h.create(f); h.insert_bintab({fitscolumn("c", "", 1, LEVELS_INT32)}); set(h, "ZFIRST", ka); if (h.key_present(n)) return "a keyword is present before it is set"; set(h, n, a); set(h, "KEYEND", kb); auto rest = [&]() { string q = test(h, "ZFIRST", ka); return q.size() ? q : test(h, "KEYEND", kb); };
      if ((e = test(h, n, a)).size() || (e = rest()).size() || (e = list(h, true)).size()) return e; h.add_comment("a comment line"); set(h, n, b); if ((e = test(h, n, b)).size() || (e = rest()).size() || (e = list(h, true)).size()) return "changed: " + e; h.goto_hdu(1); if (h.key_present(n)) return "the keyword is visible in another HDU"; h.goto_hdu(2); if ((e = test(h, n, b)).size()) return "after moving: " + e; h.delete_key(n); if (h.key_present(n)) return "a deleted keyword is present"; if (!fails([&] { h.get_key<string>(n); }) || !fails([&] { h.get_key<int32>(n); }) || !fails([&] { h.get_key<bool>(n); }) || !fails([&] { h.delete_key(n); })) return "a deleted keyword can be used"; if ((e = rest()).size() || (e = list(h, false)).size()) return "deleted: " + e; set(h, n, a); h.close(); }
    { fitshandle h; h.open(f); h.goto_hdu(2); if ((e = test(h, n, a)).size() || (e = list(h, true)).size()) return "opened again: " + e; } unlink(f.c_str()); o.put(b.t); return ""; }
};
// ---- misuse: everything that cannot be satisfied raises an error, and the handle still works ---------------
struct Misuse : Pure {
  enum { N = 40 }; size_t size() override { return 4*N; } size_t batch() override { return 4; }
  string describe(size_t i) override { static const char *S[] = {"a handle that was never opened", "a closed handle", "a handle whose open failed", "an open handle at a table"}; return strf("misuse %zu of %s", i / 4, S[i % 4]); }
  string run(size_t i, Out &o) override {
    string f = path(), bad = f + ".none"; unlink(f.c_str()); unlink(bad.c_str()); { fitshandle g; g.create(f); g.insert_bintab({fitscolumn("c", "u", 2, LEVELS_FLOAT64), fitscolumn("s", "", 4, LEVELS_STRING)}); arr<double> a(6); for (int k = 0; k < 6; ++k) a[k] = k; g.write_column(1, a); arr<string> t(3); t[0] = "x"; t[1] = "yy"; t[2] = "zzzz"; g.write_column(2, t); g.set_key<int32>("NUM", 4); arr2<float> im(2, 2, 1.f); g.insert_image(LEVELS_FLOAT32, im); g.close(); }
    fitshandle h; int st = i % 4; size_t k = i / 4; if (st == 1) { h.open(f); h.goto_hdu(2); h.close(); } if (st == 2) { if (!fails([&] { h.open(bad); })) return "a file that does not exist can be opened"; } if (st == 3) { h.open(f); h.goto_hdu(2); }
    arr<double> d(2, 0.); arr<string> s(1); arr2<double> d2(2, 2, 0.); arr3<double> d3; vector<string> keys; bool ok = false; // ok: the operation is legal on an open handle
    auto act = [&] { switch (k) {
      case 0: h.goto_hdu(1); h.goto_hdu(2); ok = true; break; case 1: ok = h.num_hdus() == 3; break; case 2: ok = h.fileName().size() > 0; break; case 3: ok = h.ncols() == 2; break; case 4: ok = h.nrows() == 3; break; case 5: ok = h.nelems(1) == 6 && h.nelems(2) == 3; break; case 6: ok = h.colname(1) == "c"; break; case 7: ok = h.colunit(1) == "u"; break; case 8: ok = h.repcount(1) == 2; break; case 9: ok = h.coltype(1) == LEVELS_FLOAT64; break; case 10: ok = h.efficientChunkSize(1) > 0; break; case 11: h.read_column(1, d, 4); ok = d[0] == 4; break; case 12: h.read_column(2, s, 2); ok = s[0] == "zzzz"; break; case 13: ok = h.get_key<int32>("NUM") == 4; break; case 14: ok = h.key_present("NUM"); break; case 15: h.get_all_keys(keys); ok = keys.size() > 0; break;
      case 16: h.axes(); break; case 17: h.read_image(d2); break; case 18: h.read_subimage(d); break; case 19: h.read_subimage(d2, 0, 0); break; case 20: h.read_image(d3); break; case 21: h.write_image(d2); break; case 22: h.write_subimage(d); break; case 23: h.write_column(1, d); break; case 24: h.write_column(2, s); break; case 25: h.set_key<int32>("NUM", 5); break; case 26: h.delete_key("NUM"); break; case 27: h.add_comment("x"); break; case 28: h.write_checksum(); break; case 29: h.insert_bintab({fitscolumn("z", "", 1, LEVELS_INT32)}); break; case 30: h.insert_image(LEVELS_FLOAT64, vector<int64>(2, 2)); break; case 31: h.insert_image(LEVELS_FLOAT64, d2); break;
      case 32: h.read_column(3, d); break; case 33: h.read_column(0, d); break; case 34: h.read_column(-1, d); break; case 35: h.read_column(1, d, 5); break; case 36: h.read_column(2, s, 3); break; case 37: h.read_column(1, d, -1); break; case 38: h.goto_hdu(0); break; default: h.colname(3); } };
    bool fl = fails(act); if (st < 3 && !fl) return "succeeds without a file"; if (st == 3 && !fl && !ok) return k < 16 ? "gives a wrong answer" : "succeeds although it cannot be satisfied"; if (st == 3 && k < 16 && fl) return "fails"; o.put(fl);
    h.open(f); h.goto_hdu(2); if (h.ncols() != 2 || h.nrows() != 3 || h.get_key<int32>("NUM") != 4 || h.num_hdus() != 3) return "the handle or the file is damaged"; arr<double> a; h.read_entire_column(1, a); for (int q = 0; q < 6; ++q) if (a[q] != q) return "the data is damaged"; h.goto_hdu(3); if (h.axes().size() != 2) return "the image is damaged"; h.close(); unlink(f.c_str());
    if (!fails([&] { fitshandle::delete_file(f); })) return "a file that does not exist was deleted"; { fitshandle g; g.create(f); g.close(); fitshandle::delete_file(f); if (access(f.c_str(), F_OK) == 0) return "the file was not deleted"; } return ""; }
};
// ---- unusual tables: long names, empty columns ---------------------------------------------------------------
struct Odd : Pure {
  size_t size() override { return 3*140 + 9; } size_t batch() override { return 40; }
  string describe(size_t i) override { return i < 420 ? strf("column %s of %zu characters", i / 140 == 0 ? "name" : i / 140 == 1 ? "unit" : "string width", i % 140) : strf("column of type %s with repetition count 0", tname(TY[i - 420])); }
  string run(size_t i, Out &o) override {
    string f = path(); unlink(f.c_str()); fitshandle h; h.create(f);
    if (i >= 420) { PDT t = TY[i - 420]; bool fl = fails([&] { h.insert_bintab({fitscolumn("e", "", 0, t), fitscolumn("d", "", 1, LEVELS_FLOAT64)}); }); o.put(fl); if (fl) { h.goto_hdu(1); return ""; } arr<double> d(2, 1.5); h.write_column(2, d); bool w = fails([&] { if (t == LEVELS_STRING) { arr<string> s(1); s[0] = ""; h.read_column(1, s); } else { arr<double> q(1); h.read_column(1, q); } }); if (!w && t != LEVELS_STRING) return "an element of an empty column was delivered"; w = fails([&] { arr<double> q(1, 2.); h.write_column(1, q); }); if (!w) return "an element of an empty column was written"; if (h.nelems(1) != (t == LEVELS_STRING ? 2 : 0)) return "an empty column has elements"; d.fill(0); h.read_column(2, d); return d[0] == 1.5 && d[1] == 1.5 && h.nrows() == 2 ? "" : "the other column is wrong"; }
    size_t n = i % 140; string s; for (size_t k = 0; k < n; ++k) s += 'a' + k % 26; int what = i / 140; bool fl = fails([&] { h.insert_bintab({fitscolumn(what == 0 ? s : "col", what == 1 ? s : "u", what == 2 ? (long)n + 1 : 1, what == 2 ? LEVELS_STRING : LEVELS_INT32), fitscolumn("d", "", 1, LEVELS_FLOAT64)}); }); o.put(fl); if (fl) return n <= 68 || what == 2 ? "a legal table is rejected" : "";
    if (what == 2) { arr<string> a(3), b; a[0] = s + "!"; a[1] = "q"; a[2] = s; h.write_column(1, a); h.read_entire_column(1, b); for (int k = 0; k < 3; ++k) if (rstrip(b[k]) != a[k]) return "string " + a[k] + " is read as " + b[k]; return h.repcount(1) == (long)n + 1 ? "" : "wrong width"; }
    arr<int32> a(3), b; for (int k = 0; k < 3; ++k) a[k] = k + 5; h.write_column(1, a); h.read_entire_column(1, b); for (int k = 0; k < 3; ++k) if (a[k] != b[k]) return "wrong values"; if (n <= 68 && (what ? h.colunit(1) : h.colname(1)) != s) return "wrong name or unit"; return ""; }
};
// ---- ASCII tables: values and strings, alone and together ------------------------------------------------
struct Ascii : Pure {
  static constexpr PDT T[7] = {LEVELS_UINT8, LEVELS_INT16, LEVELS_INT32, LEVELS_INT64, LEVELS_FLOAT32, LEVELS_FLOAT64, LEVELS_STRING};
  size_t size() override { return 7*7*6; } size_t batch() override { return 30; }
  string describe(size_t i) override { return strf("ASCII table of %s and %s, %zu rows", tname(T[i % 7]), tname(T[i/7 % 7]), (i/49)*(i/49)); }
  static string look(fitshandle &h, const MHdu &u) { if (h.nrows() != u.rows || h.ncols() != (int)u.cols.size()) return strf("%ld rows and %d columns", (long)h.nrows(), h.ncols()); for (size_t c = 0; c < u.cols.size(); ++c) { auto &k = u.cols[c]; if (h.colname(c + 1) != k.name || h.colunit(c + 1) != k.unit) return "wrong name or unit"; if (h.nelems(c + 1) != u.rows) return "wrong number of elements"; if (!u.rows) continue; if (k.type == LEVELS_STRING) { arr<string> a; h.read_entire_column(c + 1, a); for (long i = 0; i < u.rows; ++i) if (rstrip(a[i]) != k.s[i]) return "string '" + k.s[i] + "' is read as '" + a[i] + "'"; continue; } auto g = readt(h, k.type, c + 1, u.rows, 0); double tol = k.type == LEVELS_FLOAT32 ? 1e-7 : k.type == LEVELS_FLOAT64 || k.type == LEVELS_INT64 ? 1e-15 : 0; // ASCII tables hold 64-bit integers as doubles
     for (long i = 0; i < u.rows; ++i) if (!(std::fabs(g[i] - k.v[i]) <= tol*std::fabs(k.v[i]))) return strf("%s %.18Lg is read as %.18Lg", tname(k.type), k.v[i], g[i]); for (long i = 0; i < u.rows; ++i) if (readt(h, k.type, c + 1, 1, i)[0] != g[i]) return "an element read alone differs"; if (!fails([&] { readt(h, k.type, c + 1, u.rows + 1, 0); })) return "reading beyond the end succeeds"; } return ""; }
  static LD val(PDT t, int j) { LD v = value(t, j); return t == LEVELS_INT64 && std::fabs(v) > 4e18L ? (long long)(v / 4) : v; } // the extremes do not survive as doubles
  string run(size_t i, Out &o) override { PDT a = T[i % 7], b = T[i/7 % 7]; int rows = i/49; rows *= rows; string f = path(), e; unlink(f.c_str()); MHdu u; u.cols = {{"one", "m", a == LEVELS_STRING ? 6 : 1, a, {}, {}}, {"two", "", b == LEVELS_STRING ? 3 : 1, b, {}, {}}};
    { fitshandle h; h.create(f); h.insert_asctab(cols(u), "TAB"); for (int c = 0; c < 2; ++c) { auto &k = u.cols[c]; if (!rows) continue; if (k.type == LEVELS_STRING) { arr<string> s(rows); vector<string> v; for (int j = 0; j < rows; ++j) v.push_back(s[j] = sval(j + c, 9)); h.write_column(c + 1, s); mwrites(u, c + 1, v, 0); } else { vector<LD> v; for (int j = 0; j < rows; ++j) v.push_back(val(k.type, j)); writet(h, k.type, c + 1, v, 0); mwrite(u, c + 1, v, 0); } } if (rows > 2 && u.cols[1].type != LEVELS_STRING) { vector<LD> v = {val(b, 9), val(b, 8)}; writet(h, b, 2, v, 1); mwrite(u, 2, v, 1); } if ((e = look(h, u)).size()) return e; h.goto_hdu(1); h.goto_hdu(2); if ((e = look(h, u)).size()) return "entered again: " + e; h.close(); }
    { fitshandle h; h.open(f); h.goto_hdu(2); if ((e = look(h, u)).size()) return "opened again: " + e; } unlink(f.c_str()); o.put(rows); return ""; }
};
constexpr PDT Ascii::T[7];
int main(int argc, char **argv) { Registry reg; reg["hist"] = [] { return new Hist; }; reg["cols"] = [] { return new Cols; }; reg["conv"] = [] { return new Conv; }; reg["img"] = [] { return new Img; }; reg["keys"] = [] { return new Keys; }; reg["misuse"] = [] { return new Misuse; }; reg["odd"] = [] { return new Odd; }; reg["ascii"] = [] { return new Ascii; }; return main_(argc, argv, reg); }
