// Independent writer of spherical-harmonic coefficient tables (plain cfitsio, no library code).
#ifndef FITSGEN_HPP
#define FITSGEN_HPP
#include <fitsio.h>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
namespace fitsgen {
struct Row { int l, m; double re, im; };
struct Table { std::vector<Row> rows; bool keys = true; int lkey = -1, mkey = -1; bool dbl = false; std::vector<long> rawindex; int ncols = 3; int keysel = -1; int rep = 1; char itype = 'J', retype = 0, imtype = 0; bool extra = false; };
inline void die(int st, const char *w) { if (st) { fprintf(stderr, "fitsgen: %s failed (%d)\n", w, st); abort(); } }
inline void write(const std::string &path, const std::vector<Table> &tabs) {
  unlink(path.c_str());
  fitsfile *f; int st = 0; fits_create_file(&f, path.c_str(), &st); die(st, "create");
  fits_create_img(f, 8, 0, 0, &st); die(st, "primary");
  for (auto &t : tabs) {
    const char *ty[] = {"index","real","imag"}; const char *fi[] = {"1J", "1E", "1E"}, *fd[] = {"1J", "1D", "1D"}; const char *un[] = {"","",""};
    if (t.rep > 1 || t.itype != 'J' || t.retype || t.imtype || t.extra) { // several values in a row, other column types, a further column
      std::string r = std::to_string(t.rep), q[] = {r + t.itype, r + (t.retype ? t.retype : t.dbl ? 'D' : 'E'), r + (t.imtype ? t.imtype : t.dbl ? 'D' : 'E'), "7E"}; const char *f4[] = {q[0].c_str(), q[1].c_str(), q[2].c_str(), q[3].c_str()}, *t4[] = {"index", "real", "imag", "error"}, *u4[] = {"", "", "", ""};
      fits_create_tbl(f, BINARY_TBL, 0, t.extra ? 4 : 3, (char **)t4, (char **)f4, (char **)u4, "ALM", &st); die(st, "table"); if (t.rows.size() % t.rep) abort();
    } else {
    fits_create_tbl(f, BINARY_TBL, 0, t.ncols, (char **)ty, (char **)(t.dbl ? fd : fi), (char **)un, "ALM", &st); die(st, "table"); }
    size_t n = t.rows.size(); std::vector<int> idx(n); std::vector<double> re(n), im(n);
    for (size_t i = 0; i < n; ++i) { auto &r = t.rows[i]; idx[i] = r.l*r.l + r.l + r.m + 1; re[i] = r.re; im[i] = r.im; if (i < t.rawindex.size()) idx[i] = t.rawindex[i]; }
    if (n) { fits_write_col(f, TINT, 1, 1, 1, n, idx.data(), &st); if (t.ncols > 1) fits_write_col(f, TDOUBLE, 2, 1, 1, n, re.data(), &st); if (t.ncols > 2) fits_write_col(f, TDOUBLE, 3, 1, 1, n, im.data(), &st); }
    die(st, "columns");
    { int l = t.lkey, m = t.mkey, sel = t.keysel >= 0 ? t.keysel : t.keys ? 3 : 0; if (sel & 1) fits_write_key(f, TINT, "MAX-LPOL", &l, 0, &st); if (sel & 2) fits_write_key(f, TINT, "MAX-MPOL", &m, 0, &st); }
    die(st, "keys");
  }
  fits_close_file(f, &st); die(st, "close");
}
}
#endif
