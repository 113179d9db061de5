// Inputs for the convolution harnesses: skies and beams with known, exactly representable coefficients.
#ifndef FIX_HPP
#define FIX_HPP
#include "vf.hpp"
#include "ref.hpp"
#include "fitsgen.hpp"
#include "conviqt.hpp"
#undef pi
namespace fix {
using std::string; using std::vector;
const double PI = ref::PI;
inline unsigned hash(unsigned a) { a ^= a >> 16; a *= 0x7feb352du; a ^= a >> 15; a *= 0x846ca68bu; a ^= a >> 16; return a; }
// dyadic values: all products and sums in single precision are exact
inline double coef(unsigned seed, int comp, int l, int m, int part) { int v = (int)(hash(seed*7919u + comp*131071u + l*8191u + m*127u + part*3u + 17u) % 31) - 15; return v / 8.0; }
struct Exp { ref::Alm c[3]; int lmax, mmax; bool pol; };
inline Exp dense(unsigned seed, int lmax, int mmax, bool pol) {
  Exp e; e.lmax = lmax; e.mmax = mmax; e.pol = pol;
  for (int k = 0; k < 3; ++k) { e.c[k] = ref::Alm(lmax, mmax); for (int m = 0; m <= mmax; ++m) for (int l = m; l <= lmax; ++l) { double re = coef(seed, k, l, m, 0), im = m ? coef(seed, k, l, m, 1) : 0; if (l == 0 && re == 0) re = 0.75; e.c[k].at(l, m) = ref::C(re, im); } }
  return e;
}
inline Exp zero(int lmax, int mmax, bool pol) { Exp e; e.lmax = lmax; e.mmax = mmax; e.pol = pol; for (auto &a : e.c) a = ref::Alm(lmax, mmax); return e; }
inline vector<fitsgen::Table> tables(const Exp &e, bool all3 = true) {
  vector<fitsgen::Table> t; for (int k = 0; k < (all3 ? 3 : 1); ++k) { fitsgen::Table x; x.lkey = e.lmax; x.mkey = e.mmax; for (int l = 0; l <= e.lmax; ++l) for (int m = 0; m <= std::min(l, e.mmax); ++m) { auto v = const_cast<ref::Alm &>(e.c[k]).at(l, m); x.rows.push_back({l, m, v.real(), v.imag()}); } t.push_back(x); }
  return t;
}
inline string tmpfile(const string &tag) { return vf::scratch() + "/" + tag + ".fits"; }
// template objects are read once per limits (solo), then filled through the public accessors
inline string template_file(bool sky, int lmax, int mmax) {
  string f = tmpfile(vf::strf("tpl_%d_%d_%d_%d", sky, lmax, mmax, getpid()));
  fitsgen::write(f, tables(zero(lmax, mmax, true))); return f;
}
inline void put(levels::Alm<xcomplex<float> > &a, const ref::Alm &c) { for (int m = 0; m <= a.Mmax(); ++m) for (int l = m; l <= a.Lmax(); ++l) { auto v = c.get(l, m); a(l, m) = xcomplex<float>(v.real(), v.imag()); } }
inline void fill(conviqt::sky &s, const Exp &e) { put(s.slmT(), e.c[0]); if (e.pol) { put(s.slmG(), e.c[1]); put(s.slmC(), e.c[2]); } }
inline void fill(conviqt::beam &b, const Exp &e) { put(b.blmT(), e.c[0]); if (e.pol) { put(b.blmG(), e.c[1]); put(b.blmC(), e.c[2]); } }
struct Sys { Exp es, eb; conviqt::sky s; conviqt::beam b; conviqt::detector d; };
inline std::shared_ptr<Sys> make(const Exp &es, const Exp &eb) {
  auto r = std::make_shared<Sys>(); r->es = es; r->eb = eb;
  static std::map<vector<int>, string> files;
  auto file = [&](bool sky, int l, int m) { auto &f = files[{sky, l, m, getpid()}]; if (f.empty()) f = template_file(sky, l, m); return f; };
  r->s.read(es.lmax, es.pol, file(true, es.lmax, es.lmax), 0, MPI_COMM_SELF);
  r->b.read(eb.lmax, 0, eb.pol, file(false, eb.lmax, eb.mmax), MPI_COMM_SELF); // mmax <= 0: taken from the file
  fill(r->s, es); fill(r->b, eb); r->d.set_epsilon(0.25);
  return r;
}
struct Dir { double phi, theta, psi; };
inline string hexd(double x) { return vf::strf("%.17g", x); }
inline string str(const Dir &d) { return "(phi=" + hexd(d.phi) + ",theta=" + hexd(d.theta) + ",psi=" + hexd(d.psi) + ")"; }
inline void load(conviqt::pointing &p, const vector<Dir> &rows, double junk3 = 1e300, double junk4 = -7.5) {
  p.alloc(5*rows.size()); for (size_t i = 0; i < rows.size(); ++i) { p[5*i] = rows[i].phi; p[5*i+1] = rows[i].theta; p[5*i+2] = rows[i].psi; p[5*i+3] = junk3; p[5*i+4] = junk4; }
}
inline bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
// Lagrange weights grow with the order; rounding error grows with them
inline double lebesgue(int order) { return std::pow(2.0, order) + 4; }
}
#endif
