// Resource faults (P18): every allocation and every file operation of every library operation fails once, alone or with all later ones.
// The static objects' malloc family is wrapped by the linker (--wrap), operator new and the stdio calls of cfitsio are interposed.
#include "pure.hpp"
#include "fix.hpp"
#include "cconviqt.h"
#include "ls_alm_fitsio.h"
#include "ls_powspec.h"
#include "ls_wigner.h"
#include "ls_fftpack_support.h"
#include "ls_mpi_support.h"
#include "ls_fitshandle.h"
#include "ls_string_utils.h"
#include <dlfcn.h>
#include <malloc.h>
#include <omp.h>
#include <errno.h>
using namespace vf; using namespace levels; using conviqt::sky; using conviqt::beam; using conviqt::detector; using conviqt::pointing; using conviqt::convolver;
#include "ls_rotmatrix.h"
typedef vector<double> V;
// ---- injection -----------------------------------------------------------------------------------------------
enum { ALLOC, OPEN, READ, SEEK, WRITE, CLOSE, NKIND };
static const char *kindname[] = {"allocation", "file open", "file read", "file positioning", "file write", "file close"};
static struct Inj { bool armed; int kind; long at, count[NKIND]; bool persist; long hits; } J;
struct Shared { volatile int level; volatile long hits; }; static Shared *shared;
static long live_blocks, live_files;
static bool strike(int kind) {
  if (!J.armed || mpisim::in_api) return false;
  long c = ++J.count[kind]; if (kind != J.kind || J.at == 0) return false;
  bool f = J.persist ? c >= J.at : c == J.at; if (f) { if (!J.hits++) shared->level = omp_get_level(); shared->hits = J.hits; } return f;
}
// table of live blocks of the code under test (open addressing, never shrinks)
enum { TB = 1 << 18 }; static void *tab[TB]; static size_t used;
static size_t slot(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 46; }
static void add(void *p) { if (!p || mpisim::in_api) return; if (used > TB / 2) return; size_t i = slot(p) % TB; while (tab[i] && tab[i] != (void *)-1) i = (i + 1) % TB; if (!tab[i]) ++used; tab[i] = p; ++live_blocks; }
static bool del(void *p) { if (!p) return false; size_t i = slot(p) % TB; while (tab[i]) { if (tab[i] == p) { tab[i] = (void *)-1; --live_blocks; return true; } i = (i + 1) % TB; } return false; }
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); int __real_posix_memalign(void **, size_t, size_t); void __real_free(void *); void *__real_aligned_alloc(size_t, size_t); 
void *__wrap_malloc(size_t n) { if (strike(ALLOC)) { errno = ENOMEM; return 0; } void *p = __real_malloc(n); add(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (strike(ALLOC)) { errno = ENOMEM; return 0; } void *p = __real_calloc(a, b); add(p); return p; }
void *__wrap_realloc(void *q, size_t n) { if (strike(ALLOC)) { errno = ENOMEM; return 0; } del(q); void *p = __real_realloc(q, n); add(p); return p; }
int __wrap_posix_memalign(void **q, size_t a, size_t n) { if (strike(ALLOC)) return ENOMEM; int r = __real_posix_memalign(q, a, n); if (!r) add(*q); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (strike(ALLOC)) { errno = ENOMEM; return 0; } void *p = __real_aligned_alloc(a, n); add(p); return p; }
void __wrap_free(void *p) { del(p); __real_free(p); } }
void *operator new(size_t n) { if (strike(ALLOC)) throw std::bad_alloc(); void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); add(p); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return 0; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return 0; } }
void operator delete(void *p) noexcept { del(p); __real_free(p); }
void operator delete[](void *p) noexcept { del(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { del(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { del(p); __real_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { del(p); __real_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { del(p); __real_free(p); }
template<class F> static F next(const char *n) { F f = (F)dlsym(RTLD_NEXT, n); if (!f) abort(); return f; }
extern "C" {
FILE *fopen64(const char *p, const char *m) { static auto f = next<FILE *(*)(const char *, const char *)>("fopen64"); if (strike(OPEN)) { errno = EMFILE; return 0; } FILE *r = f(p, m); if (r) ++live_files; return r; }
FILE *fopen(const char *p, const char *m) { static auto f = next<FILE *(*)(const char *, const char *)>("fopen"); if (strike(OPEN)) { errno = EMFILE; return 0; } FILE *r = f(p, m); if (r) ++live_files; return r; }
size_t fread(void *b, size_t s, size_t n, FILE *h) { static auto f = next<size_t (*)(void *, size_t, size_t, FILE *)>("fread"); if (strike(READ)) { errno = EIO; return 0; } return f(b, s, n, h); }
size_t __fread_chk(void *b, size_t bl, size_t s, size_t n, FILE *h) { static auto f = next<size_t (*)(void *, size_t, size_t, size_t, FILE *)>("__fread_chk"); if (strike(READ)) { errno = EIO; return 0; } return f(b, bl, s, n, h); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *h) { static auto f = next<size_t (*)(const void *, size_t, size_t, FILE *)>("fwrite"); if (h != stderr && h != stdout && strike(WRITE)) { errno = ENOSPC; return 0; } return f(b, s, n, h); }
int fflush(FILE *h) { static auto f = next<int (*)(FILE *)>("fflush"); if (h != stderr && h != stdout && h && strike(WRITE)) { errno = ENOSPC; return EOF; } return f(h); }
int fseeko64(FILE *h, off64_t o, int w) { static auto f = next<int (*)(FILE *, off64_t, int)>("fseeko64"); if (strike(SEEK)) { errno = EIO; return -1; } return f(h, o, w); }
int fseek(FILE *h, long o, int w) { static auto f = next<int (*)(FILE *, long, int)>("fseek"); if (strike(SEEK)) { errno = EIO; return -1; } return f(h, o, w); }
int fclose(FILE *h) { static auto f = next<int (*)(FILE *)>("fclose"); bool s = strike(CLOSE); --live_files; int r = f(h); if (s) { errno = ENOSPC; return EOF; } return r; }
}
// ---- operations --------------------------------------------------------------------------------------------------
static string fSky, fBeam, fSkyBig, fTab, fOut; // input files (written by prepare) and the output file of this process
static const string LONGID = "a detector identifier that does not fit into a short string buffer";
static MPI_Comm COMM = MPI_COMM_SELF;
struct Ctx {
  std::unique_ptr<sky> s; std::unique_ptr<beam> b; std::unique_ptr<detector> d; std::unique_ptr<convolver> c; std::unique_ptr<pointing> p, p2;
  void *cs = 0, *cb = 0, *cd = 0, *cp = 0, *cc = 0; Alm<xcomplex<double> > a, a2, a3; Alm<xcomplex<float> > f; arr<double> u, w; arr<long> k; std::unique_ptr<PowSpec> ps; std::unique_ptr<fitshandle> h; V out; MPI_Manager *m = 0; MPI_Comm comm = COMM;
  void drop() { if (cc) conviqt_convolver_del(cc); if (cs) conviqt_sky_del(cs); if (cb) conviqt_beam_del(cb); if (cd) conviqt_detector_del(cd); if (cp) conviqt_pointing_del(cp); delete m; cc = cs = cb = cd = cp = 0; m = 0; }
  ~Ctx() { drop(); }
};
struct Failed {}; // an error reported by a return value
static void code(int r) { if (r) throw Failed(); }
template<class T> static T *obj(T *p) { if (!p) throw Failed(); return p; }
typedef std::function<void(Ctx &)> Fn;
struct Op { string name; Fn setup, act, look; };
template<class T> static void coefs(V &o, Alm<T> &a) { o.push_back(a.Lmax()); o.push_back(a.Mmax()); for (int m = 0; m <= a.Mmax(); ++m) for (int l = m; l <= a.Lmax(); ++l) { o.push_back(a(l, m).re); o.push_back(a(l, m).im); } }
static void look_sky(Ctx &x) { x.out.push_back(x.s->get_lmax()); coefs(x.out, x.s->slmT()); try { coefs(x.out, x.s->slmG()); coefs(x.out, x.s->slmC()); } catch (...) { x.out.push_back(-77); } }
static void look_beam(Ctx &x) { x.out.push_back(x.b->get_lmax()); x.out.push_back(x.b->get_mmax()); coefs(x.out, x.b->blmT()); try { coefs(x.out, x.b->blmG()); coefs(x.out, x.b->blmC()); } catch (...) { x.out.push_back(-77); } }
static const int NROW = 9;
static void rows(double *p) { for (int i = 0; i < NROW; ++i) { p[5*i] = 0.7*i; p[5*i + 1] = 0.15 + 0.33*i; p[5*i + 2] = 0.4*i - 1; p[5*i + 3] = 0; p[5*i + 4] = i; } }
static void mkpnt(Ctx &x) { x.p.reset(new pointing); x.p->alloc(5*NROW); rows(&(*x.p)[0]); }
// a failed convolution may leave the pointing empty; its rows have to be supplied again
static void refill(Ctx &x) { if (x.p) { x.p->alloc(5*NROW); rows(&(*x.p)[0]); } if (x.cp && x.cc) { conviqt_pointing_alloc(x.cp, 5*NROW); rows(conviqt_pointing_data(x.cp)); } }
static void look_pnt(Ctx &x) { for (size_t i = 0; i < x.p->size(); ++i) x.out.push_back((*x.p)[i]); }
static void mkin(Ctx &x, bool pol) { x.s.reset(new sky(0, pol, fSky, 0, x.comm)); x.b.reset(new beam(0, 0, pol, fBeam, x.comm)); x.d.reset(new detector("d")); x.d->set_epsilon(0.25); }
static void mkcin(Ctx &x, bool pol) { x.drop(); x.cs = conviqt_sky_new(); x.cb = conviqt_beam_new(); x.cd = conviqt_detector_new(); conviqt_sky_read(x.cs, 0, pol, (char *)fSky.c_str(), 0, x.comm); conviqt_beam_read(x.cb, 0, 0, pol, (char *)fBeam.c_str(), x.comm); x.cp = conviqt_pointing_new(); conviqt_pointing_alloc(x.cp, 5*NROW); rows(conviqt_pointing_data(x.cp)); }
static void fillalm(Alm<xcomplex<double> > &a, int L, int M, int seed = 1) { a.Set(L, M); for (int m = 0; m <= M; ++m) for (int l = m; l <= L; ++l) a(l, m) = xcomplex<double>(fix::coef(seed, 0, l, m, 0), m ? fix::coef(seed, 0, l, m, 1) : 0); }
static const int ntheta = 5;
static void thetas(arr<double> &t) { t.alloc(ntheta); for (int i = 0; i < ntheta; ++i) t[i] = 0.3 + 0.4*i; }
static vector<fitscolumn> columns() { return {fitscolumn("value", "K", 2, LEVELS_FLOAT64), fitscolumn("count", "", 1, LEVELS_INT32), fitscolumn("name", "", 12, LEVELS_STRING)}; }
static void readback(Ctx &x, const string &f, int hdus) { for (int i = 0; i < hdus; ++i) { int l, m; fitshandle h; h.open(f); h.goto_hdu(2 + i); get_almsize(h, l, m); Alm<xcomplex<double> > a; read_Alm_from_fits(h, a, l, m); coefs(x.out, a); } }
static vector<Op> OPS;
static void ops() {
  auto op = [](const char *n, Fn s, Fn a, Fn l) { OPS.push_back({n, s, a, l}); }; Fn none = [](Ctx &) {};
  for (int pol = 0; pol < 2; ++pol) {
    const char *P = pol ? "polarised" : "unpolarised";
    op(strf("sky constructor, %s", P).c_str(), none, [=](Ctx &x) { x.s.reset(new sky(0, pol, fSky, 20, x.comm)); }, look_sky);
    op(strf("reading a sky again, %s", P).c_str(), [=](Ctx &x) { x.s.reset(new sky(0, true, fSky, 0, x.comm)); }, [=](Ctx &x) { x.s->read(0, pol, fSkyBig, 0, x.comm); }, look_sky);
    op(strf("beam constructor, %s", P).c_str(), none, [=](Ctx &x) { x.b.reset(new beam(0, 0, pol, fBeam, x.comm)); }, look_beam);
    op(strf("reading a beam again, %s", P).c_str(), [=](Ctx &x) { x.b.reset(new beam(3, 1, true, fBeam, x.comm)); }, [=](Ctx &x) { x.b->read(0, 0, pol, fBeam, x.comm); }, look_beam);
    for (int order = 1; order <= 5; order += 4) for (int cal = 0; cal < 2; ++cal) op(strf("convolution, %s, order %d, %s", P, order, cal ? "calibrated" : "raw").c_str(), [=](Ctx &x) { mkin(x, pol); mkpnt(x); x.c.reset(new convolver(x.s.get(), x.b.get(), x.d.get(), pol, 4, 2, order, 0, x.comm)); }, [=](Ctx &x) { x.c->convolve(*x.p, cal); }, look_pnt);
    op(strf("C convolution, %s", P).c_str(), [=](Ctx &x) { mkcin(x, pol); x.cc = conviqt_convolver_new(x.cs, x.cb, x.cd, pol, 4, 2, 3, 0, x.comm); }, [](Ctx &x) { code(conviqt_convolver_convolve(x.cc, x.cp, 1)); }, [](Ctx &x) { double *d = conviqt_pointing_data(x.cp); x.out.insert(x.out.end(), d, d + 5*NROW); });
  }
  op("convolution with all diagnostics", [](Ctx &x) { mkin(x, true); mkpnt(x); x.c.reset(new convolver(x.s.get(), x.b.get(), x.d.get(), true, 4, 2, 3, 6, x.comm)); }, [](Ctx &x) { x.c->convolve(*x.p, true); }, look_pnt);
  op("convolver construction and replacement", [](Ctx &x) { mkin(x, true); mkpnt(x); }, [](Ctx &x) { x.c.reset(new convolver(x.s.get(), x.b.get(), x.d.get(), true, 4, 2, 3, 0, x.comm)); x.c->set_beam(x.b.get()); x.c->set_sky(x.s.get()); x.c->set_detector(x.d.get()); }, [](Ctx &x) { x.c->convolve(*x.p, true); look_pnt(x); });
  op("pointing allocation and copy", [](Ctx &x) { mkpnt(x); }, [](Ctx &x) { std::unique_ptr<pointing> q(new pointing(*x.p)); pointing r; r.alloc(10); r = *q; x.p2.reset(new pointing); x.p2->alloc(5*NROW); *x.p2 = r; }, [](Ctx &x) { for (size_t i = 0; i < x.p2->size(); ++i) x.out.push_back((*x.p2)[i]); });
  op("detector", none, [](Ctx &x) { x.d.reset(new detector(LONGID)); x.d->set_id(x.d->get_id() + LONGID); }, [](Ctx &x) { x.out.push_back(x.d->get_id() == LONGID + LONGID); });
  op("copying a sky and a beam", [](Ctx &x) { mkin(x, true); }, [](Ctx &x) { sky q(*x.s); *x.s = q; beam r(*x.b); *x.b = r; }, [](Ctx &x) { look_sky(x); look_beam(x); });
  op("C sky", none, [](Ctx &x) { if (!x.cs) x.cs = obj(conviqt_sky_new()); code(conviqt_sky_read(x.cs, 0, 1, (char *)fSky.c_str(), 30, x.comm)); code(conviqt_sky_remove_monopole(x.cs)); code(conviqt_sky_remove_dipole(x.cs)); }, [](Ctx &x) { sky *s = (sky *)x.cs; coefs(x.out, s->slmT()); coefs(x.out, s->slmG()); coefs(x.out, s->slmC()); });
  op("C beam", none, [](Ctx &x) { if (!x.cb) x.cb = obj(conviqt_beam_new()); code(conviqt_beam_read(x.cb, 0, 0, 1, (char *)fBeam.c_str(), x.comm)); x.w.alloc(0); }, [](Ctx &x) { beam *s = (beam *)x.cb; coefs(x.out, s->blmT()); coefs(x.out, s->blmG()); coefs(x.out, s->blmC()); });
  op("C detector", none, [](Ctx &x) { if (x.cd) { conviqt_detector_del(x.cd); x.cd = 0; } x.cd = obj(conviqt_detector_new_with_id((char *)LONGID.c_str())); code(conviqt_detector_set_id(x.cd, (char *)(LONGID + LONGID).c_str())); code(conviqt_detector_set_epsilon(x.cd, 0.5)); char buf[400]; code(conviqt_detector_get_id(x.cd, buf)); if (LONGID + LONGID != buf) x.out.push_back(77); }, [](Ctx &x) { double e = 0; conviqt_detector_get_epsilon(x.cd, &e); x.out.push_back(e); });
  op("C detector without identifier", none, [](Ctx &x) { if (x.cd) { conviqt_detector_del(x.cd); x.cd = 0; } x.cd = obj(conviqt_detector_new()); }, [](Ctx &x) { char b[100]; conviqt_detector_get_id(x.cd, b); x.out.push_back(b[0]); });
  op("C pointing", none, [](Ctx &x) { if (x.cp) { conviqt_pointing_del(x.cp); x.cp = 0; } x.cp = obj(conviqt_pointing_new()); code(conviqt_pointing_alloc(x.cp, 5*NROW)); code(conviqt_pointing_alloc(x.cp, 10*NROW)); rows(conviqt_pointing_data(x.cp)); rows(conviqt_pointing_data(x.cp) + 5*NROW); }, [](Ctx &x) { double *d = conviqt_pointing_data(x.cp); x.out.insert(x.out.end(), d, d + 10*NROW); });
  op("C convolver", [](Ctx &x) { mkcin(x, false); }, [](Ctx &x) { if (x.cc) { conviqt_convolver_del(x.cc); x.cc = 0; } x.cc = obj(conviqt_convolver_new(x.cs, x.cb, x.cd, 0, 4, 2, 3, 0, x.comm)); code(conviqt_convolver_set_sky(x.cc, x.cs)); code(conviqt_convolver_set_beam(x.cc, x.cb)); code(conviqt_convolver_set_detector(x.cc, x.cd)); }, [](Ctx &x) { if (conviqt_convolver_convolve(x.cc, x.cp, 0)) x.out.push_back(-1); double *d = conviqt_pointing_data(x.cp); x.out.insert(x.out.end(), d, d + 5*NROW); });
  // expansions and their files
  op("reading an expansion", none, [](Ctx &x) { int l, m; get_almsize(fSky, l, m, 3); read_Alm_from_fits(fSky, x.a, l, m, 3); }, [](Ctx &x) { coefs(x.out, x.a); });
  op("reading a polarised expansion", none, [](Ctx &x) { int l, m; get_almsize_pol(fSky, l, m); read_Alm_from_fits(fSky, x.a, x.a2, x.a3, l, m); }, [](Ctx &x) { coefs(x.out, x.a); coefs(x.out, x.a2); coefs(x.out, x.a3); });
  op("writing an expansion", [](Ctx &x) { fillalm(x.a, 5, 3); }, [](Ctx &x) { unlink(fOut.c_str()); write_Alm_to_fits(fOut, x.a, 5, 3, LEVELS_FLOAT64); }, [](Ctx &x) { readback(x, fOut, 1); });
  op("writing a polarised expansion", [](Ctx &x) { fillalm(x.a, 5, 3, 1); fillalm(x.a2, 5, 3, 2); fillalm(x.a3, 5, 3, 3); }, [](Ctx &x) { unlink(fOut.c_str()); write_Alm_to_fits(fOut, x.a, x.a2, x.a3, 5, 3, LEVELS_FLOAT64); }, [](Ctx &x) { readback(x, fOut, 3); });
  op("writing a long expansion", [](Ctx &x) { fillalm(x.a, 60, 60); }, [](Ctx &x) { unlink(fOut.c_str()); write_Alm_to_fits(fOut, x.a, 60, 60, LEVELS_FLOAT64); }, [](Ctx &x) { readback(x, fOut, 1); });
  op("writing a compressed expansion", [](Ctx &x) { fillalm(x.a, 40, 30); }, [](Ctx &x) { unlink(fOut.c_str()); fitshandle o; o.create(fOut); write_compressed_Alm_to_fits(o, x.a, 40, 30, LEVELS_FLOAT64); o.close(); }, [](Ctx &x) { readback(x, fOut, 1); });
  // the file layer
  op("writing a table", [](Ctx &x) { x.u.alloc(8000); for (int i = 0; i < 8000; ++i) x.u[i] = i; }, [](Ctx &x) { unlink(fOut.c_str()); fitshandle h; h.create(fOut); h.insert_bintab(columns(), "TAB"); h.write_column(1, x.u); arr<string> s(3); s[0] = "one"; s[1] = "twenty-two"; s[2] = "3"; h.write_column(3, s, 5); h.set_key("NAME", LONGID + LONGID); h.set_key("COUNT", int32(4)); h.close(); }, [](Ctx &x) { fitshandle h; h.open(fOut); h.goto_hdu(2); arr<double> d; h.read_entire_column(1, d); for (size_t i = 0; i < d.size(); ++i) x.out.push_back(d[i]); arr<string> s(3); h.read_column(3, s, 5); x.out.push_back(s[0] == "one" && s[1] == "twenty-two" && s[2] == "3"); x.out.push_back(h.get_key<string>("NAME") == LONGID + LONGID); x.out.push_back(h.get_key<int32>("COUNT")); });
  op("writing an ASCII table and an image", none, [](Ctx &x) { unlink(fOut.c_str()); fitshandle h; h.create(fOut); h.insert_asctab({fitscolumn("v", "", 1, LEVELS_FLOAT64), fitscolumn("s", "", 5, LEVELS_STRING)}); arr<double> d(4, 1.5); h.write_column(1, d); arr<string> s(2); s[0] = "ab"; s[1] = "cd"; h.write_column(2, s); arr2<double> i(30, 40, 2.5); h.insert_image(LEVELS_FLOAT64, i); h.insert_image(LEVELS_FLOAT32, vector<int64>(3, 10)); h.close(); }, [](Ctx &x) { fitshandle h; h.open(fOut); x.out.push_back(h.num_hdus()); h.goto_hdu(2); arr<double> d; h.read_entire_column(1, d); for (size_t i = 0; i < d.size(); ++i) x.out.push_back(d[i]); arr<string> s; h.read_entire_column(2, s); x.out.push_back(s[0] == "ab" && s[1] == "cd"); h.goto_hdu(3); arr2<double> i; h.read_image(i); for (int a = 0; a < 30; ++a) for (int b = 0; b < 40; ++b) x.out.push_back(i[a][b]); h.goto_hdu(4); for (auto a : h.axes()) x.out.push_back(a); });
  op("reading a table", none, [](Ctx &x) { fitshandle h; h.open(fTab); x.out.push_back(h.num_hdus()); h.goto_hdu(2); h.read_entire_column(1, x.u); arr<string> s; h.read_entire_column(3, s); vector<string> k; h.get_all_keys(k); x.k.alloc(3); x.k[0] = k.size(); x.k[1] = s[1].size() + h.get_key<string>("NAME").size(); x.k[2] = h.key_present("NONE") + 10*h.get_key<int32>("COUNT"); h.close(); }, [](Ctx &x) { for (size_t i = 0; i < x.u.size(); ++i) x.out.push_back(x.u[i]); for (size_t i = 0; i < x.k.size(); ++i) x.out.push_back(x.k[i]); });
  // tools
  op("expansions", [](Ctx &x) { fillalm(x.a, 6, 4); }, [](Ctx &x) { x.a2.Set(3, 2); x.a2 = x.a; Alm<xcomplex<double> > q(x.a); x.a3.Set(8, 8); x.a3.SetToZero(); x.a3 = q; }, [](Ctx &x) { coefs(x.out, x.a2); coefs(x.out, x.a3); });
  op("rotation", [](Ctx &x) { fillalm(x.a, 6, 6); }, [](Ctx &x) { x.a2 = x.a; rotate_alm(x.a2, 0.3, 0.7, -1.1); }, [](Ctx &x) { coefs(x.out, x.a2); });
  op("rotation of polarised expansions", [](Ctx &x) { fillalm(x.a, 6, 6); }, [](Ctx &x) { Alm<xcomplex<double> > q = x.a, r = x.a; x.a2 = x.a; rotmatrix m; m.Make_CPAC_Euler_Matrix(0.1, 0.4, 2); rotate_alm(x.a2, q, r, m); }, [](Ctx &x) { coefs(x.out, x.a2); });
  op("smoothing and spectra", [](Ctx &x) { fillalm(x.a, 8, 8); fillalm(x.a2, 8, 8, 4); }, [](Ctx &x) { x.a3 = x.a; Alm<xcomplex<double> > q = x.a2, r = x.a2; smoothWithGauss(x.a3, 0.1); smoothWithGauss(x.a3, q, r, 0.1); x.ps.reset(new PowSpec); extract_powspec(x.a3, *x.ps); extract_powspec(x.a3, q, r, *x.ps); extract_crosspowspec(x.a3, x.a2, *x.ps); }, [](Ctx &x) { coefs(x.out, x.a3); for (int l = 0; l <= 8; ++l) x.out.push_back(x.ps->tt(l)); });
  op("Wigner generators", none, [](Ctx &x) { arr<double> t; thetas(t); wignergen g(9, t, 1e-30); g.prepare(2, 3); x.w.alloc(ntheta*10); x.w.fill(0); for (int i = 0; i < ntheta; ++i) { int fl; const arr<double> &r = g.calc(i, fl); for (int l = fl; l <= 9; ++l) x.w[10*i + l] = r[l]; } wigner_d_risbo_scalar rs(6, 0.4); rs.recurse(); wigner_d_risbo_openmp ro(6, 0.4); ro.recurse(); }, [](Ctx &x) { for (size_t i = 0; i < x.w.size(); ++i) x.out.push_back(x.w[i]); });
  op("Fourier transforms", none, [](Ctx &x) { x.w.alloc(520); for (int i = 0; i < 520; ++i) x.w[i] = std::sin(i*i % 1000); int lens[] = {7, 12, 53, 113, 251, 514}; for (int n : lens) { rfft r(n); arr<double> q(n); for (int i = 0; i < n; ++i) q[i] = x.w[i]; r.forward_fftpack(q); cfft c(n); arr<xcomplex<double> > z(n); for (int i = 0; i < n; ++i) z[i] = xcomplex<double>(q[i], i); c.backward(z); rfft r2(r); cfft c2; c2 = c; c2.forward(z); arr<double> h(q); { real_plan pl = make_real_plan(n); real_plan_forward_fftw(pl, &h[0]); real_plan_backward_fftw(pl, &h[0]); kill_real_plan(pl); } r2.backward_fftpack(q); r2.backward_c(z); arr<xcomplex<double> > zz(z); r2.forward_c(zz); for (int i = 0; i < n; ++i) q[i] += h[i]; for (int i = 0; i < n; ++i) x.w[i] = q[i] + z[i].re / n; } }, [](Ctx &x) { for (size_t i = 0; i < x.w.size(); ++i) x.out.push_back(x.w[i]); });
  op("sorting", none, [](Ctx &x) { x.u.alloc(100); x.k.alloc(20); for (int i = 0; i < 100; ++i) x.u[i] = (i*37) % 41; for (int i = 0; i < 20; ++i) x.k[i] = i; conviqt::hpsort_arrTheta(x.u); conviqt::hpsort_arrTime(x.u); conviqt::hpsort_arrTOD(x.u); arr<double> q(20), r(20); for (int i = 0; i < 20; ++i) { q[i] = x.u[i]; r[i] = i; } conviqt::hpsort_DL(q, x.k); conviqt::hpsort_DDcm(q, r); }, [](Ctx &x) { for (size_t i = 0; i < x.u.size(); ++i) x.out.push_back(x.u[i]); for (size_t i = 0; i < x.k.size(); ++i) x.out.push_back(x.k[i]); });
  op("message passing", [](Ctx &x) { x.u.alloc(6); for (int i = 0; i < 6; ++i) x.u[i] = i; delete x.m; x.m = new MPI_Manager(x.comm); }, [](Ctx &x) { x.m->gatherv(x.u, x.w); arr<int> ni(1, 6), no; arr<double> o; x.m->all2allv_easy(x.u, ni, o, no); arr<double> q; x.m->all2all(x.u, q); x.m->allreduce(q, MPI_Manager::Sum); x.w = q; }, [](Ctx &x) { for (size_t i = 0; i < x.w.size(); ++i) x.out.push_back(x.w[i]); });
  op("strings", none, [](Ctx &x) { string t = dataToString(1.5) + " " + dataToString(LONGID) + " " + intToString(5, 9) + trim("   " + LONGID + "  "); vector<string> v; tokenize(t, ' ', v); vector<double> d; split("1.5 2.5 -3", d); x.w.alloc(d.size() + 2); for (size_t i = 0; i < d.size(); ++i) x.w[i] = d[i]; x.w[3] = v.size(); x.w[4] = stringToData<int>(" 42 ") + t.size(); }, [](Ctx &x) { for (size_t i = 0; i < x.w.size(); ++i) x.out.push_back(x.w[i]); });
}
// outcome of an attempt: "" succeeded, otherwise how the failure was reported
static string attempt(const Fn &f, Ctx &x) {
  try { f(x); return ""; } catch (Failed &) { return "code"; } catch (std::bad_alloc &) { return "bad_alloc"; } catch (std::exception &) { return "exception"; } catch (LEVELSError &) { return "LEVELSError"; }
}
static V observed(const Op &o, Ctx &x) { x.out.clear(); o.look(x); V v = x.out; x.out.clear(); return v; }
static bool alike(const V &a, const V &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-12*(std::fabs(b[i]) + 1))) return false; return true; }
static void arm(int kind, long at, bool persist) { memset(&J, 0, sizeof J); J.kind = kind; J.at = at; J.persist = persist; shared->level = 0; shared->hits = 0; J.armed = true; }
static string episode(const Op &o, int kind, long at, bool persist, long *counts) {
  V want; { Ctx x; o.setup(x); string e = attempt(o.act, x); if (e.size()) return "fails without a fault (" + e + ")"; want = observed(o, x); }
  V dummy; string msg; msg.reserve(4000); long base, fbase; 
  for (int round = 0; round < 2; ++round) { // the first round warms up
    base = live_blocks; fbase = live_files;
    if (getenv("VF_LEAK")) fprintf(stderr, "round %d: %ld blocks\n", round, base);
    { Ctx x; o.setup(x); string e, e2; e.reserve(100); e2.reserve(100);
      arm(kind, round ? at : 0, persist);
      e = attempt(o.act, x); J.armed = false; if (counts) memcpy(counts, J.count, sizeof J.count);
      if (e.empty()) { string le; V got; try { got = observed(o, x); } catch (...) { le = "cannot be observed"; } if (le.size() || !alike(got, want)) msg = J.hits ? "reports success although a resource failure spoiled its result" : "result differs without a fault"; }
      else if (!J.hits) msg = "fails (" + e + ") although nothing failed";
      if (msg.empty()) { if (e.size()) refill(x); e2 = attempt(o.act, x); if (e2.size()) msg = "the same objects cannot be used again after a reported failure (" + e2 + ")"; else { V got; try { got = observed(o, x); } catch (...) { got.push_back(-12345); } if (!alike(got, want)) msg = "the same objects give a wrong result when used again after the failure"; } }
    }
    if (msg.size()) return msg;
    unlink(fOut.c_str());
  }
  if (live_blocks != base) msg = strf("%ld memory blocks are leaked", live_blocks - base); else if (live_files != fbase) msg = strf("%ld files stay open", live_files - fbase);
  return msg;
}
struct Fault : Pure {
  struct Case { int op, kind; bool persist; long at; }; vector<Case> cs; bool alloc;
  Fault(bool a) : alloc(a) {}
  // runs f in a child process; returns its text or how it died
  static string child(const std::function<string()> &f) {
    int p[2]; if (pipe(p)) abort(); fflush(stdout); fflush(stderr); pid_t k = fork();
    if (k == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); ::close(p[0]); alarm(60); string r; try { r = f(); } catch (...) { r = "an exception escaped outside the faulted call"; } r = "D" + r; if (::write(p[1], r.data(), r.size()) != (ssize_t)r.size()) _exit(9); _exit(0); }
    ::close(p[1]); string r; char b[4096]; ssize_t n; while ((n = ::read(p[0], b, sizeof b)) > 0) r.append(b, n); ::close(p[0]); int st; waitpid(k, &st, 0);
    if (r.size() && r[0] == 'D' && WIFEXITED(st) && WEXITSTATUS(st) == 0) return r.substr(1);
    if (WIFSIGNALED(st)) return strf("X the process is killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    return strf("X the process ends with exit code %d", WEXITSTATUS(st));
  }
  void prepare() override {
    shared = (Shared *)mmap(0, sizeof *shared, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    int id = getpid(); fSky = fix::tmpfile(strf("fsky%d", id)); fBeam = fix::tmpfile(strf("fbeam%d", id)); fSkyBig = fix::tmpfile(strf("fbig%d", id)); fTab = fix::tmpfile(strf("ftab%d", id)); fOut = fix::tmpfile(strf("fout%d", id));
    fitsgen::write(fSky, fix::tables(fix::dense(1, 4, 4, true))); fitsgen::write(fBeam, fix::tables(fix::dense(2, 4, 2, true))); fitsgen::write(fSkyBig, fix::tables(fix::dense(3, 6, 6, true)));
    ops();
    { string keep = fOut; fOut = fTab; for (auto &o : OPS) if (o.name == "writing a table") { Ctx x; o.setup(x); o.act(x); } fOut = keep; }
    for (size_t i = 0; i < OPS.size(); ++i) {
      long cnt[NKIND] = {0}; string r = child([&]() { long c[NKIND] = {0}; string e = episode(OPS[i], ALLOC, 0, false, c); string t; for (int k = 0; k < NKIND; ++k) t += strf("%ld ", c[k]); return e.empty() ? t : "0 0 0 0 0 0"; });
      const char *q = r.c_str(); for (int k = 0; k < NKIND; ++k) { char *e; cnt[k] = strtol(q, &e, 10); q = e; }
      cs.push_back({(int)i, ALLOC, false, 0});
      for (int k = 0; k < NKIND; ++k) if ((k == ALLOC) == alloc && !(k == SEEK && OPS[i].name.compare(0, 7, "writing") == 0)) for (int p = k == WRITE; p < 2; ++p) // cfitsio itself ignores single failures of writing and positioning in a file it modifies
       for (long a = 1; a <= cnt[k]; ++a) cs.push_back({(int)i, k, (bool)p, a});
    }
  }
  size_t size() override { return cs.size(); } size_t batch() override { return 40; } double timeout() override { return 120; }
  string describe(size_t i) override { auto &c = cs[i]; return c.at ? strf("%s, %s %ld%s fails", OPS[c.op].name.c_str(), kindname[c.kind], c.at, c.persist ? " and every later one" : "") : OPS[c.op].name + " without faults"; }
  string run(size_t i, Out &o) override { auto &c = cs[i]; static string mine; if (mine.empty()) { mine = fOut + strf(".%d", getpid()); shared = (Shared *)mmap(0, sizeof *shared, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); } fOut = mine; shared->level = 0; shared->hits = 0; string r = child([&] { return episode(OPS[c.op], c.kind, c.at, c.persist, 0); }); o.put(r.empty()); o.put(shared->hits); unlink(fOut.c_str());
    if (r.size() && r[0] == 'X') { o.put(shared->level); o.put(r.find("exit code 1") != string::npos && r.find("exit code 1") + 11 == r.size()); } return r; }
  string check(size_t i, const vector<Out> &o) override { const string &m = o[0].note; if (m.empty()) return "";
    if (m[0] == 'X' && cs[i].kind == ALLOC && o[0].d.size() > 3) { const string &n = OPS[cs[i].op].name;
      if (o[0].d[2] > 0) { if (n.find("onvolution") != string::npos) { known("convolution-parallel-allocation", describe(i) + ": " + m.substr(2)); return ""; } } 
      if (o[0].d[3] > 0 && (n.find("onvolution") != string::npos || n == "Fourier transforms")) { known("fft-allocation-exit", describe(i) + ": " + m.substr(2)); return ""; } }
    return m; }
};
// ---- sequences of calls, failing or not: nothing is held after the objects are gone ----------------------------------------
struct Leak : Pure {
  vector<Op> st; string bad, cut, notfits; int depth = thorough() ? 3 : 2;
  void fail(const char *n, Fn s, Fn f) { st.push_back({string(n), s, f, [](Ctx &) {}}); }
  void prepare() override {
    Fault f(false); f.prepare(); st = OPS; bad = fSky + ".none"; cut = fix::tmpfile(strf("fcut%d", getpid())); notfits = fix::tmpfile(strf("fnot%d", getpid())); unlink(bad.c_str());
    { FILE *i = fopen(fSky.c_str(), "r"), *o = fopen(cut.c_str(), "w"); vector<char> b(2880*4 + 700); size_t n = fread(b.data(), 1, b.size(), i); fwrite(b.data(), 1, n, o); fclose(i); fclose(o); o = fopen(notfits.c_str(), "w"); fputs("this is not a FITS file", o); fclose(o); }
    Fn none = [](Ctx &) {};
    for (string q : {bad, cut, notfits}) { fail("sky from an unusable file", none, [=](Ctx &x) { if (!x.s) x.s.reset(new sky); x.s->read(0, true, q, 0, x.comm); }); fail("beam from an unusable file", none, [=](Ctx &x) { if (!x.b) x.b.reset(new beam); x.b->read(0, 0, true, q, x.comm); }); fail("constructor from an unusable file", none, [=](Ctx &x) { x.s.reset(new sky(0, true, q, 0, x.comm)); }); fail("C sky from an unusable file", none, [=](Ctx &x) { if (!x.cs) x.cs = conviqt_sky_new(); conviqt_sky_read(x.cs, 0, 1, (char *)q.c_str(), 0, x.comm); }); fail("expansion from an unusable file", none, [=](Ctx &x) { read_Alm_from_fits(q, x.a, 3, 3); }); fail("opening an unusable file", none, [=](Ctx &x) { if (!x.h) x.h.reset(new fitshandle); x.h->open(q); x.h->goto_hdu(9); }); }
    fail("convolver with impossible limits", [](Ctx &x) { mkin(x, false); mkpnt(x); }, [](Ctx &x) { x.c.reset(new convolver(x.s.get(), x.b.get(), x.d.get(), true, 40, 20, -3, 0, x.comm)); });
    fail("C convolver with impossible limits", [](Ctx &x) { mkcin(x, false); }, [](Ctx &x) { void *c = conviqt_convolver_new(x.cs, x.cb, x.cd, 1, 40, 20, 3, 0, x.comm); if (c) conviqt_convolver_del(c); });
    fail("convolution with an illegal angle", [](Ctx &x) { mkin(x, false); mkpnt(x); x.c.reset(new convolver(x.s.get(), x.b.get(), x.d.get(), false, 4, 2, 3, 0, x.comm)); }, [](Ctx &x) { (*x.p)[1] = 7; x.c->convolve(*x.p, true); });
    fail("wrong access to an open file", none, [](Ctx &x) { if (!x.h) x.h.reset(new fitshandle); x.h->open(fTab); x.h->goto_hdu(2); try { x.h->get_key<string>("NOSUCHKEY"); } catch (LEVELSError &) {} try { arr<double> d(9); x.h->read_column(7, d); } catch (LEVELSError &) {} try { arr<double> d(900000); x.h->read_column(1, d); } catch (LEVELSError &) {} x.h->fileName(); x.h->goto_hdu(30); });
    fail("opening twice", none, [](Ctx &x) { if (!x.h) x.h.reset(new fitshandle); x.h->open(fTab); x.h->open(fSky); x.h.reset(new fitshandle); x.h->open(fTab); });
    fail("creating an existing file", none, [](Ctx &x) { if (!x.h) x.h.reset(new fitshandle); x.h->create(fTab); });
    fail("creating a file in a missing directory", none, [](Ctx &x) { write_Alm_to_fits(fOut + ".d/x.fits", x.a, x.a.Lmax(), x.a.Mmax(), LEVELS_FLOAT64); });
    fail("numbers from text", none, [](Ctx &x) { try { stringToData<int>("12x"); } catch (LEVELSError &) {} try { stringToData<bool>("maybe"); } catch (LEVELSError &) {} vector<double> v; split("1 2 x", v); });
    fail("no operation", none, none);
  }
  size_t size() override { size_t n = 1; for (int k = 0; k < depth; ++k) n *= st.size(); return n; } size_t batch() override { return 200; } double timeout() override { return 120; }
  string describe(size_t i) override { Radix r(i); string s; for (int k = 0; k < depth; ++k) s += (k ? ", then " : "") + st[r.take(st.size())].name; return s; }
  long once(size_t i, long &f) { long b = live_blocks, fb = live_files; { Ctx x; Radix r(i); for (int k = 0; k < depth; ++k) { auto &o = st[r.take(st.size())]; try { o.setup(x); } catch (...) {} attempt(o.act, x); if (k == depth - 1) { try { o.look(x); } catch (...) {} } } } f = live_files - fb; unlink(fOut.c_str()); return live_blocks - b; }
  string run(size_t i, Out &o) override { static string mine; if (mine.empty()) { mine = fOut + strf(".%d", getpid()); fOut = mine; } long f, n = once(i, f); if (n || f) { n = once(i, f); } o.put(i % 97); if (n) return strf("%ld memory blocks are held after all objects are gone", n); if (f) return strf("%ld files are open after all objects are gone", f); return ""; }
};
// ---- a reading rank whose file operations fail, among others that work -------------------------------------------------
struct IoColl : Suite {
  struct Case { int op, kind, n, r; bool persist; long at; }; vector<Case> cs; Fault f{false};
  void prepare() override { f.prepare(); for (int n = 2; n <= (thorough() ? 4 : 3); ++n) for (auto &c : f.cs) if (c.kind >= OPEN && c.kind <= SEEK && c.op < (int)OPS.size()) { const string &m = OPS[c.op].name; if (m.find("constructor") == string::npos && m.find("again") == string::npos) continue; for (int r = -1; r < 2; ++r) cs.push_back({c.op, c.kind, n, r, c.persist, c.at}); } }
  size_t size() override { return cs.size(); } int nranks(size_t i) override { return cs[i].n; }
  string describe(size_t i) override { auto &c = cs[i]; return strf("%s on %d ranks, %s %ld%s fails on %s", OPS[c.op].name.c_str(), c.n, kindname[c.kind], c.at, c.persist ? " and every later one" : "", c.r < 0 ? "every rank" : strf("rank %d", c.r).c_str()); }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override { auto &c = cs[i]; COMM = comm; auto &op = OPS[c.op]; V want, got, again; string e, e2; { Ctx x; op.setup(x); op.act(x); want = observed(op, x); } { Ctx x; op.setup(x); if (c.r < 0 || c.r == rank) arm(c.kind, c.at, c.persist); e = attempt(op.act, x); J.armed = false; if (e.empty()) { got = observed(op, x); if (!alike(got, want)) o.note = "reports success although a file operation that failed spoiled its result"; } e2 = attempt(op.act, x); if (e2.size()) o.note = "the same objects cannot be used again after a failure"; else { again = observed(op, x); if (!alike(again, want)) o.note = "the same objects give a wrong result when used again after the failure"; } } o.put(e.size() > 0); }
  string check(size_t, const vector<Out> &o) override { for (auto &q : o) if (q.note.size()) return q.note; for (auto &q : o) if (q.d[0] != o[0].d[0]) return "only some of the ranks report the failure"; return ""; }
};
int main(int argc, char **argv) { Registry reg; reg["alloc"] = [] { return new Fault(true); }; reg["iocoll"] = [] { return new IoColl; }; reg["leak"] = [] { return new Leak; }; reg["io"] = [] { return new Fault(false); }; return main_(argc, argv, reg); }
