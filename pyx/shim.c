/* Stand-in for the entry points of the C interface: forwards every call to the library unless the fault plan says that
   this call fails, in which case it returns what the interface documents for failure without calling the library. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <mpi.h>
static char plan[64]; static long skip; static long hits;
void vf_plan(const char *f, long s) { strncpy(plan, f, 63); skip = s; hits = 0; }
long vf_hits(void) { return hits; }
static int fails(const char *f) { if (strcmp(f, plan)) return 0; ++hits; return skip-- == 0; }
static void *real(const char *f) { return dlsym(RTLD_NEXT, f); }
/* the objects handed out by the constructors and not yet given back */
static void *live[1024]; static int nlive;
static void *out(void *h) { if (h && nlive < 1024) live[nlive++] = h; return h; }
static void back(void *h) { for (int i = 0; i < nlive; ++i) if (live[i] == h) { live[i] = live[--nlive]; return; } }
int vf_live(void) { return nlive; }
void vf_forget(void) { nlive = 0; }
#define N(NAME, PAR, ARG) void *NAME PAR { if (fails(#NAME)) return 0; return out(((void *(*) PAR) real(#NAME)) ARG); }
#define D(NAME) int NAME(void *a) { back(a); return ((int (*)(void *)) real(#NAME))(a); }
D(conviqt_beam_del)
D(conviqt_sky_del)
D(conviqt_detector_del)
D(conviqt_pointing_del)
D(conviqt_convolver_del)
#define F(R, NAME, BAD, PAR, ARG) R NAME PAR { if (fails(#NAME)) return BAD; return ((R (*) PAR) real(#NAME)) ARG; }
typedef void *P;
N(conviqt_beam_new, (void), ())
N(conviqt_sky_new, (void), ())
N(conviqt_detector_new, (void), ())
N(conviqt_pointing_new, (void), ())
N(conviqt_detector_new_with_id, (char *a), (a))
N(conviqt_convolver_new, (P a, P b, P c, char d, long e, long f, long g, int h, MPI_Comm i), (a, b, c, d, e, f, g, h, i))
F(int, conviqt_beam_read, -1, (P a, long b, long c, char d, char *e, MPI_Comm f), (a, b, c, d, e, f))
F(int, conviqt_sky_read, -1, (P a, long b, char c, char *d, double e, MPI_Comm f), (a, b, c, d, e, f))
F(int, conviqt_beam_lmax, -1, (P a), (a))
F(int, conviqt_beam_mmax, -1, (P a), (a))
F(double, conviqt_beam_normalize, -1, (P a), (a))
F(int, conviqt_beam_normalized, -1, (P a), (a))
F(P, conviqt_beam_Tdata, 0, (P a), (a))
F(P, conviqt_beam_Gdata, 0, (P a), (a))
F(P, conviqt_beam_Cdata, 0, (P a), (a))
F(int, conviqt_sky_lmax, -1, (P a), (a))
F(int, conviqt_sky_remove_monopole, -1, (P a), (a))
F(int, conviqt_sky_remove_dipole, -1, (P a), (a))
F(P, conviqt_sky_Tdata, 0, (P a), (a))
F(P, conviqt_sky_Gdata, 0, (P a), (a))
F(P, conviqt_sky_Cdata, 0, (P a), (a))
F(int, conviqt_detector_set_epsilon, -1, (P a, double b), (a, b))
F(int, conviqt_detector_get_epsilon, -1, (P a, double *b), (a, b))
F(int, conviqt_detector_get_id, -1, (P a, char *b), (a, b))
F(int, conviqt_detector_set_id, -1, (P a, char *b), (a, b))
F(int, conviqt_pointing_alloc, -1, (P a, long b), (a, b))
F(double *, conviqt_pointing_data, 0, (P a), (a))
F(int, conviqt_convolver_convolve, -1, (P a, P b, char c), (a, b, c))
