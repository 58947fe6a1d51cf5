// stand-in for FFTW 2's header (complex one-dimensional transforms)
#ifndef VP_FFTW2_H
#define VP_FFTW2_H
#include "vp1d.h"
typedef vp_real fftw_real;
typedef struct { fftw_real re, im; } fftw_complex;
#define FFTW_COMPLEX fftw_complex
#define c_re(c) ((c).re)
#define c_im(c) ((c).im)
typedef enum { FFTW_FORWARD = -1, FFTW_BACKWARD = 1 } fftw_direction;
#define FFTW_ESTIMATE 0
#define FFTW_MEASURE 1
#define FFTW_OUT_OF_PLACE 0
#define FFTW_IN_PLACE 8
#define FFTW_USE_WISDOM 16
typedef struct fftw_plan_struct { int n, dir, flags; long magic; } *fftw_plan;
static inline fftw_plan fftw_create_plan(int n, fftw_direction dir, int flags) {
  if (n <= 0) return 0;
  fftw_plan p = (fftw_plan)malloc(sizeof *p); if (!p) vp_oom(); p->n = n; p->dir = dir; p->flags = flags; p->magic = 0x0f2f; return p;
}
static inline void fftw_destroy_plan(fftw_plan p) { if (p->magic != 0x0f2f) abort(); p->magic = 0; free(p); }
static inline void fftw(fftw_plan p, int howmany, fftw_complex *in, int istride, int idist, fftw_complex *out, int ostride, int odist) {
  if (p->magic != 0x0f2f) abort();
  fftw_complex *t = (fftw_complex *)__builtin_alloca(sizeof(fftw_complex)*p->n);
  for (int h = 0; h < howmany; h++) {
    for (int i = 0; i < p->n; i++) t[i] = in[(long)h*idist + (long)i*istride];
    vp_dft((vp_real *)t, p->n, p->dir);
    if (p->flags & FFTW_IN_PLACE) for (int i = 0; i < p->n; i++) in[(long)h*idist + (long)i*istride] = t[i];
    else for (int i = 0; i < p->n; i++) out[(long)h*odist + (long)i*ostride] = t[i];
  }
}
static inline void fftw_one(fftw_plan p, fftw_complex *in, fftw_complex *out) { fftw(p, 1, in, 1, 1, out, 1, 1); }
#endif
