// stand-in for Intel MKL's DFTI interface (complex one-dimensional transforms)
#ifndef VP_MKL_DFTI_H
#define VP_MKL_DFTI_H
#include <stdarg.h>
#include "vp1d.h"
#define MKL_LONG long
enum DFTI_CONFIG_PARAM { DFTI_FORWARD_DOMAIN = 0, DFTI_DIMENSION, DFTI_LENGTHS, DFTI_PRECISION, DFTI_FORWARD_SCALE, DFTI_BACKWARD_SCALE, DFTI_NUMBER_OF_TRANSFORMS = 7,
  DFTI_PLACEMENT = 11, DFTI_INPUT_STRIDES, DFTI_OUTPUT_STRIDES, DFTI_INPUT_DISTANCE, DFTI_OUTPUT_DISTANCE };
enum DFTI_CONFIG_VALUE { DFTI_COMMITTED = 30, DFTI_UNCOMMITTED, DFTI_COMPLEX, DFTI_REAL, DFTI_SINGLE = 35, DFTI_DOUBLE, DFTI_INPLACE = 43, DFTI_NOT_INPLACE };
#define DFTI_NO_ERROR 0
#define DFTI_MEMORY_ERROR 1
#define DFTI_INVALID_CONFIGURATION 2
#define DFTI_INCONSISTENT_CONFIGURATION 3
#define DFTI_BAD_DESCRIPTOR 5
typedef struct DFTI_DESCRIPTOR { long n, number, place, idist, odist, committed; double fscale, bscale; } DFTI_DESCRIPTOR;
typedef DFTI_DESCRIPTOR *DFTI_DESCRIPTOR_HANDLE;
static inline long DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE *h, int prec, int domain, long dim, long n) {
  *h = 0; if (prec != (sizeof(vp_real) == 4 ? DFTI_SINGLE : DFTI_DOUBLE) || domain != DFTI_COMPLEX || dim != 1 || n < 1) return DFTI_INVALID_CONFIGURATION;
  DFTI_DESCRIPTOR *d = (DFTI_DESCRIPTOR *)malloc(sizeof *d); if (!d) return DFTI_MEMORY_ERROR;
  d->n = n; d->number = 1; d->place = DFTI_INPLACE; d->idist = d->odist = 0; d->committed = 0; d->fscale = d->bscale = 1; *h = d; return DFTI_NO_ERROR;
}
static inline long DftiSetValue(DFTI_DESCRIPTOR_HANDLE h, int param, ...) {
  va_list a; va_start(a, param); if (!h) return DFTI_BAD_DESCRIPTOR; h->committed = 0; long rc = DFTI_NO_ERROR;
  switch (param) {
    case DFTI_NUMBER_OF_TRANSFORMS: h->number = va_arg(a, long); break;
    case DFTI_PLACEMENT: h->place = va_arg(a, int); break;
    case DFTI_INPUT_DISTANCE: h->idist = va_arg(a, long); break;
    case DFTI_OUTPUT_DISTANCE: h->odist = va_arg(a, long); break;
    case DFTI_FORWARD_SCALE: h->fscale = va_arg(a, double); break;
    case DFTI_BACKWARD_SCALE: h->bscale = va_arg(a, double); break;
    default: rc = DFTI_INVALID_CONFIGURATION;
  }
  va_end(a); return rc;
}
static inline long DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE h) {
  if (!h) return DFTI_BAD_DESCRIPTOR;
  if (h->number < 1 || (h->number > 1 && h->place == DFTI_INPLACE && h->idist != h->odist)) return DFTI_INCONSISTENT_CONFIGURATION;
  h->committed = 1; return DFTI_NO_ERROR;
}
static inline long vp_dfti(DFTI_DESCRIPTOR_HANDLE h, vp_real *in, vp_real *out, int sign, double scale) {
  if (!h || !h->committed) return DFTI_BAD_DESCRIPTOR;
  if (h->place == DFTI_INPLACE) out = in;
  vp_real *t = (vp_real *)__builtin_alloca(sizeof(vp_real)*2*h->n);
  for (long k = 0; k < h->number; k++) {
    vp_real *x = in + 2*k*h->idist, *y = out + 2*k*h->odist;
    for (long i = 0; i < 2*h->n; i++) t[i] = x[i];
    vp_dft(t, h->n, sign);
    for (long i = 0; i < 2*h->n; i++) y[i] = scale == 1 ? t[i] : (vp_real)(t[i]*scale);
  }
  return DFTI_NO_ERROR;
}
static inline long DftiComputeForward(DFTI_DESCRIPTOR_HANDLE h, void *in, void *out = 0) { return vp_dfti(h, (vp_real *)in, (vp_real *)out, -1, h ? h->fscale : 1); }
static inline long DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE h, void *in, void *out = 0) { return vp_dfti(h, (vp_real *)in, (vp_real *)out, 1, h ? h->bscale : 1); }
static inline long DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE *h) { if (!h || !*h) return DFTI_BAD_DESCRIPTOR; free(*h); *h = 0; return DFTI_NO_ERROR; }
#endif
