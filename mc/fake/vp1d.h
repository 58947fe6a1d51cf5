// stand-ins for 1d FFT libraries that are not installed here: the transform from its definition
#ifndef VP1D_H
#define VP1D_H
#include <math.h>
#include <stdlib.h>
#include <stdio.h>
#ifdef FFT_SINGLE
typedef float vp_real;
#else
typedef double vp_real;
#endif
static inline void vp_dft(vp_real *x, long n, int sign) {
  double *w = (double *)__builtin_alloca(sizeof(double)*4*n), *y = w + 2*n;
  for (long k = 0; k < n; k++) { w[2*k] = cos(2*M_PI*k/n); w[2*k+1] = sign*sin(2*M_PI*k/n); }
  for (long k = 0; k < n; k++) {
    double a = 0, b = 0; long m = 0;
    for (long j = 0; j < n; j++) { a += x[2*j]*w[2*m] - x[2*j+1]*w[2*m+1]; b += x[2*j]*w[2*m+1] + x[2*j+1]*w[2*m]; m += k; if (m >= n) m -= n; }
    y[2*k] = a; y[2*k+1] = b;
  }
  for (long k = 0; k < 2*n; k++) x[k] = y[k];
}
static inline void vp_oom() { printf("out of memory in the 1d FFT library\n"); fflush(stdout); exit(1); }
#endif
