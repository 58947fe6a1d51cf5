// Uniform view of the fftMPI public interfaces (C++, C, the *_fortran C entry points and the
// Fortran 90 modules).  All tile bounds are 0-based here; the Fortran flavours convert.
#ifndef VP_API_H
#define VP_API_H
#include <mpi.h>
#include <stdint.h>
enum { FL_CXX = 0, FL_C = 1, FL_FC = 2, FL_F90 = 3, FL_N = 4 };
struct Api {
  int dim, scalar_size, flavour;
  void *(*fft_create)(MPI_Comm, int prec);
  void (*fft_destroy)(void *);
  void (*fft_set)(void *, const char *, int);
  void (*fft_setup)(void *, const int *n, const int *in, const int *out, int permute, int *fs, int *ss, int *rs);
  void (*fft_setup_memory)(void *, void *, void *);
  void (*fft_compute)(void *, void *, void *, int);
  void (*fft_only_1d)(void *, void *, int);
  void (*fft_only_remaps)(void *, void *, void *, int);
  void (*fft_only_one)(void *, void *, void *, int flag, int which);
  void (*fft_tune)(void *, const int *n, const int *in, const int *out, int permute, int *fs, int *ss, int *rs,
                   int flag, int niter, double tmax, int tflag);
  int (*fft_get_int)(void *, const char *);
  double (*fft_get_double)(void *, const char *);
  int64_t (*fft_get_int64)(void *, const char *);
  const char *(*fft_get_string)(void *, const char *, int *len);
  int *(*fft_get_int_vector)(void *, const char *, int *len);
  double *(*fft_get_double_vector)(void *, const char *, int *len);
  void *(*remap_create)(MPI_Comm);
  void (*remap_destroy)(void *);
  void (*remap_set)(void *, const char *, int);
  void (*remap_setup)(void *, const int *in, const int *out, int nqty, int permute, int memory, int *ss, int *rs);
  void (*remap_remap)(void *, void *in, void *out, void *sb, void *rb);
  int64_t (*remap_memusage)(void *);   // C++ only, else NULL
};
#endif
