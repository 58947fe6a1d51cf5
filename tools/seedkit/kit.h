// helpers of the demonstrations: layouts, naive DFT, checked FFTs and remaps
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex>
#include <vector>
#if DIM == 3
#include "fft3d.h"
#include "remap3d.h"
typedef FFTMPI_NS::FFT3d FFT; typedef FFTMPI_NS::Remap3d REMAP;
#else
#include "fft2d.h"
#include "remap2d.h"
typedef FFTMPI_NS::FFT2d FFT; typedef FFTMPI_NS::Remap2d REMAP;
#endif
#ifdef FFT_SINGLE
typedef float SC; static const int PREC = 1; static const double TOL = 1e-4;
#else
typedef double SC; static const int PREC = 2; static const double TOL = 1e-11;
#endif
typedef std::vector<int> V; typedef std::complex<double> CD;
static int me, np, bad;
static void fail(const char *w, double a = 0, double b = 0) { if (bad++ < 3) { printf("rank %d: %s %.10g %.10g\n", me, w, a, b); fflush(stdout); } }
static void start(int *c, char ***v) { MPI_Init(c, v); MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np); }
static int done() { int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); if (me == 0) { printf(all ? "DEMO-BAD %d\n" : "DEMO-OK %d\n", all); fflush(stdout); } MPI_Finalize(); return all ? 1 : 0; }
static double val(long g, int q) { unsigned long x = (unsigned long)(g*31+q+1)*2654435761ul; x ^= x >> 13; x *= 0x5bd1e995; x ^= x >> 15; return (double)(x % 2000)/1000.0 - 1.0; }
// tile of rank r in a process grid p (x fastest); 2*DIM bounds
static V brick(const V &n, const V &p, int r) { V t; for (int k = 0; k < DIM; k++) { int i = r % p[k]; r /= p[k]; t.push_back((long)i*n[k]/p[k]); t.push_back((long)(i+1)*n[k]/p[k]-1); } return t; }
static V whole(const V &n) { V t; for (int k = 0; k < DIM; k++) { t.push_back(0); t.push_back(n[k]-1); } return t; }
static V none() { V t; for (int k = 0; k < DIM; k++) { t.push_back(0); t.push_back(-1); } return t; }
static long size(const V &t) { long s = 1; for (int k = 0; k < DIM; k++) s *= t[2*k+1]-t[2*k]+1; return s; }
template<class F> static void each(const V &n, const V &t, int perm, F f) {
  long lo[3] = {0,0,0}, s[3] = {1,1,1}, nn[3] = {1,1,1}; for (int k = 0; k < DIM; k++) { lo[k] = t[2*k]; s[k] = t[2*k+1]-t[2*k]+1; nn[k] = n[k]; }
  for (long k = 0; k < s[2]; k++) for (long j = 0; j < s[1]; j++) for (long i = 0; i < s[0]; i++)
    f(((k+lo[2])*nn[1]+j+lo[1])*nn[0]+i+lo[0], perm == 0 ? (k*s[1]+j)*s[0]+i : perm == 1 ? (i*s[2]+k)*s[1]+j : (j*s[0]+i)*s[2]+k);
}
static std::vector<CD> dft(const V &n, std::vector<CD> a, int sign) {
  long st = 1, N = a.size();
  for (int d = 0; d < DIM; d++) { long L = n[d]; std::vector<CD> b(N);
    for (long g = 0; g < N; g++) { long x = g/st % L, base = g-x*st; CD s = 0; for (long j = 0; j < L; j++) s += a[base+j*st]*std::polar(1.0, sign*2*M_PI*((j*x) % L)/L); b[g] = s; }
    a = b; st *= L; }
  return a;
}
static std::vector<CD> field(const V &n, int seed = 0) { long N = 1; for (int d = 0; d < DIM; d++) N *= n[d]; std::vector<CD> a(N); for (long g = 0; g < N; g++) a[g] = CD((SC)val(g+seed*100000, 0), (SC)val(g+seed*100000, 1)); return a; }
static void setup(FFT *f, const V &n, const V &in, const V &out, int perm, int &fs, int &ss, int &rs) {
#if DIM == 3
  f->setup(n[0],n[1],n[2],in[0],in[1],in[2],in[3],in[4],in[5],out[0],out[1],out[2],out[3],out[4],out[5],perm,fs,ss,rs);
#else
  f->setup(n[0],n[1],in[0],in[1],in[2],in[3],out[0],out[1],out[2],out[3],perm,fs,ss,rs);
#endif
}
static void rsetup(REMAP *f, const V &in, const V &out, int nq, int perm, int mem, int &ss, int &rs) {
#if DIM == 3
  f->setup(in[0],in[1],in[2],in[3],in[4],in[5],out[0],out[1],out[2],out[3],out[4],out[5],nq,perm,mem,ss,rs);
#else
  f->setup(in[0],in[1],in[2],in[3],out[0],out[1],out[2],out[3],nq,perm,mem,ss,rs);
#endif
}
static void compare(const V &n, const V &t, int perm, const SC *buf, const std::vector<CD> &want, const char *what) {
  double mx = 0; for (auto &x : want) mx = std::max(mx, std::abs(x));
  each(n, t, perm, [&](long g, long p) { CD x(buf[2*p], buf[2*p+1]); if (!(std::abs(x-want[g]) <= TOL*mx)) fail(what, std::abs(x-want[g]), g); });
}
struct Opt { int coll = 2, exch = 0, pack = 2, mem = 1, scale = 1; };
static FFT *make(MPI_Comm c, const V &n, const V &in, const V &out, int perm, Opt o, int &fs, int &ss, int &rs) {
  FFT *f = new FFT(c, PREC); f->collective = o.coll; f->exchange = o.exch; f->packflag = o.pack; f->memoryflag = o.mem; f->scaled = o.scale;
  setup(f, n, in, out, perm, fs, ss, rs);
  return f;
}
// forward and backward FFT against the naive DFT
static void check_fft(MPI_Comm c, const V &n, const V &in, const V &out, int perm, Opt o, bool inplace) {
  int fs, ss, rs; FFT *f = make(c, n, in, out, perm, o, fs, ss, rs);
  std::vector<SC> sb(ss+1), rb(rs+1); if (!o.mem) f->setup_memory(sb.data(), rb.data());
  std::vector<CD> a = field(n), F = dft(n, a, -1), B = dft(n, a, 1); long N = a.size(); if (o.scale) for (auto &x : B) x /= (double)N;
  std::vector<SC> x(2*fs+2), y(2*fs+2); SC *dst = inplace ? x.data() : y.data();
  each(n, in, 0, [&](long g, long p) { x[2*p] = a[g].real(); x[2*p+1] = a[g].imag(); });
  f->compute(x.data(), dst, 1); compare(n, out, perm, dst, F, "forward");
  each(n, out, perm, [&](long g, long p) { x[2*p] = a[g].real(); x[2*p+1] = a[g].imag(); });
  f->compute(x.data(), dst, -1); compare(n, in, 0, dst, B, "backward");
  delete f;
}
static void check_remap(MPI_Comm c, const V &n, const V &in, const V &out, int nq, int perm, int coll, int pack) {
  REMAP *r = new REMAP(c); r->collective = coll; r->packflag = pack; int ss, rs; rsetup(r, in, out, nq, perm, 1, ss, rs);
  std::vector<SC> x(size(in)*nq+1), y(size(out)*nq+1);
  each(n, in, 0, [&](long g, long p) { for (int q = 0; q < nq; q++) x[p*nq+q] = g*nq+q+1; });
  r->remap(x.data(), y.data(), 0, 0);
  each(n, out, perm, [&](long g, long p) { for (int q = 0; q < nq; q++) if (y[p*nq+q] != g*nq+q+1) fail("remap", y[p*nq+q], g*nq+q+1); });
  delete r;
}
