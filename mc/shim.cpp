// Compiled into each copy of the library (2d or 3d).  Exposes vp_api(flavour).
#include <mpi.h>
#include <stdint.h>
#include <string.h>
#include "api.h"
#if VP_DIM == 3
#include "fft3d.h"
#include "remap3d.h"
#include "fft3d_wrap.h"
#include "remap3d_wrap.h"
#define FFT FFT3d
#define RMP Remap3d
#define F(x) fft3d_##x
#define R(x) remap3d_##x
#define FS(x,s) fft3d_##x##s
#define N_(n) n[0],n[1],n[2]
#define B_(b,o) b[0]+o,b[1]+o,b[2]+o,b[3]+o,b[4]+o,b[5]+o
#define NT int,int,int
#define BT int,int,int,int,int,int
#else
#include "fft2d.h"
#include "remap2d.h"
#include "fft2d_wrap.h"
#include "remap2d_wrap.h"
#define FFT FFT2d
#define RMP Remap2d
#define F(x) fft2d_##x
#define R(x) remap2d_##x
#define N_(n) n[0],n[1]
#define B_(b,o) b[0]+o,b[1]+o,b[2]+o,b[3]+o
#define NT int,int
#define BT int,int,int,int
#endif
using namespace FFTMPI_NS;
typedef FFT_SCALAR S;
#define EQ(k,s) (strcmp(k,s)==0)

// ---- C++ ----
static void *cx_create(MPI_Comm c, int p) { return new FFT(c,p); }
static void cx_destroy(void *p) { delete (FFT *)p; }
static void cx_set(void *p, const char *k, int v) {
  FFT *f = (FFT *)p;
  if (EQ(k,"collective")) f->collective = v;
  else if (EQ(k,"exchange")) f->exchange = v;
  else if (EQ(k,"pack")) f->packflag = v;
  else if (EQ(k,"memory")) f->memoryflag = v;
  else if (EQ(k,"scale")) f->scaled = v;
  else if (EQ(k,"remaponly")) f->remaponly = v;
}
static void cx_setup(void *p, const int *n, const int *i, const int *o, int pm, int *fs, int *ss, int *rs)
{ ((FFT *)p)->setup(N_(n),B_(i,0),B_(o,0),pm,*fs,*ss,*rs); }
static void cx_mem(void *p, void *a, void *b) { ((FFT *)p)->setup_memory((S *)a,(S *)b); }
static void cx_compute(void *p, void *a, void *b, int f) { ((FFT *)p)->compute((S *)a,(S *)b,f); }
static void cx_1d(void *p, void *a, int f) { ((FFT *)p)->only_1d_ffts((S *)a,f); }
static void cx_rem(void *p, void *a, void *b, int f) { ((FFT *)p)->only_remaps((S *)a,(S *)b,f); }
static void cx_one(void *p, void *a, void *b, int f, int w) { ((FFT *)p)->only_one_remap((S *)a,(S *)b,f,w); }
static void cx_tune(void *p, const int *n, const int *i, const int *o, int pm, int *fs, int *ss, int *rs,
                    int f, int it, double tm, int tf)
{ ((FFT *)p)->tune(N_(n),B_(i,0),B_(o,0),pm,*fs,*ss,*rs,f,it,tm,tf); }
static int cx_gi(void *p, const char *k) {
  FFT *f = (FFT *)p;
#define G(x) if (EQ(k,#x)) return f->x;
  if (EQ(k,"pack")) return f->packflag;
  if (EQ(k,"memory")) return f->memoryflag;
  if (EQ(k,"scale")) return f->scaled;
  G(collective) G(exchange) G(remaponly) G(ntrial) G(npertrial) G(cbest) G(ebest) G(pbest)
#if VP_DIM == 3
  G(npfast1) G(npfast2) G(npfast3) G(npmid1) G(npmid2) G(npmid3) G(npslow1) G(npslow2) G(npslow3)
  G(npbrick1) G(npbrick2) G(npbrick3)
#else
  G(npfast1) G(npfast2) G(npslow1) G(npslow2) G(npbrick1) G(npbrick2)
#endif
  return -1;
}
static double cx_gd(void *p, const char *k) {
  FFT *f = (FFT *)p;
  G(setuptime) G(besttime)
  return -1.0;
}
static int64_t cx_g64(void *p, const char *k) { FFT *f = (FFT *)p; G(memusage) return -1; }
static const char *cx_gs(void *p, const char *k, int *len) {
  FFT *f = (FFT *)p; const char *r = 0;
  if (EQ(k,"fft1d")) r = f->fft1d;
  if (EQ(k,"precision")) r = f->precision;
  if (r) *len = strlen(r);
  return r;
}
static int *cx_giv(void *p, const char *k, int *len) {
  FFT *f = (FFT *)p; *len = f->ntrial;
  G(cflags) G(eflags) G(pflags)
  return 0;
}
static double *cx_gdv(void *p, const char *k, int *len) {
  FFT *f = (FFT *)p; *len = f->ntrial;
  G(tfft) G(t1d) G(tremap) G(tremap1) G(tremap2) G(tremap3)
#if VP_DIM == 3
  G(tremap4)
#endif
  return 0;
}
static void *cx_rcreate(MPI_Comm c) { return new RMP(c); }
static void cx_rdestroy(void *p) { delete (RMP *)p; }
static void cx_rset(void *p, const char *k, int v) {
  RMP *r = (RMP *)p;
  if (EQ(k,"collective")) r->collective = v;
  else if (EQ(k,"pack")) r->packflag = v;
}
static void cx_rsetup(void *p, const int *i, const int *o, int nq, int pm, int m, int *ss, int *rs)
{ ((RMP *)p)->setup(B_(i,0),B_(o,0),nq,pm,m,*ss,*rs); }
static void cx_rremap(void *p, void *a, void *b, void *c, void *d) { ((RMP *)p)->remap((S *)a,(S *)b,(S *)c,(S *)d); }
static int64_t cx_rmem(void *p) { return ((RMP *)p)->memusage; }

// ---- C ----
static void *c_create(MPI_Comm c, int p) { void *q = 0; F(create)(c,p,&q); return q; }
static void c_setup(void *p, const int *n, const int *i, const int *o, int pm, int *fs, int *ss, int *rs)
{ F(setup)(p,N_(n),B_(i,0),B_(o,0),pm,fs,ss,rs); }
static void c_mem(void *p, void *a, void *b) { F(setup_memory)(p,(S *)a,(S *)b); }
static void c_compute(void *p, void *a, void *b, int f) { F(compute)(p,(S *)a,(S *)b,f); }
static void c_1d(void *p, void *a, int f) { F(only_1d_ffts)(p,(S *)a,f); }
static void c_rem(void *p, void *a, void *b, int f) { F(only_remaps)(p,(S *)a,(S *)b,f); }
static void c_one(void *p, void *a, void *b, int f, int w) { F(only_one_remap)(p,(S *)a,(S *)b,f,w); }
static void c_tune(void *p, const int *n, const int *i, const int *o, int pm, int *fs, int *ss, int *rs,
                   int f, int it, double tm, int tf)
{ F(tune)(p,N_(n),B_(i,0),B_(o,0),pm,fs,ss,rs,f,it,tm,tf); }
static const char *c_gs(void *p, const char *k, int *l) { return F(get_string)(p,k,l); }
static void *c_rcreate(MPI_Comm c) { void *q = 0; R(create)(c,&q); return q; }
static void c_rset(void *p, const char *k, int v) { R(set)(p,(char *)k,v); }
static void c_rsetup(void *p, const int *i, const int *o, int nq, int pm, int m, int *ss, int *rs)
{ R(setup)(p,B_(i,0),B_(o,0),nq,pm,m,ss,rs); }
static void c_rremap(void *p, void *a, void *b, void *c, void *d) { R(remap)(p,(S *)a,(S *)b,(S *)c,(S *)d); }

// ---- *_fortran C entry points ----
static void *fc_create(MPI_Comm c, int p) { void *q = 0; F(create_fortran)(MPI_Comm_c2f(c),p,&q); return q; }
static void fc_setup(void *p, const int *n, const int *i, const int *o, int pm, int *fs, int *ss, int *rs)
{ F(setup_fortran)(p,N_(n),B_(i,1),B_(o,1),pm,fs,ss,rs); }
static void fc_tune(void *p, const int *n, const int *i, const int *o, int pm, int *fs, int *ss, int *rs,
                    int f, int it, double tm, int tf)
{ F(tune_fortran)(p,N_(n),B_(i,1),B_(o,1),pm,fs,ss,rs,f,it,tm,tf); }
static void *fc_rcreate(MPI_Comm c) { void *q = 0; R(create_fortran)(MPI_Comm_c2f(c),&q); return q; }
static void fc_rsetup(void *p, const int *i, const int *o, int nq, int pm, int m, int *ss, int *rs)
{ R(setup_fortran)(p,B_(i,1),B_(o,1),nq,pm,m,ss,rs); }

// ---- Fortran 90 modules, through shimNd.f90 ----
extern "C" {
void vf_create(int, int, void **);
void vf_destroy(void *);
void vf_set(void *, const char *, int);
int vf_gi(void *, const char *);
double vf_gd(void *, const char *);
int64_t vf_g64(void *, const char *);
void *vf_gs(void *, const char *, int *);
void *vf_giv(void *, const char *, int *);
void *vf_gdv(void *, const char *, int *);
void vf_setup(void *, const int *, const int *, const int *, int, int *, int *, int *);
void vf_mem(void *, void *, void *);
void vf_compute(void *, void *, void *, int);
void vf_1d(void *, void *, int);
void vf_rem(void *, void *, void *, int);
void vf_one(void *, void *, void *, int, int);
void vf_tune(void *, const int *, const int *, const int *, int, int *, int *, int *, int, int, double, int);
void vf_rcreate(int, void **);
void vf_rdestroy(void *);
void vf_rset(void *, const char *, int);
void vf_rsetup(void *, const int *, const int *, int, int, int, int *, int *);
void vf_rremap(void *, void *, void *, void *, void *);
}
struct B1 { int v[6]; B1(const int *b) { for (int i = 0; i < 2*VP_DIM; i++) v[i] = b[i]+1; } };
static void *f9_create(MPI_Comm c, int p) { void *q = 0; vf_create(MPI_Comm_c2f(c),p,&q); return q; }
static void f9_setup(void *p, const int *n, const int *i, const int *o, int pm, int *fs, int *ss, int *rs)
{ B1 a(i), b(o); vf_setup(p,n,a.v,b.v,pm,fs,ss,rs); }
static void f9_tune(void *p, const int *n, const int *i, const int *o, int pm, int *fs, int *ss, int *rs,
                    int f, int it, double tm, int tf)
{ B1 a(i), b(o); vf_tune(p,n,a.v,b.v,pm,fs,ss,rs,f,it,tm,tf); }
static const char *f9_gs(void *p, const char *k, int *l) { return (const char *)vf_gs(p,k,l); }
static int *f9_giv(void *p, const char *k, int *l) { return (int *)vf_giv(p,k,l); }
static double *f9_gdv(void *p, const char *k, int *l) { return (double *)vf_gdv(p,k,l); }
static void *f9_rcreate(MPI_Comm c) { void *q = 0; vf_rcreate(MPI_Comm_c2f(c),&q); return q; }
static void f9_rsetup(void *p, const int *i, const int *o, int nq, int pm, int m, int *ss, int *rs)
{ B1 a(i), b(o); vf_rsetup(p,a.v,b.v,nq,pm,m,ss,rs); }

#define H VP_DIM, (int)sizeof(S)
static const Api apis[] = {
  { H, FL_CXX, cx_create, cx_destroy, cx_set, cx_setup, cx_mem, cx_compute, cx_1d, cx_rem, cx_one, cx_tune,
    cx_gi, cx_gd, cx_g64, cx_gs, cx_giv, cx_gdv, cx_rcreate, cx_rdestroy, cx_rset, cx_rsetup, cx_rremap, cx_rmem },
  { H, FL_C, c_create, F(destroy), F(set), c_setup, c_mem, c_compute, c_1d, c_rem, c_one, c_tune,
    F(get_int), F(get_double), F(get_int64), c_gs, F(get_int_vector), F(get_double_vector),
    c_rcreate, R(destroy), c_rset, c_rsetup, c_rremap, 0 },
  { H, FL_FC, fc_create, F(destroy), F(set), fc_setup, c_mem, c_compute, c_1d, c_rem, c_one, fc_tune,
    F(get_int), F(get_double), F(get_int64), c_gs, F(get_int_vector), F(get_double_vector),
    fc_rcreate, R(destroy), c_rset, fc_rsetup, c_rremap, 0 },
  { H, FL_F90, f9_create, vf_destroy, vf_set, f9_setup, vf_mem, vf_compute, vf_1d, vf_rem, vf_one, f9_tune,
    vf_gi, vf_gd, vf_g64, f9_gs, f9_giv, f9_gdv, f9_rcreate, vf_rdestroy, vf_rset, f9_rsetup, vf_rremap, 0 },
};
extern "C" const Api *vp_api(int flavour) { return flavour >= 0 && flavour < FL_N ? &apis[flavour] : 0; }
