#include "prog.h"
#include <math.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <complex>
#include <map>
#include <memory>
#include <algorithm>

typedef std::complex<long double> cld;
const char *set_keys[] = { "collective", "exchange", "pack", "memory", "scale", "remaponly", 0 };

// ------------------------------------------------------------------------------------ serialisation
std::vector<int> Case::flat() const {
  std::vector<int> v = { np, comm, expect, wt, (int)objs.size() };
  for (auto &o : objs) {
    for (int x : { o.kind, o.dim, o.lib, o.flavour, o.n[0], o.n[1], o.n[2], o.perm, o.coll, o.exch, o.pack, o.mem, o.scale, o.remaponly, o.nqty }) v.push_back(x);
    for (int x : o.in) v.push_back(x);
    for (int x : o.out) v.push_back(x);
  }
  v.push_back((int)cmds.size());
  for (auto &c : cmds) { v.push_back((int)c.size()); for (int x : c) v.push_back(x); }
  return v;
}
bool Case::parse(const std::vector<int> &v, Case &c) {
  size_t p = 0; auto g = [&]() { return p < v.size() ? v[p++] : (p++, 0); };
  c = Case(); c.np = g(); c.comm = g(); c.expect = g(); c.wt = g(); int no = g();
  for (int i = 0; i < no; i++) {
    Obj o; o.kind = g(); o.dim = g(); o.lib = g(); o.flavour = g(); for (int k = 0; k < 3; k++) o.n[k] = g();
    o.perm = g(); o.coll = g(); o.exch = g(); o.pack = g(); o.mem = g(); o.scale = g(); o.remaponly = g(); o.nqty = g();
    for (int k = 0; k < c.np*2*o.dim; k++) o.in.push_back(g());
    for (int k = 0; k < c.np*2*o.dim; k++) o.out.push_back(g());
    c.objs.push_back(o);
  }
  int nc = g();
  for (int i = 0; i < nc; i++) { std::vector<int> x(std::max(0, std::min(100, g()))); for (int &y : x) y = g(); c.cmds.push_back(x); }
  return p == v.size();
}
int Case::job() const { return comm == 3 ? np+1 : comm == 4 ? 2*np : np; }
static const char *cname[] = { "?", "make", "create", "setopts", "setup", "setup_memory", "compute", "only_remaps", "only_one_remap", "only_1d_ffts", "remap", "destroy",
  "set", "tune", "stats", "must-fail", "sizes", "barrier", "refresh", "failrank", "getbad", "raw", "cmpsize", "memsum" };
std::string Case::text() const {
  char b[400]; std::string s;
  static const char *ln[] = { "kiss/double", "kiss/single", "fftw3/double", "fftw3/single", "fftw2/double", "fftw2/single", "mkl/double", "mkl/single" };
  static const char *fl[] = { "C++", "C", "C-fortran", "F90" };
  snprintf(b, sizeof b, "np=%d comm=%d", np, comm); s = b;
  for (auto &o : objs) {
    snprintf(b, sizeof b, " | %s%dd %s %s grid %d", o.kind ? "remap" : "fft", o.dim, ln[o.lib & 7], fl[o.flavour & 3], o.n[0]); s += b;
    for (int k = 1; k < o.dim; k++) { snprintf(b, sizeof b, "x%d", o.n[k]); s += b; }
    snprintf(b, sizeof b, " permute=%d collective=%d exchange=%d pack=%d memory=%d scale=%d remaponly=%d nqty=%d", o.perm, o.coll, o.exch, o.pack, o.mem, o.scale, o.remaponly, o.nqty); s += b;
    for (int w = 0; w < 2; w++) {
      auto &t = w ? o.out : o.in; s += w ? " out" : " in";
      for (int r = 0; r < np && r < 8; r++) { s += " "; for (int k = 0; k < o.dim; k++) { snprintf(b, sizeof b, "%s%d:%d", k ? "," : "", t[(r*o.dim+k)*2], t[(r*o.dim+k)*2+1]); s += b; } }
    }
  }
  s += " | history:";
  for (auto &c : cmds) { if (c.empty()) continue; s += std::string(" ") + (c[0] < C_CMAX ? cname[c[0]] : "?") + "("; for (size_t k = 1; k < c.size(); k++) { snprintf(b, sizeof b, "%s%d", k > 1 ? "," : "", c[k]); s += b; } s += ")"; }
  return s;
}
int tile_size(const int *t, int dim) {
  long s = 1; for (int k = 0; k < dim; k++) { long e = (long)t[2*k+1]-t[2*k]+1; s *= e < 0 ? 0 : e; }
  return (int)s;
}

// ------------------------------------------------------------------------------------ reference model
static double rnd(uint64_t x, bool zeros = false) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30))*0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27))*0x94d049bb133111ebull; x ^= x >> 31;
  if (zeros && x % 3 == 0) return 0;
  double v = (double)(int64_t)(x >> 11)/(double)(1ull << 52) - 1.0;     // [-1,1)
  v = v*0.75; return v + (v < 0 ? -0.25 : 0.25);
}
// long rows: n = p*m by decimation in time; the short ones below are checked against nothing but the definition
static void dft_fast(const cld *a, long st, long n, cld *out, const std::vector<cld> &w, long ws, cld *tmp) {
  if (n <= 32) { for (long k = 0; k < n; k++) { cld s = 0; for (long j = 0; j < n; j++) s += a[j*st]*w[(j*k % n)*ws]; out[k] = s; } return; }
  long p = 2; while (n % p) p++;
  long m = n/p;
  if (m == 1) { for (long k = 0; k < n; k++) { cld s = 0; for (long j = 0; j < n; j++) s += a[j*st]*w[(j*k % n)*ws]; out[k] = s; } return; }
  for (long q = 0; q < p; q++) dft_fast(a + q*st, st*p, m, tmp + q*m, w, ws*p, out);
  for (long k = 0; k < n; k++) { cld s = 0; for (long q = 0; q < p; q++) s += tmp[q*m + k % m]*w[(q*k % n)*ws]; out[k] = s; }
}
static void dft_rows(cld *a, long n, long stride, long count, int sign) {   // one row with stride
  static std::map<std::pair<long,int>, std::vector<cld>> tw;
  auto &w = tw[{n,sign}];
  if (w.empty()) { w.resize(n); for (long k = 0; k < n; k++) { long double ph = sign*2.0L*3.14159265358979323846264338327950288L*k/n; w[k] = cld(cosl(ph), sinl(ph)); } }
  (void)count;
  std::vector<cld> t(n);
  if (n > 200) { std::vector<cld> t2(n); dft_fast(a, stride, n, t.data(), w, 1, t2.data()); for (long k = 0; k < n; k++) a[k*stride] = t[k]; return; }
  for (long k = 0; k < n; k++) { cld s = 0; for (long j = 0; j < n; j++) s += a[j*stride]*w[(j*k) % n]; t[k] = s; }
  for (long k = 0; k < n; k++) a[k*stride] = t[k];
}
struct Ref { std::vector<cld> v; long double maxabs; };
// field after the transforms in key ('F' forward, 'B' backward, unnormalised), natural order
static const Ref &reference(const int *n, int prec, const std::string &key, int seed) {
  static std::map<std::string, std::shared_ptr<Ref>> cache; static size_t total = 0;
  char b[80]; snprintf(b, sizeof b, "%d,%d,%d,%d,%d:", n[0], n[1], n[2], prec, seed);
  auto &p = cache[b + key];
  if (!p) {
    long N = (long)n[0]*n[1]*n[2];
    if (total > (8u << 20)) { cache.clear(); total = 0; return reference(n, prec, key, seed); }
    total += N;
    p = std::make_shared<Ref>();
    auto keep = p;
    if (key.empty()) {
      p->v.resize(N);
      for (long i = 0; i < N; i++) {
        double re = rnd(seed*1000003ull + 2*i, seed & 1), im = rnd(seed*1000003ull + 2*i+1, seed & 1);
        if (prec == 1) { re = (float)re; im = (float)im; }
        p->v[i] = cld(re, im);
      }
    } else {
      Ref base = reference(n, prec, key.substr(0, key.size()-1), seed);
      int sign = key.back() == 'F' ? -1 : 1;
      for (long r = 0; r < (long)n[1]*n[2]; r++) dft_rows(&base.v[r*n[0]], n[0], 1, 1, sign);
      for (long k = 0; k < n[2]; k++) for (long i = 0; i < n[0]; i++) dft_rows(&base.v[k*n[0]*n[1]+i], n[1], n[0], 1, sign);
      for (long i = 0; i < (long)n[0]*n[1]; i++) dft_rows(&base.v[i], n[2], (long)n[0]*n[1], 1, sign);
      keep->v = std::move(base.v);
    }
    keep->maxabs = 0; for (auto &x : keep->v) keep->maxabs = std::max(keep->maxabs, std::abs(x));
    return *keep;
  }
  return *p;
}
static std::string canon(std::string k, long double &scale, long double N) {
  for (bool again = true; again; ) {
    again = false;
    for (size_t i = 0; i + 1 < k.size(); i++) if (k[i] != k[i+1]) { k.erase(i, 2); scale *= N; again = true; break; }
    for (size_t i = 0; !again && i + 3 < k.size(); i++) if (k.compare(i, 4, "FFFF") == 0 || k.compare(i, 4, "BBBB") == 0) { k.erase(i, 4); scale *= N*N; again = true; break; }
  }
  return k;
}

struct Lay { int t[6]; int perm; };       // a tile of the (3d-ised) grid and its storage order
static long lay_size(const Lay &l) { long s = 1; for (int k = 0; k < 3; k++) { long e = (long)l.t[2*k+1]-l.t[2*k]+1; s *= e < 0 ? 0 : e; } return s; }
template<class Fn> static void each(const Lay &l, const int *n, Fn fn) {
  long si = l.t[1]-l.t[0]+1, sj = l.t[3]-l.t[2]+1, sk = l.t[5]-l.t[4]+1;
  if (si <= 0 || sj <= 0 || sk <= 0) return;
  for (long k = 0; k < sk; k++) for (long j = 0; j < sj; j++) for (long i = 0; i < si; i++) {
    long g = ((k+l.t[4])*n[1] + (j+l.t[2]))*n[0] + (i+l.t[0]);
    long p = l.perm == 0 ? (k*sj+j)*si+i : l.perm == 1 ? (i*sk+k)*sj+j : (j*si+i)*sk+k;
    fn(g, p, i+l.t[0], j+l.t[2], k+l.t[4]);
  }
}

// ------------------------------------------------------------------------------------ interpreter
struct ObjState {
  void *h = 0; int fs = -1, ss = -1, rs = -1; void *sb = 0, *rb = 0;
  bool have = false; int stage = 0; std::string key; long double scale = 1; bool exact = true; int seed = 1;
  std::vector<double> data;        // last verified contents (scalars), in stage layout
  int remaponly = 0, scaled = 1; int coll = -1, exch = -1, pack = -1, mem = 1; bool isset = false; bool tuned = false;
};

struct Interp {
  const Case &c; Env &env; int me, np; MPI_Comm comm; std::vector<ObjState> st; int wrank; int group;
  Interp(const Case &cc, Env &e, int w) : c(cc), env(e), wrank(w) { st.resize(c.objs.size()); me = np = 0; comm = MPI_COMM_NULL; group = 0; }

  [[noreturn]] void fail(const char *cls, const char *fmt, ...) {
    char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    env.fail(cls, b);
    __builtin_unreachable();
  }
  const Api *api(const Obj &o) { const Api *a = env.api(o.dim, o.lib, wrank, o.flavour); if (!a) fail("harness", "no library for %dd lib %d", o.dim, o.lib); return a; }
  int prec(const Obj &o) { return o.lib & 1 ? 1 : 2; }
  const int *n3(const Obj &o) { return o.n; }   // n[2] is 1 for 2d
  Lay lay(const Obj &o, const int *t, int perm) { Lay l; for (int k = 0; k < 6; k++) l.t[k] = k < 2*o.dim ? t[k] : 0; l.perm = perm; return l; }
  Lay in_lay(const Obj &o) { return lay(o, &o.in[me*2*o.dim], 0); }
  Lay out_lay(const Obj &o) { return lay(o, &o.out[me*2*o.dim], o.perm); }
  long gsize(const Obj &o) { const int *n = n3(o); return (long)n[0]*n[1]*n[2]; }
  int gi(const Obj &o, ObjState &s, const char *k) { return api(o)->fft_get_int(s.h, k); }

  // tile of a processor grid p1 x p2 x p3
  Lay grid_lay(const Obj &o, int p1, int p2, int p3, int perm) {
    const int *n = n3(o); int P[3] = { p1, p2, p3 }; int ip[3] = { me % p1, (me/p1) % p2, me/(p1*p2) };
    Lay l; l.perm = perm;
    for (int k = 0; k < 3; k++) { l.t[2*k] = (int)((int64_t)ip[k]*n[k]/P[k]); l.t[2*k+1] = (int)((int64_t)(ip[k]+1)*n[k]/P[k])-1; }
    return l;
  }
  bool same_layout(const Obj &o) { return o.perm == 0 && o.in == o.out; }
  bool spans(const Obj &o, const std::vector<int> &t, int d) {
    for (int r = 0; r < np; r++) if (t[r*2*o.dim+2*d] != 0 || t[r*2*o.dim+2*d+1] != o.n[d]-1) return false;
    return true;
  }
  // layouts of the stages: 0 input, 1 fast pencils, 2 mid pencils, 3 slow pencils, 4 output (2d: no mid)
  Lay stage_lay(const Obj &o, ObjState &s, int stage) {
    if (stage == 0) return in_lay(o);
    if (stage == 4) return out_lay(o);
    // no remap to or from pencils that the caller's tiles already are (on every process)
    if (stage == 1 && spans(o, o.in, 0)) return in_lay(o);
    if (stage == 3 && o.perm == o.dim-1 && spans(o, o.out, o.dim-1)) return out_lay(o);
    if (o.dim == 3) {
      if (stage == 1) return grid_lay(o, gi(o,s,"npfast1"), gi(o,s,"npfast2"), gi(o,s,"npfast3"), 0);
      if (stage == 2) return grid_lay(o, gi(o,s,"npmid1"), gi(o,s,"npmid2"), gi(o,s,"npmid3"), 1);
      return grid_lay(o, gi(o,s,"npslow1"), gi(o,s,"npslow2"), gi(o,s,"npslow3"), 2);
    }
    if (stage == 1) return grid_lay(o, gi(o,s,"npfast1"), gi(o,s,"npfast2"), 1, 0);
    return grid_lay(o, gi(o,s,"npslow1"), gi(o,s,"npslow2"), 1, 1);
  }
  double get(const void *b, long i, int sz) { return sz == 4 ? (double)((const float *)b)[i] : ((const double *)b)[i]; }
  void put(void *b, long i, int sz, double v) { if (sz == 4) ((float *)b)[i] = (float)v; else ((double *)b)[i] = v; }
  void fillnan(void *b, long nscalar, int sz) { for (long i = 0; i < nscalar; i++) put(b, i, sz, NAN); }

  // ---- FFT data
  void load(const Obj &o, ObjState &s, int stage) {      // fresh raw field in the layout of a stage
    Lay l = stage_lay(o, s, stage); const int *n = n3(o);
    s.seed = s.seed % 7 + 1;
    s.have = true; s.stage = stage; s.key = ""; s.scale = 1; s.exact = true;
    s.data.assign(2*lay_size(l), 0);
    const Ref &r = reference(n, prec(o), "", s.seed);
    each(l, n, [&](long g, long p, long, long, long) { s.data[2*p] = (double)r.v[g].real(); s.data[2*p+1] = (double)r.v[g].imag(); });
  }
  void verify(const Obj &o, ObjState &s, const void *buf, int stage, const char *what) {
    Lay l = stage_lay(o, s, stage); const int *n = n3(o); int sz = api(o)->scalar_size;
    std::string key = canon(s.key, s.scale, (long double)gsize(o)); s.key = key;
    const Ref &r = reference(n, prec(o), key, s.seed);
    long double tol = s.exact ? 0 : (sz == 8 ? 3e-13L : 4e-5L)*r.maxabs*fabsl(s.scale);
    long double worst = -1;
    std::vector<double> nd(2*lay_size(l));
    each(l, n, [&](long g, long p, long i, long j, long k) {
      double re = get(buf, 2*p, sz), im = get(buf, 2*p+1, sz);
      nd[2*p] = re; nd[2*p+1] = im;
      cld want = r.v[g]*s.scale;
      long double d = std::max(fabsl(re - want.real()), fabsl(im - want.imag()));
      if (!(d <= tol)) fail("value", "%s: point (%ld,%ld,%ld) of the %s layout is (%.9g,%.9g), expected (%.9g,%.9g)", what, i, j, k,
        stage == 0 ? "input" : stage == 4 ? "output" : stage == 1 ? "fast" : stage == 2 ? "mid" : "slow", re, im, (double)want.real(), (double)want.imag());
      if (d > worst) worst = d;
    });
    s.data.swap(nd); s.stage = stage; s.have = true;
  }
  // caller arrays are aligned as their type requires, not more: every third one starts half way between 16-byte boundaries;
  // arrays of no values are null pointers every other time
  int nmem = 0;
  void *mem(size_t bytes, int sz) {
    int k = nmem++ + me;
    if (bytes == 0 && k % 2) return NULL;
    return env.alloc(bytes, k % 3 == 1 ? (sz == 4 ? 12 : 8) : 0);
  }
  void fft_step(const Obj &o, ObjState &s, int from, int to, bool transform, int flag, bool inplace, const char *what, int (*dummy)(), int call, int which) {
    (void)dummy;
    const Api *a = api(o); int sz = a->scalar_size;
    if (!s.have || s.stage != from) load(o, s, from);
    long nin = (long)s.data.size();
    long cap = 2L*s.fs;
    if (nin > cap || 2*lay_size(stage_lay(o, s, to)) > cap) fail("size", "%s: fftsize %d is smaller than a tile this rank holds", what, s.fs);
    void *in, *out;
    if (inplace) { in = out = mem(cap*sz, sz); fillnan(out, cap, sz); }
    else { in = mem(nin*sz, sz); out = mem(cap*sz, sz); fillnan(out, cap, sz); }
    for (long i = 0; i < nin; i++) put(in, i, sz, s.data[i]);
    if (s.sb) fillnan(s.sb, s.ss, sz);
    if (s.rb) fillnan(s.rb, s.rs, sz);
    if (call == 0) a->fft_compute(s.h, in, out, flag);
    else if (call == 1) a->fft_only_remaps(s.h, in, out, flag);
    else a->fft_only_one(s.h, in, out, flag, which);
    if (!inplace) for (long i = 0; i < nin; i++) if (get(in, i, sz) != s.data[i]) fail("value", "%s out of place changed its input at scalar %ld", what, i);
    if (transform) {
      s.key += flag == 1 ? 'F' : 'B'; s.exact = false;
      if (flag == -1 && s.scaled) s.scale /= (long double)gsize(o);
    }
    verify(o, s, out, to, what);
  }
  void only1d(const Obj &o, ObjState &s, int flag) {
    const Api *a = api(o); int sz = a->scalar_size; const int *n = n3(o); long cap = s.fs;
    std::vector<cld> w(cap); void *b = mem(2*cap*sz, sz);
    for (long i = 0; i < cap; i++) {
      double re = rnd(77+2*i+1000*me), im = rnd(78+2*i+1000*me);
      put(b, 2*i, sz, re); put(b, 2*i+1, sz, im); w[i] = cld(get(b, 2*i, sz), get(b, 2*i+1, sz));
    }
    long double mx = 1;
    int seq3[3] = { 1, 2, 3 }, seq2[2] = { 1, 3 }; int *seq = o.dim == 3 ? seq3 : seq2; int ns = o.dim;
    for (int q = 0; q < ns; q++) {
      Lay l = stage_lay(o, s, seq[q]); long tot = lay_size(l); long len = o.dim == 3 ? n[q] : n[q];
      if (tot > cap) fail("size", "only_1d_ffts: fftsize %d is smaller than a pencil tile of %ld", s.fs, tot);
      if (tot) for (long r = 0; r < tot/len; r++) dft_rows(&w[r*len], len, 1, 1, flag == 1 ? -1 : 1);
    }
    for (auto &x : w) mx = std::max(mx, std::abs(x));
    a->fft_only_1d(s.h, b, flag);
    long double tol = (sz == 8 ? 3e-13L : 4e-5L)*mx;
    for (long i = 0; i < cap; i++) {
      double re = get(b, 2*i, sz), im = get(b, 2*i+1, sz);
      if (!(fabsl(re-w[i].real()) <= tol && fabsl(im-w[i].imag()) <= tol))
        fail("value", "only_1d_ffts: element %ld is (%.9g,%.9g), expected (%.9g,%.9g)", i, re, im, (double)w[i].real(), (double)w[i].imag());
    }
  }
  // ---- remap objects: exact integer tags
  double tag(const Obj &o, long g, int q, int seed) {
    long x = g*o.nqty + q; bool f = prec(o) == 1;
    if (seed & 1) switch ((x*2654435761ul >> 7) % 11) {      // any value survives, not only ordinary ones
      case 0: return 0.0; case 1: return -0.0; case 2: return INFINITY; case 3: return f ? 1e-40f*(x % 100) : 1e-310*(x % 1000); case 4: return f ? 3e38f : -1.7e308; }
    return f ? (double)(float)((x*8 + seed + 1) % 16000000) : (double)(x*8 + seed + 1);
  }
  bool sameval(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
  void do_remap(const Obj &o, ObjState &s, bool inplace) {
    const Api *a = api(o); int sz = a->scalar_size; const int *n = n3(o); int nq = o.nqty;
    Lay li = in_lay(o), lo = out_lay(o); li.perm = 0;
    long ni = lay_size(li)*nq, no = lay_size(lo)*nq; s.seed = (s.seed + 1) % 7;
    void *in, *out;
    if (inplace) { in = out = mem(std::max(ni,no)*sz, sz); fillnan(in, std::max(ni,no), sz); }
    else { in = mem(ni*sz, sz); out = mem(no*sz, sz); fillnan(out, no, sz); }
    each(li, n, [&](long g, long p, long, long, long) { for (int q = 0; q < nq; q++) put(in, p*nq+q, sz, tag(o, g, q, s.seed)); });
    if (s.sb) fillnan(s.sb, s.ss, sz);
    if (s.rb) fillnan(s.rb, s.rs, sz);
    a->remap_remap(s.h, in, out, s.sb, s.rb);
    each(lo, n, [&](long g, long p, long i, long j, long k) { for (int q = 0; q < nq; q++) {
      double v = get(out, p*nq+q, sz), w = tag(o, g, q, s.seed);
      if (!sameval(v, w)) fail("value", "remap: datum %d of point (%ld,%ld,%ld) is %.17g, expected %.17g", q, i, j, k, v, w);
    } });
    if (!inplace) each(li, n, [&](long g, long p, long, long, long) { for (int q = 0; q < nq; q++)
      if (!sameval(get(in, p*nq+q, sz), tag(o, g, q, s.seed))) fail("value", "remap out of place changed its input"); });
  }
  void setopts(const Obj &o, ObjState &s) {
    const Api *a = api(o);
    if (o.kind == K_FFT) {
      if (o.coll >= 0) a->fft_set(s.h, "collective", o.coll);
      if (o.exch >= 0) a->fft_set(s.h, "exchange", o.exch);
      if (o.pack >= 0) a->fft_set(s.h, "pack", o.pack);
      if (o.mem >= 0) a->fft_set(s.h, "memory", o.mem);
      if (o.scale >= 0) { a->fft_set(s.h, "scale", o.scale); s.scaled = o.scale; }
      if (o.remaponly >= 0) { a->fft_set(s.h, "remaponly", o.remaponly); s.remaponly = o.remaponly; }
    } else {
      if (o.coll >= 0) a->remap_set(s.h, "collective", o.coll);
      if (o.pack >= 0) a->remap_set(s.h, "pack", o.pack);
    }
    s.coll = o.coll; s.exch = o.exch; s.pack = o.pack; s.mem = o.mem >= 0 ? o.mem : 1;
  }
  void setup(const Obj &o, ObjState &s) {
    const Api *a = api(o); s.fs = s.ss = s.rs = -12345;
    if (o.kind == K_FFT) a->fft_setup(s.h, o.n, &o.in[me*2*o.dim], &o.out[me*2*o.dim], o.perm, &s.fs, &s.ss, &s.rs);
    else a->remap_setup(s.h, &o.in[me*2*o.dim], &o.out[me*2*o.dim], o.nqty, o.perm, o.mem < 0 ? 1 : o.mem, &s.ss, &s.rs);
    s.isset = true;
    if (s.ss < 0 || s.rs < 0 || (o.kind == K_FFT && s.fs < 0)) fail("size", "setup returned sizes %d %d %d", s.fs, s.ss, s.rs);
  }
  void setmem(const Obj &o, ObjState &s) {
    const Api *a = api(o); int sz = a->scalar_size;
    s.sb = mem((size_t)s.ss*sz, sz); s.rb = mem((size_t)s.rs*sz, sz);
    if (o.kind == K_FFT) a->fft_setup_memory(s.h, s.sb, s.rb);
  }
  void sizes(const Obj &o, ObjState &s) {
    long need = std::max(lay_size(in_lay(o)), lay_size(out_lay(o)));
    if (o.kind == K_FFT) {
      int list3[3] = {1,2,3}, list2[2] = {1,3};
      for (int q = 0; q < o.dim; q++) need = std::max(need, lay_size(stage_lay(o, s, o.dim == 3 ? list3[q] : list2[q])));
      if (gi(o,s,"exchange")) {
        if (o.dim == 3) need = std::max(need, lay_size(grid_lay(o, gi(o,s,"npbrick1"), gi(o,s,"npbrick2"), gi(o,s,"npbrick3"), 0)));
        else need = std::max(need, lay_size(grid_lay(o, gi(o,s,"npbrick1"), gi(o,s,"npbrick2"), 1, 0)));
      }
      if (s.fs < need) fail("size", "fftsize %d is smaller than the %ld points this rank holds at some stage", s.fs, need);
      if (s.fs > need) fail("size", "fftsize %d is larger than the %ld points this rank holds at any stage", s.fs, need);
      long f = s.fs, tot; MPI_Allreduce(&f, &tot, 1, MPI_LONG, MPI_SUM, comm);
      if (tot < gsize(o)) fail("size", "the sizes add up to %ld, the grid has %ld points", tot, gsize(o));
    }
  }
  void stats(const Obj &o, ObjState &s);
  void memsum(const Obj &o, ObjState &s);
  void tune(const Obj &o, ObjState &s, const std::vector<int> &c);
  void getbad(const Obj &o, ObjState &s, int level) {
    const Api *a = api(o);
    if (o.flavour == FL_CXX || o.kind != K_FFT) return;
    static const char *K[] = { "collective","exchange","pack","memory","scale","remaponly","npfast1","npfast2","npfast3","npmid1","npmid2","npmid3","npslow1","npslow2","npslow3","npbrick1","npbrick2","npbrick3",
      "ntrial","npertrial","setuptime","memusage","fft1d","precision","cflags","eflags","pflags","tfft","t1d","tremap","tremap1","tremap2","tremap3","tremap4" };
    // keywords of each call; the others (and in 2d those of 3d only) are unknown to it
    auto known = [&](int call, const std::string &k) {
      int i = 0; while (i < 34 && k != K[i]) i++;
      if (i == 34) return false;
      bool d3 = o.dim == 3 || !(k == "npfast3" || k.substr(0,5) == "npmid" || k == "npslow3" || k == "npbrick3" || k == "tremap4");
      if (!d3) return false;
      switch (call) { case 0: return i <= 5; case 1: return i <= 2 || (i >= 6 && i <= 19); case 2: return i == 20; case 3: return i == 21; case 4: return i == 22 || i == 23; case 5: return i >= 24 && i <= 26; default: return i >= 27; }
    };
    auto snapshot = [&]() { std::vector<long> v; const Api *cx = env.api(o.dim, o.lib, wrank, FL_CXX);
      for (int i = 0; i < 20; i++) if (known(1, K[i]) || i <= 5) v.push_back(cx->fft_get_int(s.h, K[i]));
      return v; };
    auto before = snapshot();
    auto probe = [&](const std::string &kw) {
      const char *k = kw.c_str(); int len = 5;
      if (!known(0, kw)) a->fft_set(s.h, k, 12345);     // ignored
      if (!known(1, kw) && !known(0, kw) && a->fft_get_int(s.h, k) != -1) fail("value", "get_int of unknown keyword \"%s\" is not -1", k);
      if (!known(2, kw) && a->fft_get_double(s.h, k) != -1.0) fail("value", "get_double of unknown keyword \"%s\" is not -1", k);
      if (!known(3, kw) && a->fft_get_int64(s.h, k) != -1) fail("value", "get_int64 of unknown keyword \"%s\" is not -1", k);
      if (!known(4, kw) && a->fft_get_string(s.h, k, &len)) fail("value", "get_string of unknown keyword \"%s\" is not NULL", k);
      if (!known(5, kw) && a->fft_get_int_vector(s.h, k, &len)) fail("value", "get_int_vector of unknown keyword \"%s\" is not NULL", k);
      if (!known(6, kw) && a->fft_get_double_vector(s.h, k, &len)) fail("value", "get_double_vector of unknown keyword \"%s\" is not NULL", k);
    };
    for (const char *k : { "nosuchkey", "", "Collective", "collectivex", "npfast4", "tremap5", "tremapx", "tremap0", "tff", "t", "memusage2" }) probe(k);
    for (auto k : K) probe(k);
    if (level) {          // every keyword with one character dropped, added, replaced or upper-cased
      const char *abc = "abcdefghijklmnopqrstuvwxyz0123456789_ ";
      for (auto k0 : K) { std::string k = k0;
        for (size_t i = 0; i <= k.size(); i++) {
          if (i < k.size()) { std::string t = k; t.erase(i, 1); probe(t); t = k; t[i] = (char)toupper(t[i]); probe(t); probe(k.substr(0, i)); }
          for (const char *q = abc; *q; q++) { std::string t = k; t.insert(i, 1, *q); probe(t); if (i < k.size()) { t = k; t[i] = *q; probe(t); } }
        } }
    }
    if (snapshot() != before) fail("value", "an unknown keyword changed the object");
  }

  void run() {
    bool member = true;
    MPI_Comm made = MPI_COMM_NULL;
    if (c.comm == 0) comm = MPI_COMM_WORLD;
    else if (c.comm == 1) { MPI_Comm_split(MPI_COMM_WORLD, 0, -wrank, &made); comm = made; }           // reversed ranks
    else if (c.comm == 2) { MPI_Comm_dup(MPI_COMM_WORLD, &made); comm = made; }
    else if (c.comm == 3) { MPI_Comm_split(MPI_COMM_WORLD, wrank == 0 ? MPI_UNDEFINED : 5, wrank, &made); comm = made; member = wrank != 0; }
    else if (c.comm == 4) { MPI_Comm_split(MPI_COMM_WORLD, wrank & 1, wrank, &made); comm = made; group = wrank & 1; }
    else if (c.comm == 5) { MPI_Comm_split(MPI_COMM_WORLD, 0, -wrank, &made); comm = MPI_COMM_WORLD; }     // odd objects: reversed ranks
    else if (c.comm == 6) { MPI_Comm_split(MPI_COMM_WORLD, wrank == 0 ? MPI_UNDEFINED : 5, wrank, &made); comm = MPI_COMM_WORLD; }  // odd objects: all but rank 0
    MPI_Comm base = comm;
    if (member) {
      MPI_Comm_rank(comm, &me); MPI_Comm_size(comm, &np);
      bool must = false;
      for (size_t k = 0; k < c.cmds.size(); k++) {
        auto &x = c.cmds[k]; if (x.empty()) continue;
        if (x[0] == C_MUSTFAIL) { must = true; env.mark(wrank, 1); continue; }
        if (x[0] == C_BARRIER) { MPI_Barrier(base); continue; }
        int oi = x.size() > 1 ? x[1] : 0;
        const Obj &o = c.objs[oi]; ObjState &s = st[oi];
        if (c.comm >= 5) {
          comm = oi & 1 ? made : base; if (comm == MPI_COMM_NULL) continue;
          MPI_Comm_rank(comm, &me); MPI_Comm_size(comm, &np);
        }
        int A = x.size() > 2 ? x[2] : 0, B = x.size() > 3 ? x[3] : 0, D = x.size() > 4 ? x[4] : 0;
        exec(o, s, x, A, B, D);
        if (must) { env.mark(wrank, 2); fail("accepted", "%s(%s) was accepted although it is invalid", cname[x[0]], o.kind ? "remap" : "fft"); }
      }
    }
    if (made != MPI_COMM_NULL) MPI_Comm_free(&made);
    env.finish();
  }
  void exec(const Obj &o, ObjState &s, const std::vector<int> &x, int A, int B, int D) {
    const Api *a = api(o);
    switch (x[0]) {
      case C_MAKE: s = ObjState();
        s.h = o.kind == K_FFT ? a->fft_create(comm, prec(o)) : a->remap_create(comm);
        if (!s.h) fail("value", "create returned NULL");
        setopts(o, s); setup(o, s); if (s.mem == 0) setmem(o, s); sizes(o, s); break;
      case C_CREATE: s = ObjState();
        s.h = o.kind == K_FFT ? a->fft_create(comm, x.size() > 2 && A != -1 ? A : prec(o)) : a->remap_create(comm); break;
      case C_SETOPTS: setopts(o, s); break;
      case C_SETUP: setup(o, s); break;
      case C_SETMEM: setmem(o, s); break;
      case C_SIZES: sizes(o, s); break;
      case C_COMPUTE: fft_step(o, s, A == 1 ? 0 : 4, A == 1 ? 4 : 0, !s.remaponly, A, B, A == 1 ? "forward compute" : "backward compute", 0, 0, 0); break;
      case C_ONLYREMAPS: fft_step(o, s, A == 1 ? 0 : 4, A == 1 ? 4 : 0, false, A, B, A == 1 ? "forward only_remaps" : "backward only_remaps", 0, 1, 0); break;
      case C_ONEREMAP: {
        int f[5] = { 0, 0, 1, 2, 3 }, t[5] = { 0, 1, 2, 3, 4 };
        if (o.dim == 2) { f[2] = 1; t[2] = 3; f[3] = 3; t[3] = 4; }
        int from = f[B], to = t[B]; if (A != 1 && !same_layout(o)) std::swap(from, to);   // equal layouts: the backward FFT runs the forward remaps
        one_remap(o, s, from, to, A, B, D); break;
      }
      case C_ONLY1D: only1d(o, s, A); break;
      case C_REMAP: do_remap(o, s, A); break;
      case C_DESTROY: if (o.kind == K_FFT) a->fft_destroy(s.h); else a->remap_destroy(s.h); s = ObjState(); break;
      case C_SETKEY:
        if (o.kind == K_FFT) a->fft_set(s.h, set_keys[A], B); else a->remap_set(s.h, set_keys[A], B);
        if (A == 4) s.scaled = B;
        if (A == 5) s.remaponly = B;
        break;
      case C_TUNE: tune(o, s, x); break;
      case C_STATS: stats(o, s); break;
      case C_GETBAD: getbad(o, s, A); break;
      case C_REFRESH: s.have = false; break;
      case C_CMPSIZE: { ObjState &t = st[A]; const Obj &p = c.objs[A];
        if (s.fs != t.fs || s.ss != t.ss || s.rs != t.rs) fail("size", "sizes %d %d %d differ from %d %d %d (memory=%d and %d)", s.fs, s.ss, s.rs, t.fs, t.ss, t.rs, o.mem, p.mem);
        if (o.kind == K_FFT && p.kind == K_FFT && s.mem != t.mem) {      // memory usage differs by just the message buffers
          int64_t d = a->fft_get_int64(s.h, "memusage") - api(p)->fft_get_int64(t.h, "memusage"), w = ((int64_t)s.ss+s.rs)*a->scalar_size*(s.mem ? 1 : -1);
          if (d != w) fail("stats", "memusage changes by %lld with the memory setting, the buffers have %lld bytes", (long long)d, (long long)w);
        }
        break; }
      case C_MEMSUM: memsum(o, s); break;
      case C_RAW: {
        size_t nb = (size_t)(2*gsize(o)*std::max(1,o.nqty) + 64)*8; void *p = env.alloc(nb), *q = env.alloc(nb), *r = env.alloc(nb), *t = env.alloc(nb); memset(p, 0, nb); memset(q, 0, nb);
        if (A == 0) a->fft_compute(s.h, p, q, B); else if (A == 1) a->fft_only_remaps(s.h, p, q, B); else if (A == 2) a->fft_only_one(s.h, p, q, B, D ? D : 1);
        else if (A == 3) a->fft_only_1d(s.h, p, B); else if (A == 4) a->remap_remap(s.h, p, q, r, t); else if (A == 5) a->fft_setup_memory(s.h, p, q);
        break; }
      default: fail("harness", "unknown command %d", x[0]);
    }
  }
  void one_remap(const Obj &o, ObjState &s, int from, int to, int flag, int which, bool inplace) {
    // a stage transition that needs no data movement may leave the data where it is: compare layouts first
    char w[60]; snprintf(w, sizeof w, "%s only_one_remap(%d)", flag == 1 ? "forward" : "backward", which);
    if (!inplace && !first_or_moves(o, s, from, to, flag)) inplace = true;
    fft_step(o, s, from, to, false, flag, inplace, w, 0, 2, which);
  }
  // out of place, a remap that is not the first of its direction and moves nothing is not required to copy
  bool first_or_moves(const Obj &o, ObjState &s, int from, int to, int flag) {
    bool fwd = flag == 1 || same_layout(o);
    if ((fwd && from == 0) || (!fwd && from == 4)) return true;
    // collectively decide whether the two layouts coincide on every rank
    Lay a = stage_lay(o, s, from), b = stage_lay(o, s, to); int same = a.perm == b.perm;
    for (int k = 0; k < 6; k++) if (a.t[k] != b.t[k]) same = 0;
    if (lay_size(a) == 0 && lay_size(b) == 0) same = 1;
    int all; MPI_Allreduce(&same, &all, 1, MPI_INT, MPI_MIN, comm);
    return !all;
  }
};

static int common(MPI_Comm comm, long v) {   // 1 if all ranks pass the same value
  long a = v, mn, mx; MPI_Allreduce(&a, &mn, 1, MPI_LONG, MPI_MIN, comm); MPI_Allreduce(&a, &mx, 1, MPI_LONG, MPI_MAX, comm); return mn == mx;
}

void Interp::stats(const Obj &o, ObjState &s) {
  if (o.kind != K_FFT) {
    const Api *cx = env.api(o.dim, o.lib, wrank, FL_CXX);
    int64_t m = cx->remap_memusage(s.h); int sz = cx->scalar_size;
    if (m < 0) fail("stats", "remap memusage %lld is negative", (long long)m);
    int mem = o.mem < 0 ? 1 : o.mem;
    if (mem && m < ((int64_t)s.ss+s.rs)*sz) fail("stats", "remap memusage %lld is smaller than its own buffers", (long long)m);
    return;
  }
  const Api *a = api(o), *cx = env.api(o.dim, o.lib, wrank, FL_CXX); const int *n = n3(o);
  // the getters of the other interfaces report the C++ values
  const char *ik3[] = { "collective","exchange","pack","npfast1","npfast2","npfast3","npmid1","npmid2","npmid3","npslow1","npslow2","npslow3","npbrick1","npbrick2","npbrick3", 0 };
  const char *ik2[] = { "collective","exchange","pack","npfast1","npfast2","npslow1","npslow2","npbrick1","npbrick2", 0 };
  const char **ik = o.dim == 3 ? ik3 : ik2; std::map<std::string,int> v;
  for (int k = 0; ik[k]; k++) {
    v[ik[k]] = cx->fft_get_int(s.h, ik[k]);
    int w = a->fft_get_int(s.h, ik[k]);
    if (w != v[ik[k]]) fail("stats", "get_int(%s) is %d, the object holds %d", ik[k], w, v[ik[k]]);
    if (!common(comm, w)) fail("stats", "%s differs between ranks", ik[k]);
  }
  if (s.tuned || true) for (const char *k : { "ntrial", "npertrial" }) {
    int x = cx->fft_get_int(s.h, k), y = a->fft_get_int(s.h, k);
    if (x != y) fail("stats", "get_int(%s) is %d, the object holds %d", k, y, x);
    if (!s.tuned && k[1] == 't' && x != 0) fail("stats", "ntrial is %d without tuning", x);
  }
  { double g1 = a->fft_get_double(s.h, "setuptime"), g2 = cx->fft_get_double(s.h, "setuptime"); if (memcmp(&g1, &g2, sizeof g1)) fail("stats", "get_double(setuptime) differs from the object"); }
  int64_t mu = a->fft_get_int64(s.h, "memusage");
  if (mu != cx->fft_get_int64(s.h, "memusage")) fail("stats", "get_int64(memusage) differs from the object");
  int len = -7; const char *str = a->fft_get_string(s.h, "fft1d", &len);
  const char *w1 = o.lib >= 6 ? "MKL" : o.lib >= 4 ? "FFTW2" : o.lib >= 2 ? "FFTW3" : "KISS";
  if (!str || len != (int)strlen(w1) || strcmp(str, w1)) fail("stats", "fft1d is %s (length %d), expected %s", str ? str : "NULL", len, w1);
  len = -7; str = a->fft_get_string(s.h, "precision", &len);
  const char *w2 = (o.lib & 1) ? "single" : "double";
  if (!str || len != 6 || strcmp(str, w2)) fail("stats", "precision is %s (length %d), expected %s", str ? str : "NULL", len, w2);
  // options read back
  if (!s.tuned) {
    if (o.coll >= 0 && v["collective"] != o.coll) fail("stats", "collective reads %d, set to %d", v["collective"], o.coll);
    if (o.exch >= 0 && v["exchange"] != o.exch) fail("stats", "exchange reads %d, set to %d", v["exchange"], o.exch);
    if (o.pack >= 0 && v["pack"] != o.pack) fail("stats", "pack reads %d, set to %d", v["pack"], o.pack);
  }
  // processor grids
  auto prod = [&](const char *a, const char *b, const char *c2) { return (long)v[a]*v[b]*(c2 ? v[c2] : 1); };
  if (o.dim == 3) {
    if (v["npfast1"] != 1 || prod("npfast1","npfast2","npfast3") != np) fail("stats", "fast pencil grid %dx%dx%d for %d ranks", v["npfast1"], v["npfast2"], v["npfast3"], np);
    if (v["npmid2"] != 1 || prod("npmid1","npmid2","npmid3") != np) fail("stats", "mid pencil grid %dx%dx%d for %d ranks", v["npmid1"], v["npmid2"], v["npmid3"], np);
    if (v["npslow3"] != 1 || prod("npslow1","npslow2","npslow3") != np) fail("stats", "slow pencil grid %dx%dx%d for %d ranks", v["npslow1"], v["npslow2"], v["npslow3"], np);
    if (v["exchange"]) { if (prod("npbrick1","npbrick2","npbrick3") != np) fail("stats", "brick grid %dx%dx%d for %d ranks", v["npbrick1"], v["npbrick2"], v["npbrick3"], np); }
    else if (v["npbrick1"] || v["npbrick2"] || v["npbrick3"]) fail("stats", "brick grid %dx%dx%d although exchange is 0", v["npbrick1"], v["npbrick2"], v["npbrick3"]);
  } else {
    if (v["npfast1"] != 1 || prod("npfast1","npfast2",0) != np) fail("stats", "fast pencil grid %dx%d for %d ranks", v["npfast1"], v["npfast2"], np);
    if (v["npslow2"] != 1 || prod("npslow1","npslow2",0) != np) fail("stats", "slow pencil grid %dx%d for %d ranks", v["npslow1"], v["npslow2"], np);
    if (v["exchange"]) { if (prod("npbrick1","npbrick2",0) != np) fail("stats", "brick grid %dx%d for %d ranks", v["npbrick1"], v["npbrick2"], np); }
    else if (v["npbrick1"] || v["npbrick2"]) fail("stats", "brick grid %dx%d although exchange is 0", v["npbrick1"], v["npbrick2"]);
  }
  // memory report
  int sz = a->scalar_size; int mem = s.mem;
  int64_t bufs = ((int64_t)s.ss + s.rs)*sz;
  if (mu < 0) fail("stats", "memusage %lld is negative", (long long)mu);
  if (mem && mu < bufs) fail("stats", "memusage %lld is smaller than the %lld bytes of the internal buffers", (long long)mu, (long long)bufs);
  if (env.virt()) {
    size_t live = env.live_bytes(wrank);
    if (mu > (int64_t)live) fail("stats", "memusage %lld exceeds the %zu bytes the library has allocated", (long long)mu, live);
  }
}

// memusage of an FFT: its message buffers plus what stand-alone remaps between its stages report
void Interp::memsum(const Obj &o, ObjState &s) {
  const Api *cx = env.api(o.dim, o.lib, wrank, FL_CXX); int sz = cx->scalar_size;
  if (o.kind != K_FFT) {
    // a remap reports about what it holds: object and bookkeeping only beside the reported bytes
    size_t l0 = env.live_bytes(wrank), b0 = env.live_blocks(wrank); void *h = cx->remap_create(comm); int a, b;
    cx->remap_set(h, "collective", o.coll < 0 ? 1 : o.coll); cx->remap_set(h, "pack", o.pack < 0 ? 2 : o.pack);
    cx->remap_setup(h, &o.in[me*2*o.dim], &o.out[me*2*o.dim], o.nqty, o.perm, o.mem < 0 ? 1 : o.mem, &a, &b);
    long live = (long)(env.live_bytes(wrank) - l0), m = (long)cx->remap_memusage(h), blocks = (long)(env.live_blocks(wrank) - b0); cx->remap_destroy(h);
    if (env.virt() && (m > live || live - m > 640 + 64*blocks + live/16)) fail("stats", "remap memusage is %ld, the object holds %ld bytes", m, live);
    return;
  }
  int coll = cx->fft_get_int(s.h, "collective"), ex = cx->fft_get_int(s.h, "exchange"), pk = cx->fft_get_int(s.h, "pack");
  int bp = coll == 1, pp = coll != 0;
  int64_t sum = s.mem ? ((int64_t)s.ss+s.rs)*sz : 0;
  std::vector<Lay> st; std::vector<int> cf;
  Lay br = in_lay(o);
  if (ex) br = o.dim == 3 ? grid_lay(o, gi(o,s,"npbrick1"), gi(o,s,"npbrick2"), gi(o,s,"npbrick3"), 0) : grid_lay(o, gi(o,s,"npbrick1"), gi(o,s,"npbrick2"), 1, 0);
  if (!spans(o, o.in, 0)) { st.push_back(in_lay(o)); cf.push_back(bp); }
  st.push_back(stage_lay(o, s, 1));
  for (int q = o.dim == 3 ? 2 : 3; q <= 3; q++) { if (ex) { cf.push_back(bp); st.push_back(br); } cf.push_back(ex ? bp : pp); st.push_back(stage_lay(o, s, q)); }
  if (!(o.perm == o.dim-1 && spans(o, o.out, o.dim-1))) { cf.push_back(bp); st.push_back(out_lay(o)); }
  for (size_t k = 0; k < cf.size(); k++) for (int back = 0; back < (same_layout(o) ? 1 : 2); back++) {
    void *h = cx->remap_create(comm); int a, b;
    cx->remap_set(h, "collective", cf[k]); cx->remap_set(h, "pack", pk);
    cx->remap_setup(h, st[k+back].t, st[k+1-back].t, 2, 0, 0, &a, &b);
    sum += cx->remap_memusage(h); cx->remap_destroy(h);
    if (a > s.ss || b > s.rs) fail("size", "sendsize %d, recvsize %d: a remap between two stages needs %d and %d", s.ss, s.rs, a, b);
  }
  int64_t mu = cx->fft_get_int64(s.h, "memusage");
  if (mu != sum) fail("stats", "memusage is %lld, buffers and remaps of the FFT come to %lld", (long long)mu, (long long)sum);
}

void Interp::tune(const Obj &o, ObjState &s, const std::vector<int> &x) {
  const Api *a = api(o), *cx = env.api(o.dim, o.lib, wrank, FL_CXX);
  int flag = x[2], niter = x[3], tflag = x[5]; double tmax = x[4]*1e-6;
  s.fs = s.ss = s.rs = -12345;
  // clock that counts the data sent: what an FFT and its parts take with each setting, from objects of their own
  struct Part { double all[2], one[2][4]; }; struct Cost { Part me, lo, hi; } cost[3][2];
  if (c.wt == 8) for (int cc = 0; cc < 3; cc++) for (int ee = 0; ee < 2; ee++) {
    Cost &k = cost[cc][ee]; void *h = cx->fft_create(comm, prec(o)); int f2 = 0, s2 = 0, r2 = 0;
    cx->fft_set(h, "collective", cc); cx->fft_set(h, "exchange", ee);
    cx->fft_setup(h, o.n, &o.in[me*2*o.dim], &o.out[me*2*o.dim], o.perm, &f2, &s2, &r2);
    size_t by = 2*(size_t)(f2 > 0 ? f2 : 1)*cx->scalar_size; void *buf = env.alloc(by); memset(buf, 0, by);
    for (int d = 0; d < 2; d++) {
      double t = MPI_Wtime(); cx->fft_compute(h, buf, buf, d ? -1 : 1); k.me.all[d] = MPI_Wtime() - t;
      for (int w = 0; w < 4; w++) { t = MPI_Wtime(); if (w < o.dim+1) cx->fft_only_one(h, buf, buf, d ? -1 : 1, w+1); k.me.one[d][w] = MPI_Wtime() - t; }
    }
    MPI_Allreduce(&k.me, &k.lo, 10, MPI_DOUBLE, MPI_MIN, comm); MPI_Allreduce(&k.me, &k.hi, 10, MPI_DOUBLE, MPI_MAX, comm);
    cx->fft_destroy(h);
  }
  int s0c = cx->fft_get_int(s.h, "collective"), s0e = cx->fft_get_int(s.h, "exchange"), s0p = cx->fft_get_int(s.h, "pack"), s0m = cx->fft_get_int(s.h, "memory");
  // in this scenario the time limit is given in hundredths of the time of the test run
  double trun = 0; bool exact = false;
  if (c.wt == 8) { Part &p = cost[s0c][s0e].lo, &q = cost[s0c][s0e].hi; trun = flag == 0 ? p.all[0] + p.all[1] : p.all[flag < 0]; double u = flag == 0 ? q.all[0] + q.all[1] : q.all[flag < 0]; exact = trun > 0 && fabs(u - trun) < 1e-9; tmax = x[4]*0.01*trun; }
  a->fft_tune(s.h, o.n, &o.in[me*2*o.dim], &o.out[me*2*o.dim], o.perm, &s.fs, &s.ss, &s.rs, flag, niter, tmax, tflag);
  s.isset = true; s.tuned = true;
  if (s.ss < 0 || s.rs < 0 || s.fs < 0) fail("size", "tune returned sizes %d %d %d", s.fs, s.ss, s.rs);
  int nt = cx->fft_get_int(s.h, "ntrial"), npt = cx->fft_get_int(s.h, "npertrial");
  if (nt < 0 || nt > 10) fail("tune", "ntrial is %d", nt);
  for (const char *k : { "ntrial", "npertrial", "collective", "exchange", "pack" })
    if (!common(comm, cx->fft_get_int(s.h, k))) fail("tune", "ranks disagree on %s after tune (this rank: %d)", k, cx->fft_get_int(s.h, k));
  int fc = cx->fft_get_int(s.h, "collective"), fe = cx->fft_get_int(s.h, "exchange"), fp = cx->fft_get_int(s.h, "pack");
  if (fc < 0 || fc > 2 || fe < 0 || fe > 1 || fp < 0 || fp > 2) fail("tune", "settings after tune are %d %d %d", fc, fe, fp);
  if (nt > 0 && niter > 0 && npt > niter) fail("tune", "npertrial %d exceeds the requested %d", npt, niter);
  if (nt > 0 && npt < 1) fail("tune", "npertrial is %d", npt);
  int l1, l2, l3, l4; int *cf = a->fft_get_int_vector(s.h, "cflags", &l1), *ef = a->fft_get_int_vector(s.h, "eflags", &l2), *pf = a->fft_get_int_vector(s.h, "pflags", &l3);
  double *tf = a->fft_get_double_vector(s.h, "tfft", &l4);
  if (!cf || !ef || !pf || !tf) fail("tune", "a tuning vector is NULL");
  if (l1 != nt || l2 != nt || l3 != nt || l4 != nt) fail("tune", "tuning vectors have lengths %d %d %d %d, ntrial is %d", l1, l2, l3, l4, nt);
  double tick = c.wt == 0 ? 0.001 : c.wt == 6 ? 0.5 : 0;    // constant clock step, if any
  // documented trial lists
  static const int six[6][2] = { {0,0},{0,1},{1,0},{1,1},{2,0},{2,1} };
  std::vector<std::vector<int>> T; for (int k = 0; k < nt; k++) T.push_back({ cf[k], ef[k], pf[k] });
  for (int k = 0; k < nt; k++) {
    for (int q = 0; q < 3; q++) if (!common(comm, T[k][q])) fail("tune", "ranks disagree on the settings of trial %d", k);
    if (!(tf[k] >= 0)) fail("tune", "time of trial %d is %g", k, tf[k]);
    if (tick > 0) {
      double m = tf[k]*npt*(flag == 0 ? 2 : 1)/tick;
      if (m < 0.5 || m > 3.1 || fabs(m - floor(m+0.5)) > 1e-6) fail("tune", "time of trial %d is %g, not the time of one FFT (%d per trial, clock step %g)", k, tf[k], npt, tick);
    }
  }
  for (const char *k : { "t1d", "tremap", "tremap1", "tremap2", "tremap3", "tremap4" }) {
    if (o.dim == 2 && !strcmp(k, "tremap4")) continue;
    int l = -1; double *t = a->fft_get_double_vector(s.h, k, &l);
    if (!t || l != nt) fail("tune", "vector %s is missing or has length %d, ntrial is %d", k, l, nt);
    if (tflag) for (int i = 0; i < nt; i++) {
      if (!(t[i] >= 0)) fail("tune", "%s of trial %d is %g", k, i, t[i]);
      if (tick > 0) {
        double m = t[i]*npt*(flag == 0 ? 2 : 1)/tick;
        if (tmax == 0.0 && !(m > 0.5)) fail("tune", "%s of trial %d is %g although it was to be timed", k, i, t[i]);
        if (m > 1e-9 && (m > 3.1 || fabs(m - floor(m+0.5)) > 1e-6)) fail("tune", "%s of trial %d is %g, not the time of one FFT (%d per trial, clock step %g)", k, i, t[i], npt, tick);
      }
    }
    double *u = cx->fft_get_double_vector(s.h, k, &l);
    if (u != t) fail("tune", "vector %s is not that of the object", k);
  }
  if (cx->fft_get_int_vector(s.h, "cflags", &l1) != cf || cx->fft_get_int_vector(s.h, "eflags", &l1) != ef || cx->fft_get_int_vector(s.h, "pflags", &l1) != pf ||
      cx->fft_get_double_vector(s.h, "tfft", &l1) != tf) fail("tune", "a tuning vector is not that of the object");
  int expect = x.size() > 6 ? x[6] : 0;
  if (tmax == 0.0 || expect == 9) { if (nt != 9 || npt != niter) fail("tune", "%d trials of %d FFTs although there is time for 9 of %d", nt, npt, niter); }
  if (expect == 1 && nt != 1) fail("tune", "%d trials although there is no time for any", nt);
  if (nt < 9 && npt != 1) fail("tune", "%d trials only, of %d FFTs each", nt, npt);
  auto is = [&](int k, int c0, int e0, int p0) { return T[k][0] == c0 && T[k][1] == e0 && T[k][2] == p0; };
  if (nt == 9 || nt == 6) {
    std::vector<int> seen;
    for (int k = 0; k < 6; k++) {
      bool ok = false; for (int q = 0; q < 6; q++) if (T[k][0] == six[q][0] && T[k][1] == six[q][1]) { ok = true; seen.push_back(q); }
      if (!ok || T[k][2] != 2) fail("tune", "trial %d has settings %d %d %d", k, T[k][0], T[k][1], T[k][2]);
    }
    std::sort(seen.begin(), seen.end()); if (std::unique(seen.begin(), seen.end()) != seen.end()) fail("tune", "the first six trials repeat a combination");
  } else if (nt == 3) {
    std::vector<int> cs; for (int k = 0; k < 3; k++) { if (T[k][1] != 0 || T[k][2] != 2) fail("tune", "trial %d of 3 has settings %d %d %d", k, T[k][0], T[k][1], T[k][2]); cs.push_back(T[k][0]); }
    std::sort(cs.begin(), cs.end()); if (cs != std::vector<int>{0,1,2}) fail("tune", "the three trials do not cover collective 0,1,2");
  } else if (nt == 2) {
    bool two = (is(0,1,0,2) && is(1,2,0,2)) || (is(0,2,0,2) && is(1,1,0,2));
    bool def = is(0, s0c, s0e, s0p) && is(1,2,0,2);
    if (!two && !def) fail("tune", "two trials with settings %d %d %d and %d %d %d", T[0][0], T[0][1], T[0][2], T[1][0], T[1][1], T[1][2]);
    if (!two && !(fc == 2 && fe == 0 && fp == 2)) fail("tune", "the default settings were tried last but %d %d %d are in force", fc, fe, fp);
  } else if (nt == 1) {
    if (!is(0, s0c, s0e, s0p)) fail("tune", "the only trial has settings %d %d %d, the settings before tuning were %d %d %d", T[0][0], T[0][1], T[0][2], s0c, s0e, s0p);
    if (fc != s0c || fe != s0e || fp != s0p) fail("tune", "settings changed to %d %d %d although no trial decides", fc, fe, fp);
  } else fail("tune", "%d trials are not a documented sequence", nt);
  // the length of the sequence is what the time limit demands, half as much again either way
  if (tick > 0 && tmax > 0) {
    double one = 2*tick; int l; double *t1 = cx->fft_get_double_vector(s.h, "t1d", &l); bool parts = tflag && nt == 9 && t1[0] > 0; double per = parts ? 3 : 1;
    bool ext = nt == 2 && !(is(0,1,0,2) && is(1,2,0,2)) && !(is(0,2,0,2) && is(1,1,0,2)); bool def = s0c == 2 && s0e == 0 && s0p == 2;
    double used = nt == 9 ? 9*tick*(1 + per*npt) : nt == 6 ? 6*one : nt == 3 ? 3*one : nt == 2 && !ext ? 2*one : nt == 2 ? one : 0;
    double more = nt == 9 && npt < niter ? 10*tick*(1 + per*(npt+1)) : nt == 9 && tflag && !parts ? 10*tick*4 : nt == 9 ? 1e30 : nt == 6 ? 10*one : nt == 3 ? 7*one : nt == 2 && !ext ? 4*one : nt == 2 || def ? 3*one : 2*one;
    if (used > 1.5*tmax) fail("tune", "%d trials of %d FFTs take %g s, the limit is %g", nt, npt, used, tmax);
    if (1.5*more < tmax) fail("tune", "only %d trials of %d FFTs although %g s would have been within the limit of %g", nt, npt, more, tmax);
  }
  if (c.wt == 8) {
    int l; double *t1 = cx->fft_get_double_vector(s.h, "t1d", &l), *tr = cx->fft_get_double_vector(s.h, "tremap", &l), *tw[4] = {};
    static const char *nw[] = { "tremap1", "tremap2", "tremap3", "tremap4" };
    for (int w = 0; w < o.dim+1; w++) tw[w] = cx->fft_get_double_vector(s.h, nw[w], &l);
    auto want = [&](const double *d2, int stride) { return flag == 0 ? 0.5*(d2[0] + d2[stride]) : d2[flag < 0 ? stride : 0]; };
    auto within = [&](double v, double lo, double hi) { return v >= lo - 1e-8 && v <= hi + 1e-8; };
    bool parts = tflag;
    if (exact) {        // the sequence that the time limit demands
      double r = tmax > 0 ? x[4]*0.01 : 1e30, f = tflag ? 3 : 1; int ent, enp = 1;
      bool def = s0c == 2 && s0e == 0 && s0p == 2;
      if (10*niter*f <= r) { ent = 9; enp = niter; }
      else if (r/10/f >= 1) { ent = 9; enp = (int)(r/10/f); }
      else if (r >= 10) { ent = 9; enp = std::min(niter, (int)(r/10)); parts = false; }
      else { parts = false; int n = (int)r - 1; ent = n >= 6 ? 6 : n >= 3 ? 3 : n == 2 ? 2 : n == 1 && !def ? 2 : 1; }
      if (nt != ent || npt != enp) fail("tune", "%d trials of %d FFTs, the time limit of %g test runs demands %d of %d", nt, npt, x[4]*0.01, ent, enp);
    } else if (nt != 9 || !(tr[0] > 0)) parts = false;
    for (int k = 0; k < nt; k++) {
      Cost &z = cost[T[k][0]][T[k][1]];
      if (!within(tf[k], want(z.lo.all, 1), want(z.hi.all, 1))) fail("tune", "trial %d claims settings %d %d and took %g per FFT, an FFT with these settings takes %g to %g", k, T[k][0], T[k][1], tf[k], want(z.lo.all, 1), want(z.hi.all, 1));
      if (fabs(t1[k]) > 1e-8) fail("tune", "t1d of trial %d is %g although 1d FFTs communicate nothing", k, t1[k]);
      if (parts && !within(tr[k], want(z.lo.all, 1), want(z.hi.all, 1))) fail("tune", "tremap of trial %d is %g, the remaps take %g to %g", k, tr[k], want(z.lo.all, 1), want(z.hi.all, 1));
      for (int w = 0; w < o.dim+1; w++) if (parts && !within(tw[w][k], want(&z.lo.one[0][w], 4), want(&z.hi.one[0][w], 4))) fail("tune", "tremap%d of trial %d is %g, this remap takes %g to %g", w+1, k, tw[w][k], want(&z.lo.one[0][w], 4), want(&z.hi.one[0][w], 4));
      if (!parts && exact && (tr[k] != 0 || tw[0][k] != 0)) fail("tune", "remap times of trial %d are %g and %g although they were not timed", k, tr[k], tw[0][k]);
    }
  }
  // the settings in force are those of a fastest trial (of the pack trials when there are any)
  if (nt != 2 || is(0,1,0,2) || is(1,1,0,2)) {
    int from = nt == 9 ? 6 : 0, hit = 0; double mn = tf[from]; for (int k = from+1; k < nt; k++) mn = std::min(mn, tf[k]);
    for (int k = from; k < nt; k++) if (tf[k] == mn && is(k, fc, fe, fp)) hit = 1;
    if (nt == 2 && s0c == 1 && s0e == 0 && s0p == 2 && fc == 2 && fe == 0 && fp == 2) hit = 1;
    int any; MPI_Allreduce(&hit, &any, 1, MPI_INT, MPI_MAX, comm);
    if (!any) fail("tune", "the settings in force (%d %d %d) are not those of a fastest trial on any rank", fc, fe, fp);
  }
  if (nt == 9) {      // pack trials keep collective/exchange of the best of the first six
    int hit = 0; double mn = tf[0]; for (int k = 1; k < 6; k++) mn = std::min(mn, tf[k]);
    for (int k = 0; k < 6; k++) if (tf[k] == mn && T[k][0] == T[6][0] && T[k][1] == T[6][1]) hit = 1;
    int any; MPI_Allreduce(&hit, &any, 1, MPI_INT, MPI_MAX, comm);
    if (!any) fail("tune", "the pack trials use collective %d exchange %d, not the fastest of the first six", T[6][0], T[6][1]);
    std::vector<int> pk; for (int k = 6; k < 9; k++) { if (T[k][0] != T[6][0] || T[k][1] != T[6][1]) fail("tune", "the pack trials differ in more than pack"); pk.push_back(T[k][2]); }
    std::sort(pk.begin(), pk.end()); if (pk[0] != 0 || pk[1] != 1 || pk[2] != 2) fail("tune", "the pack trials do not cover pack 0,1,2");
  }
  if (!(cx->fft_get_double(s.h, "setuptime") >= 0)) fail("tune", "setuptime is %g", cx->fft_get_double(s.h, "setuptime"));
  if (cx->fft_get_int(s.h, "memory") != s0m) fail("tune", "the memory setting changed from %d to %d", s0m, cx->fft_get_int(s.h, "memory"));
  s.mem = s0m;
  // sizes are those of an object that is set up with these settings
  void *h = cx->fft_create(comm, prec(o)); int f2 = -1, s2 = -1, r2 = -1;
  cx->fft_set(h, "collective", fc); cx->fft_set(h, "exchange", fe); cx->fft_set(h, "pack", fp);
  cx->fft_setup(h, o.n, &o.in[me*2*o.dim], &o.out[me*2*o.dim], o.perm, &f2, &s2, &r2);
  if (f2 != s.fs || s2 != s.ss || r2 != s.rs) fail("tune", "tune returned sizes %d %d %d, a setup with the chosen settings returns %d %d %d", s.fs, s.ss, s.rs, f2, s2, r2);
  cx->fft_destroy(h);
}

double fixed_clock(int wt, int rank, long n) {
  switch (wt) {
    case 4: return rank == 0 ? 0.001*(1 + (n*7) % 5) : 0.001*(1 + (n*3 + rank) % 5);
    case 5: return 0.0;
    case 6: return 0.5;
    case 7: return 0.001*(1 + (50 - n % 50)*(rank + 1));
    default: return 0.001;
  }
}
void run_rank(const Case &c, Env &env, int wrank) {
  Interp it(c, env, wrank);
  it.run();
}
