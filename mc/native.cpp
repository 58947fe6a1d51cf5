// Replays cases of the suites on the real MPI and compares, rank by rank, the MPI calls (names, peers, sizes, tags,
// payload) with those of the virtual run; the programs' own assertions on values are active too.
#include "prog.h"
#include "tr.h"
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fstream>
#include <map>
#include <sstream>

static Tr tr; static bool on = false;
static size_t sz(MPI_Datatype t) { int n; PMPI_Type_size(t, &n); return n; }
static double clk; static long nclk; static int wtcase, wrank;
#define N(s) if (on) tr.name(s)
extern "C" {
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c) { if (on) { tr.name("MPI_Send"); tr.u(d); tr.u(n*sz(t)); tr.u(g); tr.bytes(b, n*sz(t)); } return PMPI_Send(b,n,t,d,g,c); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) { if (on) { tr.name("MPI_Isend"); tr.u(d); tr.u(n*sz(t)); tr.u(g); tr.bytes(b, n*sz(t)); } return PMPI_Isend(b,n,t,d,g,c,r); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Request *r) { if (on) { tr.name("MPI_Irecv"); tr.u(s); tr.u(n*sz(t)); tr.u(g); } return PMPI_Irecv(b,n,t,s,g,c,r); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Status *st) { if (on) { tr.name("MPI_Recv"); tr.u(s); tr.u(n*sz(t)); tr.u(g); } return PMPI_Recv(b,n,t,s,g,c,st); }
int MPI_Waitany(int n, MPI_Request *r, int *i, MPI_Status *s) { N("MPI_Waitany"); return PMPI_Waitany(n,r,i,s); }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { N("MPI_Waitall"); return PMPI_Waitall(n,r,s); }
int MPI_Wait(MPI_Request *r, MPI_Status *s) { N("MPI_Wait"); return PMPI_Wait(r,s); }
double MPI_Wtime(void) { if (!on) return PMPI_Wtime(); clk += fixed_clock(wtcase, wrank, nclk++); return 1000.0 + clk; }
int MPI_Barrier(MPI_Comm c) { N("MPI_Barrier"); return PMPI_Barrier(c); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { if (on) { tr.name("MPI_Bcast"); tr.u(root); tr.u(n*sz(t)); } return PMPI_Bcast(b,n,t,root,c); }
int MPI_Allreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { if (on) { tr.name("MPI_Allreduce"); tr.u(n*sz(t)); } return PMPI_Allreduce(s,d,n,t,o,c); }
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *d, int dn, MPI_Datatype dt, MPI_Comm c) { if (on) { tr.name("MPI_Allgather"); if (s != MPI_IN_PLACE) { tr.u(sn*sz(st)); tr.bytes(s, sn*sz(st)); } } return PMPI_Allgather(s,sn,st,d,dn,dt,c); }
int MPI_Alltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) {
  if (on) { tr.name("MPI_Alltoallv"); int n; PMPI_Comm_size(c, &n); size_t z = sz(st); for (int i = 0; i < n; i++) { tr.u(sc[i]*z); tr.u(sc[i] ? sd[i] : 0); tr.u(rc[i]*z); tr.u(rc[i] ? rd[i] : 0); tr.bytes((const char *)sb + sd[i]*z, sc[i]*z); } }
  return PMPI_Alltoallv(sb,sc,sd,st,rb,rc,rd,rt,c);
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o) { N("MPI_Comm_create"); return PMPI_Comm_create(c,g,o); }
int MPI_Comm_split(MPI_Comm c, int a, int k, MPI_Comm *o) { N("MPI_Comm_split"); return PMPI_Comm_split(c,a,k,o); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { N("MPI_Comm_dup"); return PMPI_Comm_dup(c,o); }
int MPI_Comm_free(MPI_Comm *c) { N("MPI_Comm_free"); return PMPI_Comm_free(c); }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { N("MPI_Comm_group"); return PMPI_Comm_group(c,g); }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) { N("MPI_Group_incl"); return PMPI_Group_incl(g,n,r,o); }
int MPI_Group_free(MPI_Group *g) { N("MPI_Group_free"); return PMPI_Group_free(g); }
}
static std::string dir; static long curcase;
struct NEnv : Env {
  std::vector<void *> mem;
  const Api *api(int dim, int lib, int, int fl) override {
    static std::map<int, const Api *(*)(int)> m; auto &g = m[dim*8 + lib];
    if (!g) { std::string p = dir + "/nat" + std::to_string(dim) + "d_" + (lib == 0 ? "kiss_d" : "fftw_s") + ".so"; void *h = dlopen(p.c_str(), RTLD_NOW|RTLD_LOCAL);
      if (!h) { fprintf(stderr, "%s\n", dlerror()); PMPI_Abort(MPI_COMM_WORLD, 3); } g = (const Api *(*)(int))dlsym(h, "vp_api"); }
    return g(fl);
  }
  [[noreturn]] void fail(const char *cls, const std::string &m) override { printf("FAIL %ld %s: %s\n", curcase, cls, m.c_str()); fflush(stdout); PMPI_Abort(MPI_COMM_WORLD, 4); exit(4); }
  void *alloc(size_t n, size_t skew) override { void *p; if (posix_memalign(&p, 64, n + skew + 1)) exit(5); memset(p, 0xA5, n + skew); mem.push_back(p); return (char *)p + skew; }
  void finish() override {}
};
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); int me, np; PMPI_Comm_rank(MPI_COMM_WORLD, &me); PMPI_Comm_size(MPI_COMM_WORLD, &np);
  dir = argv[1]; std::ifstream f(argv[2]); std::string line; long k = 0, same = 0, diff = 0, calls = 0;
  while (std::getline(f, line)) {
    curcase = k++; std::stringstream ss(line); int job, pay; ss >> job >> pay; if (job != np) continue;
    std::vector<uint64_t> h(job); std::vector<long> n(job); for (int i = 0; i < job; i++) ss >> h[i] >> n[i];
    size_t len; ss >> len; std::vector<int> v(len); for (auto &x : v) ss >> x;
    Case c; if (!Case::parse(v, c)) { PMPI_Abort(MPI_COMM_WORLD, 3); }
    NEnv e; tr = Tr(); tr.payload = pay; clk = 0; nclk = 0; wtcase = c.wt; wrank = me; on = true; run_rank(c, e, me); on = false;
    for (void *p : e.mem) free(p);
    int bad = tr.h != h[me] || tr.n != n[me], any; long nc = tr.n, sum;
    PMPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); PMPI_Reduce(&nc, &sum, 1, MPI_LONG, MPI_SUM, 0, MPI_COMM_WORLD);
    if (any) { diff++; if (!me) printf("DIFF %ld %s\n", curcase, c.text().c_str()); } else { same++; calls += me ? 0 : sum; }
    if (bad) printf("  rank %d: %ld calls, virtual run %ld\n", me, tr.n, n[me]);
    if (!me) { printf("SAME %ld %ld %ld\n", same, diff, calls); fflush(stdout); }
  }
  if (!me) { printf("DONE %ld %ld %ld\n", same, diff, calls); fflush(stdout); }
  MPI_Finalize(); return 0;
}
