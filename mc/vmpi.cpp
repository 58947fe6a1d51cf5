#include "vmpi.h"
#include <stdio_ext.h>
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <algorithm>
#include <deque>
#include <memory>
#include <new>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

// ---------------------------------------------------------------------------------------------
// handles
struct vmpi_comm_s vmpi_world_handle, vmpi_self_handle;
struct vmpi_group_s vmpi_group_empty_handle;
struct vmpi_errh_s vmpi_errh_fatal, vmpi_errh_return;
enum { K_CHAR, K_UCHAR, K_SHORT, K_USHORT, K_INT, K_UINT, K_LONG, K_ULONG, K_FLOAT, K_DOUBLE, K_LDOUBLE,
       K_FCPX, K_DCPX, K_DINT, K_FINT, K_2INT, K_BYTE, K_DERIVED };
#define DT(n,ct,k) struct vmpi_type_s vmpi_t_##n = { (int)sizeof(ct), k };
struct dint_s { double d; int i; }; struct fint_s { float f; int i; }; struct i2_s { int a,b; };
DT(char,char,K_CHAR) DT(schar,char,K_CHAR) DT(uchar,char,K_UCHAR) DT(byte,char,K_BYTE) DT(short,short,K_SHORT)
DT(ushort,short,K_USHORT) DT(int,int,K_INT) DT(uint,int,K_UINT) DT(long,long,K_LONG) DT(ulong,long,K_ULONG)
DT(llong,long long,K_LONG) DT(ullong,long long,K_ULONG) DT(float,float,K_FLOAT) DT(double,double,K_DOUBLE)
DT(ldouble,long double,K_LDOUBLE) DT(bool,bool,K_UCHAR) DT(i8,char,K_CHAR) DT(i16,short,K_SHORT) DT(i32,int,K_INT)
DT(i64,long,K_LONG) DT(u8,char,K_UCHAR) DT(u16,short,K_USHORT) DT(u32,int,K_UINT) DT(u64,long,K_ULONG) DT(packed,char,K_BYTE)
struct vmpi_type_s vmpi_t_fcomplex = { 8, K_FCPX }, vmpi_t_dcomplex = { 16, K_DCPX };
DT(dint,dint_s,K_DINT) DT(fint,fint_s,K_FINT) DT(2int,i2_s,K_2INT)
enum { O_MAX, O_MIN, O_SUM, O_PROD, O_LAND, O_LOR, O_LXOR, O_BAND, O_BOR, O_BXOR, O_MAXLOC, O_MINLOC };
struct vmpi_op_s vmpi_op_max={O_MAX}, vmpi_op_min={O_MIN}, vmpi_op_sum={O_SUM}, vmpi_op_prod={O_PROD}, vmpi_op_land={O_LAND},
  vmpi_op_lor={O_LOR}, vmpi_op_lxor={O_LXOR}, vmpi_op_band={O_BAND}, vmpi_op_bor={O_BOR}, vmpi_op_bxor={O_BXOR},
  vmpi_op_maxloc={O_MAXLOC}, vmpi_op_minloc={O_MINLOC};

extern "C" void vmpi_switch(void **save, void *to);
asm(R"(
.text
.globl vmpi_switch
.type vmpi_switch,@function
vmpi_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vmpi_switch,.-vmpi_switch
.globl vmpi_entry
.type vmpi_entry,@function
vmpi_entry:
  .cfi_startproc
  .cfi_undefined rip
  .cfi_undefined rbp
  nop
  call vmpi_fiber_main
  ud2
  .cfi_endproc
.size vmpi_entry,.-vmpi_entry
)");
extern "C" void vmpi_entry(void);
extern "C" void vmpi_fiber_main(void);

namespace vmpi {

int cur = -1;
double (*wtime_hook)(int, long) = 0;
bool wtime_data = false;
bool check_leaks = true;
static const size_t STK = 1024*1024;
static const uint32_t MAGIC_C = 0x434f4d4d, MAGIC_G = 0x47525550, MAGIC_R = 0x52455155, MAGIC_T = 0x54595045;

struct CommShared;
struct CommObj : vmpi_comm_s { uint32_t magic; int rank; CommShared *sh; int myrank; bool freed; };
struct GroupObj : vmpi_group_s { uint32_t magic; int rank; std::vector<int> m; bool freed; };
struct TypeObj : vmpi_type_s { uint32_t magic; int rank; bool freed; };

struct Req;
struct Msg {
  int src, tag; size_t bytes; std::vector<char> data; const void *sbuf; Req *sreq; bool sync; bool taken; long ready_seq; bool has_data; int dkind;
};
typedef std::shared_ptr<Msg> MsgP;

struct CollSlot;
struct Req {
  uint32_t magic; int rank; bool freed, active, done, persistent, isrecv, detached, poisoned, cancelled;
  int kind;                 // 0 p2p, 1 collective
  void *buf; size_t cap; int peer, tag; CommShared *sh; MPI_Status st; MsgP msg; int dkind; bool rdv, ready_mode, sync_mode;
  CollSlot *slot; int cme;
  int sdest; bool delivered;
};

struct CollEntry {
  bool in = false, left = false;
  int kind = 0, root = -1, op = -1, dk = 0; size_t es = 0; size_t count = 0;     // dk/es of reductions
  std::vector<char> data; std::vector<size_t> soff, slen;                         // per destination (or one part)
  void *rbuf = 0; std::vector<size_t> roff, rlen; size_t rbytes = 0;
  std::vector<int> grp; long a = 0, b = 0; bool undef = false;
  Req *req = 0; int mode = 0;
};
struct CollSlot { long seq; int nin = 0, nleft = 0; std::vector<CollEntry> e; std::vector<CommShared *> made; bool checked = false; CommShared *sh; };

struct CommShared {
  int id; std::vector<int> m;
  std::vector<std::deque<MsgP>> unexp;      // per local dst
  std::vector<std::deque<Req *>> posted;    // per local dst
  std::deque<std::unique_ptr<CollSlot>> slots; long slot0 = 0; std::vector<long> nseq;
  int nfreed = 0;
  bool creategroup = false;
};

struct Rank {
  void *sp; char *stk; void *fake;
  int st;                       // 0 unused, 1 ready, 2 blocked, 3 done
  bool (*pred)(void *); void *parg;
  bool lazy;                    // resolved only when no other rank can run
  uint64_t hash; long ncalls, nwtime; double clock; uint64_t data; const char *last; int finalized; bool in_final;
  RankOut out; int notready;
  std::deque<CommObj> comms; std::deque<GroupObj> groups; std::deque<Req> reqs; std::deque<TypeObj> types;
  std::unordered_map<void *, std::pair<size_t,int>> heap; size_t live, peak; uint64_t nalloc; std::set<void *> plans;
  CommObj self;
};
static Rank R[MAXR];
static CommObj worldobj[MAXR];
static std::vector<std::unique_ptr<CommShared>> comms;
static std::vector<CommObj *> fortran;
static int NP;
static void *main_sp; static void *main_fake; static const void *main_bottom; static size_t main_size;
static Policy pol; static const Explore *ex; static size_t expos; static Fault fault; static Result *res;
static RankMain rmain; static void *rarg;
static bool ended; static long polls, progress; static uint64_t ghash; static uint64_t max_steps = 400000;
static std::unordered_set<uint64_t> states;
static std::vector<void *> arenas;
static std::vector<std::pair<std::vector<long>, CommShared *>> shadows;   // of MPI_Comm_create_group
static int outfd = -1;
struct Seg { char *p; size_t n; int rank; char *save; };
static std::vector<Seg> segs;
static bool dirty_stacks = true;

uint64_t state_count() { return states.size(); }
void state_reset() { states.clear(); }
size_t tracked_bytes(int r) { return R[r].live; }
size_t tracked_blocks(int r) { return R[r].heap.size(); }
size_t tracked_peak(int r) { return R[r].peak; }
void reset_peak(int r) { R[r].peak = R[r].live; }
int fftw_plans(int r) { return (int)R[r].plans.size(); }
bool job_over() { return ended; }
const char *rank_calls(int r) { return R[r].last ? R[r].last : "-"; }
long mpi_calls(int r) { return R[r].ncalls; }

static inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
  x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x;
}
static void hist(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
  Rank &r = R[cur];
  ghash -= mix(cur+1, r.hash);
  r.hash = mix(mix(mix(r.hash, a), b), c);
  ghash += mix(cur+1, r.hash);
  states.insert(ghash);
}

// raw copies that ASan does not see
__attribute__((no_sanitize("address"), noinline)) static void raw_copy(void *d, const void *s, size_t n) {
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
}
__attribute__((no_sanitize("address"), noinline)) static void raw_fill(void *d, int c, size_t n) {
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
}

void register_segment(void *lo, size_t len, int rank) {
  Seg s; s.p = (char *)lo; s.n = len; s.rank = rank;
  s.save = (char *)mmap(0, len, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  raw_copy(s.save, s.p, len);
  segs.push_back(s);
}

static void to_main(bool dead) {
  Rank &r = R[cur];
  cur = -1;
  __sanitizer_start_switch_fiber(dead ? nullptr : &r.fake, main_bottom, main_size);
  vmpi_switch(&r.sp, main_sp);
  __sanitizer_finish_switch_fiber(r.fake, nullptr, nullptr);
}

void note_violation(const char *cls, const char *fmt, ...) {
  if (res->violation) return;
  char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  res->violation = true; res->vclass = cls; res->msg = b;
}
[[noreturn]] static void die_now() {
  ended = true; dirty_stacks = true;
  to_main(false);
  __builtin_trap();
}
void violation(const char *cls, const char *fmt, ...) {
  if (!res->violation) {
    char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    res->violation = true; res->vclass = cls;
    res->msg = "rank " + std::to_string(cur) + ": " + b;
  }
  die_now();
}

int choose(int kind, int n, int def) {
  if (n <= 1) return 0;
  if (def < 0 || def >= n) def = 0;
  if (!((ex->mask >> kind) & 1) || (ex->focus >= 0 && cur != ex->focus)) return def;
  int c = def;
  if (expos < ex->prefix.size()) { c = ex->prefix[expos]; if (c >= n) c = n-1; }
  expos++;
  Choice x; x.kind = kind; x.rank = cur < 0 ? 255 : cur; x.n = n; x.def = def; x.c = c;
  res->trace.push_back(x);
  if (cur >= 0) hist(0xC0+kind, c, n);
  return c;
}

void *arena(size_t n, size_t skew) {
  if (n == 0) skew = 0;
  void *p = malloc(n ? n + skew : 1);
  if (!p) { fprintf(stderr, "vmpi: out of memory\n"); _exit(99); }
  arenas.push_back(p);
  if (skew >= 8) __asan_poison_memory_region(p, 8);
  return (char *)p + skew;
}

// block the running rank until pred is true
static void block(bool (*pred)(void *), void *arg, bool lazy = false) {
  Rank &r = R[cur];
  if (!lazy && pred(arg) && !pol.yield) return;
  int me = cur;
  r.st = 2; r.pred = pred; r.parg = arg; r.lazy = lazy;
  to_main(false);
  cur = me; r.st = 1; r.lazy = false;
}

bool tracing = false, trace_payload = true; static Tr trs[MAXR];
Tr &call_trace(int r) { return trs[r]; }
static bool untraced(const char *n) { return !strcmp(n, "MPI_Wtime") || !strcmp(n, "MPI_Finalize") || !strcmp(n, "MPI_Comm_rank") || !strcmp(n, "MPI_Comm_size"); }
#define TR(x) do { if (tracing) { Tr &tr = trs[cur]; x; } } while (0)
static void enter(const char *name) {
  if (cur < 0) { fprintf(stderr, "vmpi: MPI call outside a rank\n"); abort(); }
  Rank &r = R[cur];
  if (r.finalized) violation("mpi-usage", "%s called after MPI_Finalize", name);
  r.last = name; r.ncalls++; res->steps++;
  if (tracing && !untraced(name)) trs[cur].name(name);
  if (res->steps > max_steps) violation("deadlock", "no termination after %llu MPI calls (last %s)", (unsigned long long)max_steps, name);
}

static CommObj *C(MPI_Comm c, const char *fn) {
  if (c == MPI_COMM_WORLD) return &worldobj[cur];
  if (c == MPI_COMM_SELF) return &R[cur].self;
  if (c) for (auto &o : R[cur].comms) if ((MPI_Comm)&o == c) {
    if (o.freed) violation("mpi-usage", "%s: communicator used after MPI_Comm_free", fn);
    return &o;
  }
  violation("mpi-usage", "%s: invalid communicator handle", fn);
}
static GroupObj *G(MPI_Group g, const char *fn) {
  if (g) for (auto &o : R[cur].groups) if ((MPI_Group)&o == g) {
    if (o.freed) violation("mpi-usage", "%s: group used after MPI_Group_free", fn);
    return &o;
  }
  if (g == MPI_GROUP_EMPTY) { static GroupObj e; e.magic = MAGIC_G; e.m.clear(); return &e; }
  violation("mpi-usage", "%s: invalid group handle", fn);
}
static Req *Q(MPI_Request q, const char *fn) {
  for (auto &o : R[cur].reqs) if ((MPI_Request)&o == q) {
    if (o.freed) violation("mpi-usage", "%s: request used after completion or free", fn);
    return &o;
  }
  violation("mpi-usage", "%s: invalid request handle", fn);
}
static size_t T(MPI_Datatype t, const char *fn, int *kind = 0) {
  static MPI_Datatype known[] = { MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_PACKED, MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT,
    MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_C_BOOL,
    MPI_C_COMPLEX, MPI_C_DOUBLE_COMPLEX, MPI_DOUBLE_INT, MPI_FLOAT_INT, MPI_2INT, MPI_INT8_T, MPI_INT16_T, MPI_INT32_T, MPI_INT64_T,
    MPI_UINT8_T, MPI_UINT16_T, MPI_UINT32_T, MPI_UINT64_T };
  for (MPI_Datatype k : known) if (k == t) { if (kind) *kind = t->kind; return t->size; }
  for (auto &o : R[cur].types) if ((MPI_Datatype)&o == t) {
    if (o.freed) violation("mpi-usage", "%s: datatype used after MPI_Type_free", fn);
    if (kind) *kind = o.kind;
    return o.size;
  }
  violation("mpi-usage", "%s: invalid datatype", fn);
}
static size_t nbytes(int count, MPI_Datatype t, const char *fn, int *kind = 0) {
  size_t s = T(t, fn, kind);
  if (count < 0) violation("mpi-usage", "%s: negative count %d", fn, count);
  return s*(size_t)count;
}
static void addressable(const void *p, size_t n, const char *fn, const char *what) {
  if (!n) return;
  if (!p) violation("memory", "%s: null %s buffer for %zu bytes", fn, what, n);
  void *bad = __asan_region_is_poisoned((void *)p, n);
  if (bad) violation("memory", "%s: %s buffer of %zu bytes is not addressable from byte %zu on", fn, what, n, (size_t)((char *)bad-(char *)p));
}

// ------------------------------------------------------------------------------------------- p2p
static Req *newreq() {
  while (R[cur].reqs.size() > 256 && R[cur].reqs.front().freed) R[cur].reqs.pop_front();
  R[cur].reqs.emplace_back();
  Req *q = &R[cur].reqs.back();
  q->magic = MAGIC_R; q->rank = cur; q->freed = false; q->active = true; q->done = false; q->persistent = false; q->isrecv = false;
  q->detached = false; q->poisoned = false; q->cancelled = false; q->kind = 0; q->buf = 0; q->cap = 0; q->sh = 0; q->slot = 0; q->cme = 0; q->delivered = false;
  q->ready_mode = q->sync_mode = q->rdv = false;
  memset(&q->st, 0, sizeof q->st);
  q->st.MPI_SOURCE = MPI_ANY_SOURCE; q->st.MPI_TAG = MPI_ANY_TAG;
  return q;
}
static void poison(Req *q) { if (q->cap) { __asan_poison_memory_region(q->buf, q->cap); q->poisoned = true; } }
static void unpoison(Req *q) { if (q->poisoned) { __asan_unpoison_memory_region(q->buf, q->cap); q->poisoned = false; } }

static void fetch(MsgP &m) {       // take the payload out of the sender's buffer
  if (!m->has_data) { m->data.resize(m->bytes); if (m->bytes) raw_copy(m->data.data(), m->sbuf, m->bytes); m->has_data = true; }
}
static void deliver(Req *q) {      // write the payload into the receive buffer
  if (q->delivered) return;
  q->delivered = true;
  if (q->msg && q->msg->bytes) raw_copy(q->buf, q->msg->data.data(), q->msg->bytes);
}
static const char *trunc_msg = 0; static int trunc_rank;
static void match(Req *q, MsgP m, CommShared *sh) {
  progress++;
  fetch(m);
  if (m->bytes > q->cap) {
    static char b[200]; snprintf(b, sizeof b, "message of %zu bytes from rank %d truncated in a receive of %zu bytes", m->bytes, m->src, q->cap);
    trunc_msg = b; trunc_rank = q->rank;
    violation("mpi-usage", "%s", b);
  }
  q->msg = m; q->done = true; m->taken = true;
  q->st.MPI_SOURCE = m->src; q->st.MPI_TAG = m->tag; q->st.vmpi_bytes = m->bytes; q->st.MPI_ERROR = 0; q->st.vmpi_cancelled = 0;
  int save = cur;
  int late = choose(CH_DELIV, 2, pol.deliv);
  cur = save;
  if (!late) deliver(q);
  if (m->sreq) m->sreq->done = true;
}
static bool fits(Req *q, Msg *m) { return (q->peer == MPI_ANY_SOURCE || q->peer == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag); }

static void post_msg(CommObj *c, int dest, MsgP m) {
  CommShared *sh = c->sh;
  for (auto it = sh->posted[dest].begin(); it != sh->posted[dest].end(); ++it)
    if (fits(*it, m.get())) { Req *q = *it; sh->posted[dest].erase(it); match(q, m, sh); return; }
  sh->unexp[dest].push_back(m);
}
static void check_peer(CommObj *c, int p, bool any, const char *fn) {
  if (p == MPI_PROC_NULL) return;
  if (any && p == MPI_ANY_SOURCE) return;
  if (p < 0 || p >= (int)c->sh->m.size()) violation("mpi-usage", "%s: invalid rank %d in a communicator of %zu", fn, p, c->sh->m.size());
}
static void check_tag(int t, bool any, const char *fn) {
  if (any && t == MPI_ANY_TAG) return;
  if (t < 0) violation("mpi-usage", "%s: invalid tag %d", fn, t);
}
enum { S_STD, S_SYNC, S_READY, S_BUF };
static void start_send(Req *q, CommObj *c, const char *fn) {
  R[cur].data += q->cap;
  if (q->peer == MPI_PROC_NULL) { q->done = true; return; }
  MsgP m = std::make_shared<Msg>();
  m->src = c->myrank; m->tag = q->tag; m->bytes = q->cap; m->sbuf = q->buf; m->taken = false; m->has_data = false; m->sreq = q; m->dkind = q->dkind;
  addressable(q->buf, q->cap, fn, "send");
  bool rdv = q->sync_mode ? true : choose(CH_SEND, 2, pol.send) == 1;
  if (q->ready_mode) {
    bool found = false;
    for (Req *x : c->sh->posted[q->peer]) if (fits(x, m.get())) found = true;
    if (!found) violation("mpi-usage", "%s: ready send with no matching receive posted", fn);
  }
  if (!rdv) { fetch(m); q->done = true; m->sreq = 0; }
  q->msg = m;
  post_msg(c, q->peer, m);
}
static void start_recv(Req *q, CommObj *c, const char *fn) {
  q->done = false; q->delivered = false; q->msg.reset();
  if (q->peer == MPI_PROC_NULL) { q->done = true; q->delivered = true; q->st.MPI_SOURCE = MPI_PROC_NULL; q->st.vmpi_bytes = 0; return; }
  addressable(q->buf, q->cap, fn, "receive");
  poison(q);
  auto &u = c->sh->unexp[c->myrank];
  for (auto it = u.begin(); it != u.end(); ++it)
    if (q->peer != MPI_ANY_SOURCE && fits(q, it->get())) { MsgP m = *it; u.erase(it); match(q, m, c->sh); return; }
  c->sh->posted[c->myrank].push_back(q);
  // wildcard receives against unexpected messages are matched lazily (try_any)
  if (q->peer != MPI_ANY_SOURCE) return;
}
// match a wildcard receive that is still posted against the unexpected queue: one choice per source
static bool try_any(Req *q) {
  if (q->done || q->kind || !q->isrecv || !q->active || q->peer != MPI_ANY_SOURCE) return q->done;
  CommShared *sh = q->sh; int dst = -1;
  for (size_t i = 0; i < sh->m.size(); i++) if (sh->m[i] == q->rank) dst = i;
  auto &u = sh->unexp[dst];
  std::vector<MsgP> cand; std::set<int> src;
  for (auto &m : u) if (fits(q, m.get()) && src.insert(m->src).second) cand.push_back(m);
  if (cand.empty()) return false;
  int c = choose(CH_ANYSRC, (int)cand.size(), pol.waitany ? (int)cand.size()-1 : 0);
  MsgP m = cand[c];
  u.erase(std::find(u.begin(), u.end(), m));
  auto &po = sh->posted[dst];
  po.erase(std::find(po.begin(), po.end(), q));
  match(q, m, sh);
  return true;
}
static bool any_ready(Req *q) {      // could complete now
  if (q->done) return true;
  if (q->kind || !q->isrecv || !q->active || q->peer != MPI_ANY_SOURCE) return false;
  CommShared *sh = q->sh; int dst = -1;
  for (size_t i = 0; i < sh->m.size(); i++) if (sh->m[i] == q->rank) dst = i;
  for (auto &m : sh->unexp[dst]) if (fits(q, m.get())) return true;
  return false;
}

// ------------------------------------------------------------------------------------- collectives
enum { X_BARRIER = 1, X_BCAST, X_REDUCE, X_ALLREDUCE, X_SCAN, X_EXSCAN, X_RSB, X_GATHER, X_SCATTER, X_ALLGATHER, X_ALLTOALL,
       X_CREATE, X_SPLIT, X_DUP, X_FREE, X_FINALIZE, X_CREATE_GROUP };
static const char *xname[] = { "?", "MPI_Barrier", "MPI_Bcast", "MPI_Reduce", "MPI_Allreduce", "MPI_Scan", "MPI_Exscan", "MPI_Reduce_scatter_block",
  "MPI_Gather", "MPI_Scatter", "MPI_Allgather", "MPI_Alltoall(v)", "MPI_Comm_create", "MPI_Comm_split", "MPI_Comm_dup", "MPI_Comm_free", "MPI_Finalize", "MPI_Comm_create_group" };

static CollSlot *coll_enter(CommObj *c, CollEntry &&e) {
  CommShared *sh = c->sh;
  long s = sh->nseq[c->myrank]++;
  while ((long)(sh->slots.size()) + sh->slot0 <= s) {
    auto p = std::make_unique<CollSlot>(); p->seq = sh->slot0 + sh->slots.size(); p->e.resize(sh->m.size()); p->made.assign(sh->m.size(), nullptr); p->sh = sh;
    sh->slots.push_back(std::move(p));
  }
  CollSlot *sl = sh->slots[s - sh->slot0].get();
  for (size_t i = 0; i < sl->e.size(); i++) if (sl->e[i].in) {
    CollEntry &o = sl->e[i];
    if (o.kind != e.kind) violation("mpi-usage", "%s paired with %s of rank %d on the same communicator", xname[e.kind], xname[o.kind], sh->m[i]);
    if (o.root != e.root) violation("mpi-usage", "%s: root %d differs from root %d of rank %d", xname[e.kind], e.root, o.root, sh->m[i]);
    if (o.op != e.op) violation("mpi-usage", "%s: operation differs from that of rank %d", xname[e.kind], sh->m[i]);
    if (e.op >= 0 && (o.dk != e.dk || o.count != e.count)) violation("mpi-usage", "%s: count or type differs from that of rank %d", xname[e.kind], sh->m[i]);
    break;
  }
  e.mode = choose(CH_COLL, 2, pol.coll);
  e.in = true;
  hist(0x100 + e.kind, sh->id, s);
  sl->e[c->myrank] = std::move(e);
  sl->nin++; progress++;
  return sl;
}
// may this participant complete now?
static bool coll_ready(CollSlot *sl, int me) {
  CollEntry &e = sl->e[me];
  size_t n = sl->e.size();
  if (sl->nin == (int)n) return true;
  if (e.mode == 1) return false;
  switch (e.kind) {
    case X_BCAST: case X_SCATTER: return sl->e[e.root].in;
    case X_REDUCE: case X_GATHER: return me != e.root;
    case X_SCAN: case X_EXSCAN: for (int i = 0; i <= me; i++) if (!sl->e[i].in) return false; return true;
    case X_ALLTOALL: for (size_t i = 0; i < n; i++) if (e.rlen[i] && !sl->e[i].in) return false; return true;
    case X_FREE: return true;
    case X_CREATE: return false;
    default: return false;
  }
}
template<class A> static void red1(int op, A *d, const A *s, size_t n, bool integral) {
  for (size_t i = 0; i < n; i++) switch (op) {
    case O_MAX: if (s[i] > d[i]) d[i] = s[i]; break;
    case O_MIN: if (s[i] < d[i]) d[i] = s[i]; break;
    case O_SUM: d[i] = d[i]+s[i]; break;
    case O_PROD: d[i] = d[i]*s[i]; break;
    case O_LAND: d[i] = (d[i] != 0) && (s[i] != 0); break;
    case O_LOR: d[i] = (d[i] != 0) || (s[i] != 0); break;
    case O_LXOR: d[i] = (d[i] != 0) != (s[i] != 0); break;
    default: violation("mpi-usage", "reduction operation not defined for this type");
  }
}
template<class A> static void redi(int op, A *d, const A *s, size_t n) {
  if (op == O_BAND) for (size_t i = 0; i < n; i++) d[i] &= s[i];
  else if (op == O_BOR) for (size_t i = 0; i < n; i++) d[i] |= s[i];
  else if (op == O_BXOR) for (size_t i = 0; i < n; i++) d[i] ^= s[i];
  else red1(op, d, s, n, true);
}
template<class P, class V> static void redloc(int op, P *d, const P *s, size_t n, V v) {
  for (size_t i = 0; i < n; i++) {
    bool better = op == O_MAXLOC ? v(s[i]).first > v(d[i]).first : v(s[i]).first < v(d[i]).first;
    if (better || (v(s[i]).first == v(d[i]).first && v(s[i]).second < v(d[i]).second)) d[i] = s[i];
  }
}
static void reduce(int op, int dk, void *d, const void *s, size_t n) {
  switch (dk) {
    case K_CHAR: redi(op, (signed char *)d, (const signed char *)s, n); break;
    case K_UCHAR: case K_BYTE: redi(op, (unsigned char *)d, (const unsigned char *)s, n); break;
    case K_SHORT: redi(op, (short *)d, (const short *)s, n); break;
    case K_USHORT: redi(op, (unsigned short *)d, (const unsigned short *)s, n); break;
    case K_INT: redi(op, (int *)d, (const int *)s, n); break;
    case K_UINT: redi(op, (unsigned *)d, (const unsigned *)s, n); break;
    case K_LONG: redi(op, (long *)d, (const long *)s, n); break;
    case K_ULONG: redi(op, (unsigned long *)d, (const unsigned long *)s, n); break;
    case K_FLOAT: red1(op, (float *)d, (const float *)s, n, false); break;
    case K_DOUBLE: red1(op, (double *)d, (const double *)s, n, false); break;
    case K_LDOUBLE: red1(op, (long double *)d, (const long double *)s, n, false); break;
    case K_DINT: redloc(op, (dint_s *)d, (const dint_s *)s, n, [](const dint_s &x) { return std::make_pair(x.d, x.i); }); break;
    case K_FINT: redloc(op, (fint_s *)d, (const fint_s *)s, n, [](const fint_s &x) { return std::make_pair(x.f, x.i); }); break;
    case K_2INT: redloc(op, (i2_s *)d, (const i2_s *)s, n, [](const i2_s &x) { return std::make_pair(x.a, x.b); }); break;
    default: violation("mpi-usage", "reduction on an unsupported datatype");
  }
}
static void put(void *d, const char *s, size_t n) { if (n) raw_copy(d, s, n); }
static CommShared *new_shared(std::vector<int> m) {
  auto p = std::make_unique<CommShared>();
  p->id = (int)comms.size(); p->m = std::move(m);
  size_t n = p->m.size(); p->unexp.resize(n); p->posted.resize(n); p->nseq.assign(n, 0);
  comms.push_back(std::move(p));
  return comms.back().get();
}
static void coll_leave(CollSlot *sl, int me);
// produce this participant's result
static void coll_finish(CollSlot *sl, int me) {
  CollEntry &e = sl->e[me];
  size_t n = sl->e.size();
  auto part = [&](size_t src, size_t dst, const char **p) -> size_t {
    CollEntry &s = sl->e[src];
    if (s.slen.empty()) { *p = s.data.data(); return s.data.size(); }
    *p = s.data.data() + s.soff[dst]; return s.slen[dst];
  };
  const char *p; size_t l;
  switch (e.kind) {
    case X_BCAST:
      if (me != e.root) {
        l = sl->e[e.root].data.size();
        if (l != e.rbytes) violation("mpi-usage", "MPI_Bcast: %zu bytes expected, root sends %zu", e.rbytes, l);
        put(e.rbuf, sl->e[e.root].data.data(), l);
      }
      break;
    case X_REDUCE: case X_ALLREDUCE: case X_SCAN: case X_EXSCAN: case X_RSB: {
      if (e.kind == X_REDUCE && me != e.root) break;
      if (e.kind == X_EXSCAN && me == 0) break;
      size_t last = e.kind == X_SCAN ? me : e.kind == X_EXSCAN ? me-1 : n-1;
      std::vector<char> acc = sl->e[0].data;
      for (size_t i = 1; i <= last; i++) reduce(e.op, e.dk, acc.data(), sl->e[i].data.data(), e.count);
      if (e.kind == X_RSB) put(e.rbuf, acc.data() + (e.roff.empty() ? me*e.rbytes : e.roff[0]), e.rbytes);
      else put(e.rbuf, acc.data(), acc.size());
      break;
    }
    case X_GATHER: case X_ALLGATHER:
      if (e.kind == X_GATHER && me != e.root) break;
      for (size_t i = 0; i < n; i++) {
        l = part(i, me, &p);
        if (l != e.rlen[i]) violation("mpi-usage", "%s: rank %d sends %zu bytes, %zu expected", xname[e.kind], sl->sh->m[i], l, e.rlen[i]);
        put((char *)e.rbuf + e.roff[i], p, l);
      }
      break;
    case X_SCATTER:
      l = part(e.root, me, &p);
      if (l != e.rbytes) violation("mpi-usage", "MPI_Scatter: root sends %zu bytes, %zu expected", l, e.rbytes);
      put(e.rbuf, p, l);
      break;
    case X_ALLTOALL:
      for (size_t i = 0; i < n; i++) {
        if (!sl->e[i].in) { if (e.rlen[i]) __builtin_trap(); continue; }
        l = part(i, me, &p);
        if (l != e.rlen[i]) violation("mpi-usage", "MPI_Alltoall(v): rank %d sends %zu bytes, %zu expected", sl->sh->m[i], l, e.rlen[i]);
        put((char *)e.rbuf + e.roff[i], p, l);
      }
      break;
    default: break;
  }
  coll_leave(sl, me);
}
static void coll_leave(CollSlot *sl, int me) {
  sl->e[me].left = true; sl->nleft++;
  CommShared *sh = sl->sh;
  // a late participant still checks its counts against those who left (alltoall)
  if (sl->nleft == (int)sl->e.size()) {
    if (sl->e[me].kind == X_ALLTOALL)
      for (size_t i = 0; i < sl->e.size(); i++) for (size_t j = 0; j < sl->e.size(); j++)
        if (sl->e[i].slen[j] != sl->e[j].rlen[i])
          violation("mpi-usage", "MPI_Alltoall(v): rank %d sends %zu bytes to rank %d, which expects %zu", sh->m[i], sl->e[i].slen[j], sh->m[j], sl->e[j].rlen[i]);
    while (!sh->slots.empty() && sh->slots.front()->nleft == (int)sh->slots.front()->e.size()) { sh->slots.pop_front(); sh->slot0++; }
  }
}
struct CollWait { CollSlot *sl; int me; };
static bool coll_pred(void *a) { CollWait *w = (CollWait *)a; return coll_ready(w->sl, w->me); }
static void coll_block(CommObj *c, CollEntry &&e) {
  CollSlot *sl = coll_enter(c, std::move(e));
  CollWait w = { sl, c->myrank };
  block(coll_pred, &w);
  coll_finish(sl, c->myrank);
}
static void coll_start(CommObj *c, CollEntry &&e, MPI_Request *rq) {
  Req *q = newreq(); q->kind = 1;
  q->slot = coll_enter(c, std::move(e)); q->cme = c->myrank; q->sh = c->sh;
  *rq = (MPI_Request)q;
}
static bool overlap(const void *a, size_t an, const void *b, size_t bn) {
  return an && bn && (const char *)a < (const char *)b + bn && (const char *)b < (const char *)a + an;
}

// --------------------------------------------------------------------------------------- completion
static bool req_done(Req *q) {
  if (!q->active) return true;
  if (q->kind == 1) return q->done || coll_ready(q->slot, q->cme);
  return q->done;
}
static void complete(MPI_Request *h, Req *q, MPI_Status *st) {
  if (q->active) {
    if (q->kind == 1) { if (!q->done) { coll_finish(q->slot, q->cme); q->done = true; } }
    else if (q->isrecv) { if (!q->cancelled) deliver(q); unpoison(q); }
    if (st) { *st = q->st; }
    hist(0x200, q->kind, q->isrecv ? q->st.MPI_SOURCE : 77);
  } else if (st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; }
  q->active = false;
  if (!q->persistent) { q->freed = true; *h = MPI_REQUEST_NULL; }
}
struct WaitAll { int n; MPI_Request *r; };
static bool all_pred(void *a) { WaitAll *w = (WaitAll *)a; for (int i = 0; i < w->n; i++) if (w->r[i] && !req_done((Req *)w->r[i])) return false; return true; }
static bool allany_pred(void *a) { WaitAll *w = (WaitAll *)a; for (int i = 0; i < w->n; i++) if (w->r[i] && !req_done((Req *)w->r[i]) && !any_ready((Req *)w->r[i])) return false; return true; }
static bool one_pred(void *a) { WaitAll *w = (WaitAll *)a; for (int i = 0; i < w->n; i++) if (w->r[i] && ((Req *)w->r[i])->active && (req_done((Req *)w->r[i]) || any_ready((Req *)w->r[i]))) return true; return false; }
static bool true_pred(void *) { return true; }
static bool has_any(int n, MPI_Request *r) { for (int i = 0; i < n; i++) if (r[i] && ((Req *)r[i])->active && ((Req *)r[i])->peer == MPI_ANY_SOURCE && ((Req *)r[i])->isrecv && ((Req *)r[i])->kind == 0) return true; return false; }
static void resolve_any(int n, MPI_Request *r) { for (int i = 0; i < n; i++) if (r[i]) try_any((Req *)r[i]); }

static void wait_all(int n, MPI_Request *r, MPI_Status *st, const char *fn) {
  for (int i = 0; i < n; i++) if (r[i]) Q(r[i], fn);
  WaitAll w = { n, r };
  if (has_any(n, r)) { block(allany_pred, &w, true); resolve_any(n, r); }
  block(all_pred, &w);
  for (int i = 0; i < n; i++) {
    if (r[i]) complete(&r[i], (Req *)r[i], st ? &st[i] : 0);
    else if (st) { memset(&st[i], 0, sizeof st[i]); st[i].MPI_SOURCE = MPI_ANY_SOURCE; st[i].MPI_TAG = MPI_ANY_TAG; }
  }
}

// ------------------------------------------------------------------------------------- scheduler
} extern "C" __attribute__((used)) void vmpi_fiber_main(void) { using namespace vmpi;
  int me = cur; Rank &r = R[me];
  __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
  try {
    rmain(rarg, me);
    r.out.kind = OUT_RETURN;
  } catch (std::exception &e) {
    r.out.kind = OUT_EXCEPTION; r.out.code = 134;
  } catch (...) { r.out.kind = OUT_EXCEPTION; r.out.code = 134; }
  r.out.finalized = r.finalized;
  if (r.out.kind == OUT_RETURN && !r.finalized) { note_violation("harness", "rank program returned without MPI_Finalize"); }
  if (r.out.kind == OUT_EXCEPTION) { res->jobabort = true; res->abort_code = 134; res->abort_rank = me; ended = true; dirty_stacks = true; }
  r.st = 3;
  cur = me;
  to_main(true);
  __builtin_trap();
}
namespace vmpi {
static void resume(int r) {
  cur = r;
  __sanitizer_start_switch_fiber(&main_fake, R[r].stk, STK);
  vmpi_switch(&main_sp, R[r].sp);
  __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
  cur = -1;
}
static void make_fiber(int i) {
  Rank &r = R[i];
  if (!r.stk) {
    r.stk = (char *)mmap(0, STK + 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    mprotect(r.stk, 4096, PROT_NONE); r.stk += 4096;
  }
  if (dirty_stacks) __asan_unpoison_memory_region(r.stk, STK);
  raw_fill(r.stk + STK - 16384, pol.fill, 16384);
  void **sp = (void **)(r.stk + STK - 128);
  *--sp = 0; *--sp = 0;                    // alignment
  *--sp = (void *)vmpi_entry;
  for (int k = 0; k < 6; k++) *--sp = 0;
  r.sp = sp; r.fake = 0;
}

void init() {
  outfd = memfd_create("vmpi-out", 0);
  fflush(stdout); fflush(stderr);
}
void redirect_output(int fd1) { dup2(outfd, fd1); }

void run(int np, RankMain fn, void *arg, const Policy &p, const Explore &e, const Fault &f, Result &result) {
  res = &result; pol = p; ex = &e; expos = 0; fault = f; NP = np; rmain = fn; rarg = arg; ended = false; polls = 0; progress = 0; ghash = 0;
  result.out.assign(np, RankOut()); trunc_msg = 0; if (tracing) for (int i = 0; i < np; i++) { trs[i] = Tr(); trs[i].payload = trace_payload; }
  for (auto &s : segs) if (s.rank < np) raw_copy(s.p, s.save, s.n);
  comms.clear(); shadows.clear(); fortran.clear();
  std::vector<int> all(np); for (int i = 0; i < np; i++) all[i] = i;
  CommShared *w = new_shared(all);
  for (int i = 0; i < np; i++) {
    Rank &r = R[i];
    r.st = 1; r.lazy = false; r.hash = 0x1234 + i; r.ncalls = r.nwtime = 0; r.clock = 0; r.data = 0; r.last = 0; r.finalized = 0; r.out = RankOut(); r.notready = 0; r.in_final = false;
    r.comms.clear(); r.groups.clear(); r.reqs.clear(); r.types.clear(); r.heap.clear(); r.live = r.peak = 0; r.nalloc = 0; r.plans.clear();
    worldobj[i].magic = MAGIC_C; worldobj[i].rank = i; worldobj[i].sh = w; worldobj[i].myrank = i; worldobj[i].freed = false;
    r.self = worldobj[i]; r.self.sh = new_shared({i}); r.self.myrank = 0;
    ghash += mix(i+1, r.hash);
    make_fiber(i);
  }
  dirty_stacks = false;
  int rr = 0;
  while (!ended && !res->violation) {
    // ranks that can run
    int cand[MAXR], nc = 0, live = 0;
    for (int k = 0; k < np; k++) {
      int i = pol.order ? np-1-k : k;
      if (pol.yield) i = (i + rr) % np;
      Rank &r = R[i];
      if (r.st == 3 || r.st == 0) continue;
      live++;
      if (r.st == 1 || (r.st == 2 && !r.lazy && r.pred(r.parg))) cand[nc++] = i;
    }
    if (!live) break;
    if (!nc) {
      for (int k = 0; k < np; k++) {
        int i = pol.order ? np-1-k : k;
        Rank &r = R[i];
        if (r.st == 2 && r.lazy && r.pred(r.parg)) cand[nc++] = i;
      }
      if (nc && R[cand[0]].pred == true_pred) {   // only polling ranks: rotate among them
        static int prr = 0; prr++;
        std::swap(cand[0], cand[prr % nc]);
      }
    }
    if (!nc) {
      std::string s = "deadlock:";
      for (int i = 0; i < np; i++) {
        char b[100];
        if (R[i].st == 3) snprintf(b, sizeof b, " rank %d %s;", i, R[i].out.kind == OUT_RETURN ? "finished" : "exited");
        else snprintf(b, sizeof b, " rank %d in %s;", i, R[i].last ? R[i].last : "-");
        s += b; if (R[i].st != 3) R[i].out.kind = OUT_BLOCKED;
      }
      note_violation("deadlock", "%s", s.c_str()); dirty_stacks = true;
      break;
    }
    int pick = 0;
    if (nc > 1 && (ex->mask >> CH_SCHED & 1)) pick = choose(CH_SCHED, nc, 0);
    rr++;
    resume(cand[pick]);
  }
  if (res->violation) dirty_stacks = true;
  cur = -1;
  for (int i = 0; i < np; i++) {
    Rank &r = R[i];
    if (r.st != 3) { dirty_stacks = true; if (r.out.kind == OUT_NONE) r.out.kind = OUT_ABORTED; }
    res->out[i] = r.out; res->allocs[i] = r.nalloc;
  }
  // leftovers of a normal run
  bool normal = !res->violation && !res->jobabort;
  for (int i = 0; i < np && normal; i++) if (res->out[i].kind != OUT_RETURN) normal = false;
  if (normal) {
    for (auto &c : comms) for (size_t d = 0; d < c->m.size(); d++) {
      if (!c->unexp[d].empty()) note_violation("mpi-usage", "%zu message(s) to rank %d never received (first from rank %d)", c->unexp[d].size(), c->m[d], c->m[c->unexp[d].front()->src]);
      if (!c->posted[d].empty()) note_violation("mpi-usage", "a receive posted by rank %d was never completed", c->m[d]);
    }
    if (check_leaks) for (int i = 0; i < np; i++) {
      Rank &r = R[i];
      for (auto &o : r.comms) if (!o.freed) { note_violation("leak", "rank %d leaks a communicator", i); break; }
      for (auto &o : r.groups) if (!o.freed) { note_violation("leak", "rank %d leaks a group", i); break; }
      for (auto &o : r.types) if (!o.freed) { note_violation("leak", "rank %d leaks a datatype", i); break; }
      for (auto &o : r.reqs) if (!o.freed) { note_violation("leak", "rank %d leaks a request", i); break; }
      if (!r.heap.empty()) note_violation("leak", "rank %d leaks %zu heap block(s), %zu bytes", i, r.heap.size(), r.live);
      if (!r.plans.empty()) note_violation("leak", "rank %d leaks %d FFTW plan(s)", i, (int)r.plans.size());
    }
  }
  for (int i = 0; i < np; i++) {
    for (auto &q : R[i].reqs) unpoison(&q);
  }
  for (int i = 0; i < np; i++) {
    for (auto &h : R[i].heap) { if (h.second.second == 1) operator delete(h.first); else if (h.second.second == 2) operator delete[](h.first); else free(h.first); }
    R[i].heap.clear();
  }
  for (void *a : arenas) free(a);
  arenas.clear();
  fflush(stdout); fflush(stderr);
  if (outfd >= 0) {
    off_t n = lseek(outfd, 0, SEEK_END);
    if (n > 0) {
      result.output.resize(std::min<off_t>(n, 4000));
      if (pread(outfd, &result.output[0], result.output.size(), 0) < 0) {}
      if (ftruncate(outfd, 0)) {}
      lseek(outfd, 0, SEEK_SET);
    }
  }
}

// ------------------------------------------------------------------- job-ending events
static void rank_exit(int kind, int code) {
  Rank &r = R[cur];
  r.out.kind = kind; r.out.code = code; r.out.finalized = r.finalized;
  r.st = 3; dirty_stacks = true;
  if (!r.finalized || kind == OUT_SIGABRT) { res->jobabort = true; res->abort_code = code; res->abort_rank = cur; ended = true; }
  to_main(false);
  __builtin_trap();
}

// ------------------------------------------------------------------- heap of the library
static void *track(void *p, size_t n, int kind = 0) {
  if (cur >= 0 && p) { Rank &r = R[cur]; r.heap[p] = {n, kind}; r.live += n; if (r.live > r.peak) r.peak = r.live; }
  return p;
}
static void untrack(void *p) {
  if (cur < 0 || !p) return;
  Rank &r = R[cur];
  auto it = r.heap.find(p);
  if (it != r.heap.end()) { r.live -= it->second.first; r.heap.erase(it); }
}
static bool failing() {
  if (cur < 0) return false;
  long n = (long)R[cur].nalloc++;
  if (cur == fault.rank && n == fault.nth) { res->fault_hit = true; return true; }
  return false;
}
static void *fill(void *p, size_t n) { if (p && n) raw_fill(p, pol.fill, n); return p; }
} // namespace vmpi
using namespace vmpi;

extern "C" {
void *__wrap_malloc(size_t n) { if (failing()) return 0; return track(fill(malloc(n), n), n); }
void *__wrap_calloc(size_t a, size_t b) { if (failing()) return 0; return track(calloc(a,b), a*b); }
void *__wrap_realloc(void *p, size_t n) {
  if (failing()) return 0;
  size_t old = 0;
  if (cur >= 0 && p) { auto it = R[cur].heap.find(p); if (it != R[cur].heap.end()) old = it->second.first; }
  untrack(p);
  void *q = realloc(p, n);
  if (q && n > old && (old || !p)) raw_fill((char *)q + old, vmpi::pol.fill, n - old);
  return track(q, n);
}
void __wrap_free(void *p) { untrack(p); free(p); }
int __wrap_posix_memalign(void **o, size_t a, size_t n) {
  if (failing()) return ENOMEM;
  int rc = posix_memalign(o, a, n);
  if (rc == 0) track(fill(*o, n), n);
  return rc;
}
void *__wrap_aligned_alloc(size_t a, size_t n) { if (failing()) return 0; return track(fill(aligned_alloc(a,n), n), n); }
void *__wrap_memalign(size_t a, size_t n) { if (failing()) return 0; void *p; if (posix_memalign(&p,a,n)) return 0; return track(fill(p, n), n); }
void *__wrap__Znwm(size_t n) { if (failing()) throw std::bad_alloc(); return track(fill(operator new(n), n), n, 1); }
void *__wrap__Znam(size_t n) { if (failing()) throw std::bad_alloc(); return track(fill(operator new[](n), n), n, 2); }
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { if (failing()) return 0; return track(fill(operator new(n,t), n), n, 1); }
void *__wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { if (failing()) return 0; return track(fill(operator new[](n,t), n), n, 2); }
void __wrap__ZdlPv(void *p) { untrack(p); operator delete(p); }
void __wrap__ZdaPv(void *p) { untrack(p); operator delete[](p); }
void __wrap__ZdlPvm(void *p, size_t n) { untrack(p); operator delete(p, n); }
void __wrap__ZdaPvm(void *p, size_t n) { untrack(p); operator delete[](p, n); }
void __wrap_exit(int c) { rank_exit(OUT_EXIT, c); }
void __wrap__exit(int c) { rank_exit(OUT_EXIT, c); }
void __wrap_abort(void) { rank_exit(OUT_SIGABRT, 134); }

// FFTW plans, to see leaks
#define PLAN1(pre, name, args, call) void *pre##name args; void *__wrap_##pre##name args { void *p = pre##name call; if (p && cur >= 0) R[cur].plans.insert(p); return p; }
#define PLANW(pre, ct) \
  PLAN1(pre, plan_many_dft, (int a, const int *b, int c, void *d, const int *e, int f, int g, void *h, const int *i, int j, int k, int l, unsigned m), (a,b,c,d,e,f,g,h,i,j,k,l,m)) \
  PLAN1(pre, plan_dft_1d, (int a, void *b, void *c, int d, unsigned e), (a,b,c,d,e)) \
  PLAN1(pre, plan_dft_2d, (int a, int n, void *b, void *c, int d, unsigned e), (a,n,b,c,d,e)) \
  PLAN1(pre, plan_dft, (int a, const int *n, void *b, void *c, int d, unsigned e), (a,n,b,c,d,e)) \
  PLAN1(pre, plan_guru_dft, (int a, const void *n, int h, const void *hd, void *b, void *c, int d, unsigned e), (a,n,h,hd,b,c,d,e)) \
  void pre##destroy_plan(void *); void __wrap_##pre##destroy_plan(void *p) { if (cur >= 0) R[cur].plans.erase(p); pre##destroy_plan(p); }
PLANW(fftw_, double)
PLANW(fftwf_, float)

// ============================================================================ MPI
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = MPI_THREAD_SINGLE; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = cur >= 0 && R[cur].finalized; return 0; }
int MPI_Finalize(void) {
  enter("MPI_Finalize");
  // every rank of the job must get here; a rank that already ended cannot
  CollEntry e; e.kind = X_FINALIZE; e.mode = 1;
  CommObj *c = &worldobj[cur];
  CollSlot *sl = coll_enter(c, std::move(e));
  sl->e[c->myrank].mode = 1;
  CollWait w = { sl, c->myrank };
  block(coll_pred, &w);
  coll_leave(sl, c->myrank);
  R[cur].finalized = 1;
  return 0;
}
int MPI_Abort(MPI_Comm, int code) {
  enter("MPI_Abort");
  __fpurge(stdout);                        // what is still in a buffer when MPI kills the job is lost
  R[cur].out.kind = OUT_ABORTED; R[cur].out.code = code; R[cur].st = 3;
  res->jobabort = true; res->abort_code = code; res->abort_rank = cur; ended = true; dirty_stacks = true;
  to_main(false);
  __builtin_trap();
}
double MPI_Wtime(void) {
  enter("MPI_Wtime");
  Rank &r = R[cur];
  if (wtime_data) return 1000.0 + 1.0e-6*r.data;
  if (wtime_hook) r.clock += wtime_hook(cur, r.nwtime); else r.clock += 1.0e-3;
  r.nwtime++;
  return 1000.0 + r.clock;
}
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_processor_name(char *s, int *l) { strcpy(s, "vmpi"); *l = 4; return 0; }
int MPI_Error_string(int, char *s, int *l) { strcpy(s, "error"); *l = 5; return 0; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }

int MPI_Comm_rank(MPI_Comm c, int *r) { enter("MPI_Comm_rank"); *r = C(c, "MPI_Comm_rank")->myrank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { enter("MPI_Comm_size"); *n = (int)C(c, "MPI_Comm_size")->sh->m.size(); return 0; }
int MPI_Comm_test_inter(MPI_Comm c, int *f) { C(c, "MPI_Comm_test_inter"); *f = 0; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler) { C(c, "MPI_Comm_set_errhandler"); return 0; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *e) { *e = MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Comm_set_name(MPI_Comm c, const char *) { C(c, "MPI_Comm_set_name"); return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) {
  if (c == MPI_COMM_NULL) return -1;
  CommObj *o = C(c, "MPI_Comm_c2f");
  for (size_t i = 0; i < fortran.size(); i++) if (fortran[i] == o) return (int)i + 1000;
  fortran.push_back(o); return (int)fortran.size() - 1 + 1000;
}
MPI_Comm MPI_Comm_f2c(MPI_Fint f) {
  if (f == -1) return MPI_COMM_NULL;
  if (f < 1000 || f - 1000 >= (int)fortran.size()) violation("mpi-usage", "MPI_Comm_f2c: invalid Fortran handle %d", f);
  CommObj *o = fortran[f - 1000];
  if (o->rank != cur) violation("mpi-usage", "MPI_Comm_f2c: handle of another rank");
  return o == &worldobj[cur] ? MPI_COMM_WORLD : o == &R[cur].self ? MPI_COMM_SELF : (MPI_Comm)o;
}
static MPI_Comm add_comm(CommShared *sh) {
  R[cur].comms.emplace_back();
  CommObj &o = R[cur].comms.back();
  o.magic = MAGIC_C; o.rank = cur; o.sh = sh; o.freed = false; o.myrank = -1;
  for (size_t i = 0; i < sh->m.size(); i++) if (sh->m[i] == cur) o.myrank = (int)i;
  return (MPI_Comm)&o;
}
static MPI_Group add_group(std::vector<int> m) {
  R[cur].groups.emplace_back();
  GroupObj &o = R[cur].groups.back();
  o.magic = MAGIC_G; o.rank = cur; o.m = std::move(m); o.freed = false;
  return (MPI_Group)&o;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { enter("MPI_Comm_group"); *g = add_group(C(c, "MPI_Comm_group")->sh->m); return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) {
  enter("MPI_Group_incl");
  GroupObj *x = G(g, "MPI_Group_incl"); std::vector<int> m;
  if (n < 0 || n > (int)x->m.size()) violation("mpi-usage", "MPI_Group_incl: %d ranks out of a group of %zu", n, x->m.size());
  for (int i = 0; i < n; i++) {
    if (r[i] < 0 || r[i] >= (int)x->m.size()) violation("mpi-usage", "MPI_Group_incl: rank %d outside a group of %zu", r[i], x->m.size());
    if (std::find(m.begin(), m.end(), x->m[r[i]]) != m.end()) violation("mpi-usage", "MPI_Group_incl: rank %d listed twice", r[i]);
    m.push_back(x->m[r[i]]);
  }
  *o = add_group(m); return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *o) {
  enter("MPI_Group_excl");
  GroupObj *x = G(g, "MPI_Group_excl"); std::vector<int> m;
  for (int i = 0; i < n; i++) if (r[i] < 0 || r[i] >= (int)x->m.size()) violation("mpi-usage", "MPI_Group_excl: rank %d outside a group of %zu", r[i], x->m.size());
  for (size_t i = 0; i < x->m.size(); i++) { bool ex = false; for (int k = 0; k < n; k++) if (r[k] == (int)i) ex = true; if (!ex) m.push_back(x->m[i]); }
  *o = add_group(m); return 0;
}
int MPI_Group_range_incl(MPI_Group g, int n, int r[][3], MPI_Group *o) {
  enter("MPI_Group_range_incl");
  GroupObj *x = G(g, "MPI_Group_range_incl"); std::vector<int> m;
  for (int i = 0; i < n; i++) for (int v = r[i][0]; r[i][2] > 0 ? v <= r[i][1] : v >= r[i][1]; v += r[i][2]) {
    if (v < 0 || v >= (int)x->m.size() || r[i][2] == 0) violation("mpi-usage", "MPI_Group_range_incl: bad range");
    m.push_back(x->m[v]);
  }
  *o = add_group(m); return 0;
}
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o) {
  enter("MPI_Group_union"); std::vector<int> m = G(a, "MPI_Group_union")->m;
  for (int v : G(b, "MPI_Group_union")->m) if (std::find(m.begin(), m.end(), v) == m.end()) m.push_back(v);
  *o = add_group(m); return 0;
}
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o) {
  enter("MPI_Group_intersection"); std::vector<int> m; auto &y = G(b, "MPI_Group_intersection")->m;
  for (int v : G(a, "MPI_Group_intersection")->m) if (std::find(y.begin(), y.end(), v) != y.end()) m.push_back(v);
  *o = add_group(m); return 0;
}
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *o) {
  enter("MPI_Group_difference"); std::vector<int> m; auto &y = G(b, "MPI_Group_difference")->m;
  for (int v : G(a, "MPI_Group_difference")->m) if (std::find(y.begin(), y.end(), v) == y.end()) m.push_back(v);
  *o = add_group(m); return 0;
}
int MPI_Group_size(MPI_Group g, int *n) { enter("MPI_Group_size"); *n = (int)G(g, "MPI_Group_size")->m.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *n) {
  enter("MPI_Group_rank"); auto &m = G(g, "MPI_Group_rank")->m; *n = MPI_UNDEFINED;
  for (size_t i = 0; i < m.size(); i++) if (m[i] == cur) *n = (int)i;
  return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *r, MPI_Group b, int *o) {
  enter("MPI_Group_translate_ranks"); auto &x = G(a, "MPI_Group_translate_ranks")->m; auto &y = G(b, "MPI_Group_translate_ranks")->m;
  for (int i = 0; i < n; i++) {
    if (r[i] < 0 || r[i] >= (int)x.size()) violation("mpi-usage", "MPI_Group_translate_ranks: rank %d outside the group", r[i]);
    o[i] = MPI_UNDEFINED; for (size_t k = 0; k < y.size(); k++) if (y[k] == x[r[i]]) o[i] = (int)k;
  }
  return 0;
}
int MPI_Group_free(MPI_Group *g) { enter("MPI_Group_free"); if (*g != MPI_GROUP_EMPTY) G(*g, "MPI_Group_free")->freed = true; *g = MPI_GROUP_NULL; return 0; }

int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o) {
  enter("MPI_Comm_create");
  CommObj *x = C(c, "MPI_Comm_create"); GroupObj *gr = G(g, "MPI_Comm_create");
  CollEntry e; e.kind = X_CREATE; e.grp = gr->m;
  for (int v : gr->m) if (std::find(x->sh->m.begin(), x->sh->m.end(), v) == x->sh->m.end()) violation("mpi-usage", "MPI_Comm_create: group is not a subset of the communicator");
  CollSlot *sl = coll_enter(x, std::move(e)); int me = x->myrank;
  sl->e[me].mode = 1;
  CollWait w = { sl, me }; block(coll_pred, &w);
  auto &mine = sl->e[me].grp;
  bool member = std::find(mine.begin(), mine.end(), cur) != mine.end();
  if (!mine.empty())
    for (int v : mine) for (size_t k = 0; k < x->sh->m.size(); k++) if (x->sh->m[k] == v && sl->e[k].grp != mine)
      violation("mpi-usage", "MPI_Comm_create: ranks %d and %d of one group pass different groups", cur, v);
  if (!member) *o = MPI_COMM_NULL;
  else {
    CommShared *sh = nullptr;
    for (size_t k = 0; k < sl->made.size(); k++) if (sl->made[k] && sl->e[k].grp == mine) sh = sl->made[k];
    if (!sh) sh = new_shared(mine);
    sl->made[me] = sh;
    *o = add_comm(sh);
  }
  coll_leave(sl, me);
  return 0;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *o) {
  // collective over the group only: keyed by (comm, group, tag) on a shadow communicator
  enter("MPI_Comm_create_group");
  CommObj *x = C(c, "MPI_Comm_create_group"); GroupObj *gr = G(g, "MPI_Comm_create_group");
  if (std::find(gr->m.begin(), gr->m.end(), cur) == gr->m.end()) { if (!gr->m.empty()) violation("mpi-usage", "MPI_Comm_create_group: caller is not in the group"); *o = MPI_COMM_NULL; return 0; }
  std::vector<long> key; key.push_back(x->sh->id); key.push_back(tag); for (int v : gr->m) key.push_back(v);
  CommShared *sh = nullptr; for (auto &s : shadows) if (s.first == key) sh = s.second;
  if (!sh) { sh = new_shared(gr->m); shadows.push_back({key, sh}); }
  CommObj tmp; tmp.sh = sh; tmp.rank = cur; for (size_t i = 0; i < sh->m.size(); i++) if (sh->m[i] == cur) tmp.myrank = (int)i;
  CollEntry e; e.kind = X_CREATE_GROUP;
  CollSlot *sl = coll_enter(&tmp, std::move(e)); int me = tmp.myrank; sl->e[me].mode = 1;
  CollWait w = { sl, me }; block(coll_pred, &w);
  CommShared *ns = nullptr; for (auto *m : sl->made) if (m) ns = m;
  if (!ns) ns = new_shared(sh->m);
  sl->made[me] = ns;
  *o = add_comm(ns);
  coll_leave(sl, me);
  return 0;
}
static int split(const char *nm, MPI_Comm c, int color, int key, MPI_Comm *o) {
  enter(nm);
  CommObj *x = C(c, nm);
  CollEntry e; e.kind = X_SPLIT; e.a = color; e.b = key; e.undef = color == MPI_UNDEFINED;
  if (!e.undef && color < 0) violation("mpi-usage", "%s: negative color %d", nm, color);
  CollSlot *sl = coll_enter(x, std::move(e)); int me = x->myrank; sl->e[me].mode = 1;
  CollWait w = { sl, me }; block(coll_pred, &w);
  if (sl->e[me].undef) *o = MPI_COMM_NULL;
  else {
    CommShared *sh = nullptr;
    for (size_t k = 0; k < sl->made.size(); k++) if (sl->made[k] && !sl->e[k].undef && sl->e[k].a == sl->e[me].a) sh = sl->made[k];
    if (!sh) {
      std::vector<int> idx; for (size_t k = 0; k < sl->e.size(); k++) if (!sl->e[k].undef && sl->e[k].a == sl->e[me].a) idx.push_back((int)k);
      std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) { return sl->e[a].b < sl->e[b].b; });
      std::vector<int> m; for (int i : idx) m.push_back(x->sh->m[i]);
      sh = new_shared(m);
    }
    sl->made[me] = sh; *o = add_comm(sh);
  }
  coll_leave(sl, me);
  return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) { return split("MPI_Comm_split", c, color, key, o); }
int MPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info, MPI_Comm *o) { return split("MPI_Comm_split_type", c, t == MPI_UNDEFINED ? MPI_UNDEFINED : 0, key, o); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
  enter("MPI_Comm_dup");
  CommObj *x = C(c, "MPI_Comm_dup");
  CollEntry e; e.kind = X_DUP;
  CollSlot *sl = coll_enter(x, std::move(e)); int me = x->myrank; sl->e[me].mode = 1;
  CollWait w = { sl, me }; block(coll_pred, &w);
  CommShared *sh = nullptr; for (auto *m : sl->made) if (m) sh = m;
  if (!sh) sh = new_shared(x->sh->m);
  sl->made[me] = sh; *o = add_comm(sh);
  coll_leave(sl, me);
  return 0;
}
int MPI_Comm_free(MPI_Comm *c) {
  enter("MPI_Comm_free");
  if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF) violation("mpi-usage", "MPI_Comm_free on a predefined communicator");
  CommObj *x = C(*c, "MPI_Comm_free");
  CollEntry e; e.kind = X_FREE;
  coll_block(x, std::move(e));
  x->freed = true; x->sh->nfreed++;
  *c = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_disconnect(MPI_Comm *c) { return MPI_Comm_free(c); }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
  CommObj *x = C(a, "MPI_Comm_compare"), *y = C(b, "MPI_Comm_compare");
  if (x->sh == y->sh) *r = MPI_IDENT; else if (x->sh->m == y->sh->m) *r = MPI_CONGRUENT;
  else { auto p = x->sh->m, q = y->sh->m; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL; }
  return 0;
}

// ---- point to point
static Req *mk(const void *b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, bool recv, const char *fn, CommObj **co) {
  enter(fn);
  CommObj *x = C(c, fn); *co = x;
  int dk; size_t by = nbytes(n, t, fn, &dk);
  check_peer(x, peer, recv, fn); check_tag(tag, recv, fn);
  Req *q = newreq(); q->buf = (void *)b; q->cap = by; q->peer = peer; q->tag = tag; q->sh = x->sh; q->isrecv = recv; q->dkind = dk;
  hist(recv ? 0x11 : 0x10, peer, mix(by, mix(tag, x->sh->id)));
  TR(tr.u(peer); tr.u(by); tr.u(tag); if (!recv) tr.bytes(b, by));
  return q;
}
static int isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r, int mode, const char *fn) {
  CommObj *x; Req *q = mk(b, n, t, d, tag, c, false, fn, &x);
  q->sync_mode = mode == S_SYNC; q->ready_mode = mode == S_READY;
  start_send(q, x, fn); *r = (MPI_Request)q; return 0;
}
static int send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, int mode, const char *fn) {
  MPI_Request r; isend(b, n, t, d, tag, c, &r, mode, fn);
  WaitAll w = { 1, &r }; block(all_pred, &w);
  complete(&r, (Req *)r, 0); return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) { return isend(b,n,t,d,g,c,r,S_STD,"MPI_Isend"); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) { return isend(b,n,t,d,g,c,r,S_SYNC,"MPI_Issend"); }
int MPI_Irsend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) { return isend(b,n,t,d,g,c,r,S_READY,"MPI_Irsend"); }
int MPI_Ibsend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) { return isend(b,n,t,d,g,c,r,S_STD,"MPI_Ibsend"); }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c) { return send(b,n,t,d,g,c,S_STD,"MPI_Send"); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c) { return send(b,n,t,d,g,c,S_SYNC,"MPI_Ssend"); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c) { return send(b,n,t,d,g,c,S_READY,"MPI_Rsend"); }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c) { return send(b,n,t,d,g,c,S_STD,"MPI_Bsend"); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Request *r) {
  CommObj *x; Req *q = mk(b, n, t, s, g, c, true, "MPI_Irecv", &x);
  start_recv(q, x, "MPI_Irecv"); *r = (MPI_Request)q; return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Status *st) {
  CommObj *x; Req *q = mk(b, n, t, s, g, c, true, "MPI_Recv", &x);
  start_recv(q, x, "MPI_Recv"); MPI_Request r = (MPI_Request)q;
  wait_all(1, &r, st, "MPI_Recv"); return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int sg, void *rb, int rn, MPI_Datatype rt, int s, int rg, MPI_Comm c, MPI_Status *stat) {
  if (overlap(sb, nbytes(sn, st, "MPI_Sendrecv"), rb, nbytes(rn, rt, "MPI_Sendrecv"))) violation("mpi-usage", "MPI_Sendrecv: send and receive buffers overlap");
  MPI_Request r[2]; MPI_Status ss[2];
  isend(sb, sn, st, d, sg, c, &r[1], S_STD, "MPI_Sendrecv");
  MPI_Irecv(rb, rn, rt, s, rg, c, &r[0]);
  wait_all(2, r, ss, "MPI_Sendrecv");
  if (stat) *stat = ss[0];
  return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int sg, int s, int rg, MPI_Comm c, MPI_Status *stat) {
  size_t by = nbytes(n, t, "MPI_Sendrecv_replace");
  void *tmp = arena(by); if (by) memcpy(tmp, b, by);
  return MPI_Sendrecv(tmp, n, t, d, sg, b, n, t, s, rg, c, stat);
}
int MPI_Wait(MPI_Request *r, MPI_Status *s) { enter("MPI_Wait"); wait_all(1, r, s, "MPI_Wait"); return 0; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { enter("MPI_Waitall"); wait_all(n, r, s, "MPI_Waitall"); return 0; }
static bool no_active(int n, MPI_Request *r, const char *fn) { bool none = true; for (int i = 0; i < n; i++) if (r[i]) { if (Q(r[i], fn)->active) none = false; } return none; }
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *s) {
  enter("MPI_Waitany");
  if (no_active(n, r, "MPI_Waitany")) { *idx = MPI_UNDEFINED; return 0; }
  WaitAll w = { n, r }; block(one_pred, &w, true);
  std::vector<int> c;
  for (int i = 0; i < n; i++) if (r[i] && ((Req *)r[i])->active && (req_done((Req *)r[i]) || any_ready((Req *)r[i]))) c.push_back(i);
  int k = c[choose(CH_WAITANY, (int)c.size(), pol.waitany ? (int)c.size()-1 : 0)];
  if (!req_done((Req *)r[k])) try_any((Req *)r[k]);
  hist(0x20, k, c.size());
  *idx = k; complete(&r[k], (Req *)r[k], s);
  return 0;
}
int MPI_Waitsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *s) {
  enter("MPI_Waitsome");
  if (no_active(n, r, "MPI_Waitsome")) { *cnt = MPI_UNDEFINED; return 0; }
  WaitAll w = { n, r }; block(one_pred, &w, true);
  std::vector<int> c;
  for (int i = 0; i < n; i++) if (r[i] && ((Req *)r[i])->active && (req_done((Req *)r[i]) || any_ready((Req *)r[i]))) c.push_back(i);
  // some non-empty subset: all of them, or each single one
  int k = choose(CH_WAITANY, (int)c.size()+1, pol.waitany ? (int)c.size() : 0);
  std::vector<int> take; if (k == 0) take = c; else take.push_back(c[k-1]);
  *cnt = 0;
  for (int i : take) {
    if (!req_done((Req *)r[i])) { if (!try_any((Req *)r[i])) continue; }
    idx[*cnt] = i; complete(&r[i], (Req *)r[i], s ? &s[*cnt] : 0); (*cnt)++;
  }
  hist(0x21, k, *cnt);
  return 0;
}
// polling: let every other rank go as far as it can, then report completion or (bounded) not yet
static bool poll_ready(bool (*pred)(void *), void *arg) {
  block(true_pred, 0, true);
  bool ready = pred(arg);
  if (ready) {
    if (R[cur].notready < 2 && choose(CH_TEST, 2, 0) == 1) { R[cur].notready++; return false; }
    R[cur].notready = 0; progress++;
    return true;
  }
  static long lastp; static Result *lr;
  if (lr != res || lastp != progress) { lr = res; lastp = progress; polls = 0; }
  if (++polls > 2000) violation("deadlock", "ranks poll forever without progress");
  return false;
}
int MPI_Test(MPI_Request *r, int *f, MPI_Status *s) {
  enter("MPI_Test");
  if (!*r) { *f = 1; return 0; }
  Q(*r, "MPI_Test"); WaitAll w = { 1, r };
  *f = poll_ready(allany_pred, &w);
  if (*f) { resolve_any(1, r); complete(r, (Req *)*r, s); }
  hist(0x22, *f); return 0;
}
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *s) {
  enter("MPI_Testall");
  for (int i = 0; i < n; i++) if (r[i]) Q(r[i], "MPI_Testall");
  WaitAll w = { n, r };
  *f = poll_ready(allany_pred, &w);
  if (*f) { resolve_any(n, r); if (!all_pred(&w)) *f = 0; }
  if (*f) for (int i = 0; i < n; i++) if (r[i]) complete(&r[i], (Req *)r[i], s ? &s[i] : 0);
  hist(0x23, *f); return 0;
}
int MPI_Testany(int n, MPI_Request *r, int *idx, int *f, MPI_Status *s) {
  enter("MPI_Testany");
  if (no_active(n, r, "MPI_Testany")) { *f = 1; *idx = MPI_UNDEFINED; return 0; }
  WaitAll w = { n, r };
  *f = poll_ready(one_pred, &w); *idx = MPI_UNDEFINED;
  if (*f) {
    std::vector<int> c;
    for (int i = 0; i < n; i++) if (r[i] && ((Req *)r[i])->active && (req_done((Req *)r[i]) || any_ready((Req *)r[i]))) c.push_back(i);
    int k = c[choose(CH_WAITANY, (int)c.size(), pol.waitany ? (int)c.size()-1 : 0)];
    if (!req_done((Req *)r[k])) try_any((Req *)r[k]);
    *idx = k; complete(&r[k], (Req *)r[k], s);
  }
  hist(0x24, *f, *idx); return 0;
}
int MPI_Testsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *s) {
  int f, k; if (no_active(n, r, "MPI_Testsome")) { *cnt = MPI_UNDEFINED; return 0; }
  MPI_Status st; MPI_Testany(n, r, &k, &f, &st);
  *cnt = f ? 1 : 0; if (f) { idx[0] = k; if (s) s[0] = st; }
  return 0;
}
struct ProbeA { CommObj *c; int src, tag; };
static Msg *probe_find(ProbeA *p) { for (auto &m : p->c->sh->unexp[p->c->myrank]) if ((p->src == MPI_ANY_SOURCE || p->src == m->src) && (p->tag == MPI_ANY_TAG || p->tag == m->tag)) return m.get(); return 0; }
static bool probe_pred(void *a) { return probe_find((ProbeA *)a) != 0; }
static void probe_stat(ProbeA *p, MPI_Status *s) {
  std::vector<Msg *> c; std::set<int> seen;
  for (auto &m : p->c->sh->unexp[p->c->myrank]) if ((p->src == MPI_ANY_SOURCE || p->src == m->src) && (p->tag == MPI_ANY_TAG || p->tag == m->tag) && seen.insert(m->src).second) c.push_back(m.get());
  Msg *m = c[choose(CH_ANYSRC, (int)c.size(), pol.waitany ? (int)c.size()-1 : 0)];
  if (s) { s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->MPI_ERROR = 0; s->vmpi_bytes = m->bytes; s->vmpi_cancelled = 0; }
  hist(0x25, m->src, m->bytes);
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *s) {
  enter("MPI_Probe"); ProbeA p = { C(c, "MPI_Probe"), src, tag }; check_peer(p.c, src, true, "MPI_Probe");
  block(probe_pred, &p, src == MPI_ANY_SOURCE); probe_stat(&p, s); return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *f, MPI_Status *s) {
  enter("MPI_Iprobe"); ProbeA p = { C(c, "MPI_Iprobe"), src, tag }; check_peer(p.c, src, true, "MPI_Iprobe");
  *f = poll_ready(probe_pred, &p); if (*f) probe_stat(&p, s); return 0;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { size_t z = T(t, "MPI_Get_count"); *n = z && s->vmpi_bytes % z == 0 ? (int)(s->vmpi_bytes / z) : MPI_UNDEFINED; return 0; }
int MPI_Cancel(MPI_Request *r) {
  enter("MPI_Cancel"); Req *q = Q(*r, "MPI_Cancel");
  if (q->isrecv && !q->done) for (auto &po : q->sh->posted) { auto it = std::find(po.begin(), po.end(), q); if (it != po.end()) { po.erase(it); q->cancelled = true; q->done = true; q->st.vmpi_cancelled = 1; break; } }
  return 0;
}
int MPI_Test_cancelled(const MPI_Status *s, int *f) { *f = s->vmpi_cancelled; return 0; }
int MPI_Request_free(MPI_Request *r) {
  enter("MPI_Request_free"); Req *q = Q(*r, "MPI_Request_free");
  if (q->active && q->isrecv && !q->done) violation("mpi-usage", "MPI_Request_free on an active receive");
  if (q->isrecv && q->active && q->done) { deliver(q); unpoison(q); }
  q->freed = true; q->active = false; *r = MPI_REQUEST_NULL; return 0;
}
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) {
  CommObj *x; Req *q = mk(b, n, t, d, g, c, false, "MPI_Send_init", &x); q->persistent = true; q->active = false; q->done = true; *r = (MPI_Request)q; return 0;
}
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Request *r) {
  CommObj *x; Req *q = mk(b, n, t, s, g, c, true, "MPI_Recv_init", &x); q->persistent = true; q->active = false; q->done = true; *r = (MPI_Request)q; return 0;
}
int MPI_Start(MPI_Request *r) {
  enter("MPI_Start"); Req *q = Q(*r, "MPI_Start");
  if (!q->persistent || q->active) violation("mpi-usage", "MPI_Start on an active or non-persistent request");
  CommObj tmp; tmp.sh = q->sh; tmp.rank = cur; tmp.myrank = -1; for (size_t i = 0; i < q->sh->m.size(); i++) if (q->sh->m[i] == cur) tmp.myrank = (int)i;
  q->active = true; q->done = false; q->delivered = false;
  if (q->isrecv) start_recv(q, &tmp, "MPI_Start"); else start_send(q, &tmp, "MPI_Start");
  return 0;
}
int MPI_Startall(int n, MPI_Request *r) { for (int i = 0; i < n; i++) MPI_Start(&r[i]); return 0; }

// ---- collectives
static void grab(CollEntry &e, const void *b, size_t n, const char *fn) {
  addressable(b, n, fn, "send"); e.data.resize(n); if (n) raw_copy(e.data.data(), b, n);
}
int MPI_Barrier(MPI_Comm c) { enter("MPI_Barrier"); CollEntry e; e.kind = X_BARRIER; coll_block(C(c, "MPI_Barrier"), std::move(e)); return 0; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) { enter("MPI_Ibarrier"); CollEntry e; e.kind = X_BARRIER; coll_start(C(c, "MPI_Ibarrier"), std::move(e), r); return 0; }
static void root_ok(CommObj *x, int root, const char *fn) { if (root < 0 || root >= (int)x->sh->m.size()) violation("mpi-usage", "%s: invalid root %d", fn, root); }
static CollEntry mk_bcast(void *b, int n, MPI_Datatype t, int root, CommObj *x, const char *fn) {
  root_ok(x, root, fn); size_t by = nbytes(n, t, fn);
  CollEntry e; e.kind = X_BCAST; e.root = root; e.rbuf = b; e.rbytes = by;
  addressable(b, by, fn, "data"); if (x->myrank == root) grab(e, b, by, fn);
  return e;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { enter("MPI_Bcast"); TR(tr.u(root); tr.u(n*T(t, "MPI_Bcast"))); CommObj *x = C(c, "MPI_Bcast"); coll_block(x, mk_bcast(b, n, t, root, x, "MPI_Bcast")); return 0; }
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *r) { enter("MPI_Ibcast"); CommObj *x = C(c, "MPI_Ibcast"); coll_start(x, mk_bcast(b, n, t, root, x, "MPI_Ibcast"), r); return 0; }
static CollEntry mk_red(int kind, const void *s, void *d, size_t n, MPI_Datatype t, MPI_Op op, int root, CommObj *x, const char *fn, long rby = -1) {
  if (n > 0x7fffffff) violation("mpi-usage", "%s: bad count", fn);
  CollEntry e; e.kind = kind; e.root = root; size_t by = nbytes((int)n, t, fn, &e.dk);
  static MPI_Op ops[] = { MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_LOR, MPI_LXOR, MPI_BAND, MPI_BOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC };
  bool ok = false; for (MPI_Op o : ops) if (o == op) ok = true;
  if (!ok) violation("mpi-usage", "%s: invalid operation", fn);
  e.op = op->op; e.count = n; e.rbuf = d; e.rbytes = by;
  bool getsres = kind != X_REDUCE || x->myrank == root;
  if (s == MPI_IN_PLACE) { if (!getsres) violation("mpi-usage", "%s: MPI_IN_PLACE away from the root", fn); s = d; }
  else if (getsres && overlap(s, by, d, kind == X_RSB ? rby < 0 ? by/x->sh->m.size() : (size_t)rby : by)) violation("mpi-usage", "%s: send and receive buffers overlap", fn);
  grab(e, s, by, fn);
  if (getsres) addressable(d, kind == X_RSB ? rby < 0 ? by/x->sh->m.size() : (size_t)rby : by, fn, "receive");
  return e;
}
int MPI_Reduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  enter("MPI_Reduce"); CommObj *x = C(c, "MPI_Reduce"); root_ok(x, root, "MPI_Reduce"); if (n < 0) violation("mpi-usage", "negative count");
  coll_block(x, mk_red(X_REDUCE, s, d, n, t, op, root, x, "MPI_Reduce")); return 0; }
int MPI_Allreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  enter("MPI_Allreduce"); TR(tr.u(n*T(t, "MPI_Allreduce"))); CommObj *x = C(c, "MPI_Allreduce"); if (n < 0) violation("mpi-usage", "negative count");
  coll_block(x, mk_red(X_ALLREDUCE, s, d, n, t, op, -1, x, "MPI_Allreduce")); return 0; }
int MPI_Iallreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *r) {
  enter("MPI_Iallreduce"); CommObj *x = C(c, "MPI_Iallreduce"); if (n < 0) violation("mpi-usage", "negative count");
  coll_start(x, mk_red(X_ALLREDUCE, s, d, n, t, op, -1, x, "MPI_Iallreduce"), r); return 0; }
int MPI_Scan(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  enter("MPI_Scan"); CommObj *x = C(c, "MPI_Scan"); coll_block(x, mk_red(X_SCAN, s, d, n, t, op, -1, x, "MPI_Scan")); return 0; }
int MPI_Exscan(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  enter("MPI_Exscan"); CommObj *x = C(c, "MPI_Exscan"); coll_block(x, mk_red(X_EXSCAN, s, d, n, t, op, -1, x, "MPI_Exscan")); return 0; }
int MPI_Reduce_scatter(const void *s, void *d, const int *n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  enter("MPI_Reduce_scatter"); CommObj *x = C(c, "MPI_Reduce_scatter"); size_t tot = 0, before = 0, z = T(t, "MPI_Reduce_scatter");
  for (size_t i = 0; i < x->sh->m.size(); i++) { if (n[i] < 0) violation("mpi-usage", "MPI_Reduce_scatter: negative count %d", n[i]); if ((int)i < x->myrank) before += n[i]; tot += n[i]; }
  CollEntry e = mk_red(X_RSB, s, d, tot, t, op, -1, x, "MPI_Reduce_scatter", (long)(z*n[x->myrank])); e.rbytes = z*n[x->myrank]; e.roff = { z*before };
  coll_block(x, std::move(e)); return 0; }
int MPI_Reduce_scatter_block(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  enter("MPI_Reduce_scatter_block"); CommObj *x = C(c, "MPI_Reduce_scatter_block");
  CollEntry e = mk_red(X_RSB, s, d, (size_t)n*x->sh->m.size(), t, op, -1, x, "MPI_Reduce_scatter_block"); e.rbytes = nbytes(n, t, "MPI_Reduce_scatter_block");
  coll_block(x, std::move(e)); return 0; }

static void recv_layout(CollEntry &e, CommObj *x, void *rb, const int *rc, const int *rd, int rn, MPI_Datatype rt, const char *fn) {
  size_t z = T(rt, fn); e.rbuf = rb;
  for (size_t i = 0; i < x->sh->m.size(); i++) {
    int n = rc ? rc[i] : rn; long off = rd ? rd[i] : (long)i*rn;
    if (n < 0) violation("mpi-usage", "%s: negative receive count %d", fn, n);
    e.rlen.push_back(z*n); e.roff.push_back(z*(size_t)off);
    if (n && rd && rd[i] < 0) violation("mpi-usage", "%s: negative displacement", fn);
    if (n) addressable((char *)rb + z*off, z*n, fn, "receive");
  }
  for (size_t i = 0; i < e.rlen.size(); i++) for (size_t j = 0; j < i; j++)
    if (overlap((char *)0 + 64 + e.roff[i], e.rlen[i], (char *)0 + 64 + e.roff[j], e.rlen[j])) violation("mpi-usage", "%s: receive blocks overlap", fn);
}
static int gatherv(int kind, const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *rd, int rn, MPI_Datatype rt, int root, MPI_Comm c, const char *fn) {
  enter(fn); CommObj *x = C(c, fn); if (kind == X_GATHER) root_ok(x, root, fn);
  TR(if (sb != MPI_IN_PLACE) { size_t by = sn*T(st, fn); tr.u(by); tr.bytes(sb, by); });
  CollEntry e; e.kind = kind; e.root = kind == X_GATHER ? root : -1;
  bool gets = kind == X_ALLGATHER || x->myrank == root;
  if (gets) recv_layout(e, x, rb, rc, rd, rn, rt, fn);
  if (sb == MPI_IN_PLACE) { if (!gets) violation("mpi-usage", "%s: MPI_IN_PLACE away from the root", fn); grab(e, (char *)rb + e.roff[x->myrank], e.rlen[x->myrank], fn); }
  else {
    size_t by = nbytes(sn, st, fn);
    if (gets) for (size_t i = 0; i < e.rlen.size(); i++) if (overlap(sb, by, (char *)rb + e.roff[i], e.rlen[i])) violation("mpi-usage", "%s: send and receive buffers overlap", fn);
    grab(e, sb, by, fn);
  }
  coll_block(x, std::move(e)); return 0;
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv(X_GATHER, sb, sn, st, rb, 0, 0, rn, rt, root, c, "MPI_Gather"); }
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv(X_GATHER, sb, sn, st, rb, rc, rd, 0, rt, root, c, "MPI_Gatherv"); }
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) { return gatherv(X_ALLGATHER, sb, sn, st, rb, 0, 0, rn, rt, 0, c, "MPI_Allgather"); }
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { return gatherv(X_ALLGATHER, sb, sn, st, rb, rc, rd, 0, rt, 0, c, "MPI_Allgatherv"); }
static int scatterv(const void *sb, const int *sc, const int *sd, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, const char *fn) {
  enter(fn); CommObj *x = C(c, fn); root_ok(x, root, fn);
  CollEntry e; e.kind = X_SCATTER; e.root = root; e.rbuf = rb; e.rbytes = rb == MPI_IN_PLACE ? 0 : nbytes(rn, rt, fn);
  if (x->myrank == root) {
    size_t z = T(st, fn);
    for (size_t i = 0; i < x->sh->m.size(); i++) {
      size_t n = z*(sc ? sc[i] : sn), off = z*(sd ? (size_t)sd[i] : i*sn);
      e.soff.push_back(e.data.size());
      if (rb == MPI_IN_PLACE && (int)i == root) n = 0;
      e.slen.push_back(n); addressable((char *)sb + off, n, fn, "send");
      e.data.resize(e.data.size() + n); if (n) raw_copy(e.data.data() + e.soff[i], (char *)sb + off, n);
    }
  }
  if (rb != MPI_IN_PLACE) addressable(rb, e.rbytes, fn, "receive");
  coll_block(x, std::move(e)); return 0;
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatterv(sb, 0, 0, sn, st, rb, rn, rt, root, c, "MPI_Scatter"); }
int MPI_Scatterv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatterv(sb, sc, sd, 0, st, rb, rn, rt, root, c, "MPI_Scatterv"); }
static CollEntry mk_a2a(const void *sb, const int *sc, const int *sd, int sn, size_t sz, const size_t *szs,
                        void *rb, const int *rc, const int *rd, int rn, size_t rz, const size_t *rzs, CommObj *x, const char *fn) {
  CollEntry e; e.kind = X_ALLTOALL; e.rbuf = rb; size_t n = x->sh->m.size();
  for (size_t i = 0; i < n; i++) {
    int cnt = rc ? rc[i] : rn; if (cnt < 0) violation("mpi-usage", "%s: negative receive count %d", fn, cnt);
    if (cnt && rd && rd[i] < 0) violation("mpi-usage", "%s: negative displacement", fn);
    size_t len = (rzs ? rzs[i] : rz)*(size_t)cnt; size_t off = rzs ? (size_t)rd[i] : rz*(rd ? (size_t)rd[i] : i*(size_t)rn);
    e.rlen.push_back(len); e.roff.push_back(off); if (len) addressable((char *)rb + off, len, fn, "receive");
  }
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++)
    if (e.rlen[i] && e.rlen[j] && e.roff[i] < e.roff[j]+e.rlen[j] && e.roff[j] < e.roff[i]+e.rlen[i]) violation("mpi-usage", "%s: receive blocks overlap", fn);
  bool inplace = sb == MPI_IN_PLACE;
  for (size_t i = 0; i < n; i++) {
    int cnt = inplace ? 0 : sc ? sc[i] : sn; if (cnt < 0) violation("mpi-usage", "%s: negative send count %d", fn, cnt);
    if (!inplace && cnt && sd && sd[i] < 0) violation("mpi-usage", "%s: negative displacement", fn);
    size_t len = inplace ? e.rlen[i] : (szs ? szs[i] : sz)*(size_t)cnt;
    size_t off = inplace ? e.roff[i] : szs ? (size_t)sd[i] : sz*(sd ? (size_t)sd[i] : i*(size_t)sn);
    const char *p = (const char *)(inplace ? rb : sb) + off;
    if (!inplace) for (size_t j = 0; j < n; j++) if (overlap(p, len, (char *)rb + e.roff[j], e.rlen[j])) violation("mpi-usage", "%s: send and receive buffers overlap", fn);
    R[cur].data += len; e.soff.push_back(e.data.size()); e.slen.push_back(len); if (len) addressable(p, len, fn, "send");
    e.data.resize(e.data.size() + len); if (len) raw_copy(e.data.data() + e.soff[i], p, len);
  }
  return e;
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) {
  enter("MPI_Alltoall"); CommObj *x = C(c, "MPI_Alltoall"); size_t sz = sb == MPI_IN_PLACE ? 0 : T(st, "MPI_Alltoall");
  coll_block(x, mk_a2a(sb, 0, 0, sn, sz, 0, rb, 0, 0, rn, T(rt, "MPI_Alltoall"), 0, x, "MPI_Alltoall")); return 0; }
int MPI_Alltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) {
  enter("MPI_Alltoallv"); CommObj *x = C(c, "MPI_Alltoallv"); size_t sz = sb == MPI_IN_PLACE ? 0 : T(st, "MPI_Alltoallv");
  TR(for (size_t i = 0; i < x->sh->m.size(); i++) { tr.u(sc[i]*sz); tr.u(sc[i] ? sd[i] : 0); tr.u(rc[i]*sz); tr.u(rc[i] ? rd[i] : 0); tr.bytes((const char *)sb + sd[i]*sz, sc[i]*sz); });
  coll_block(x, mk_a2a(sb, sc, sd, 0, sz, 0, rb, rc, rd, 0, T(rt, "MPI_Alltoallv"), 0, x, "MPI_Alltoallv")); return 0; }
int MPI_Ialltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *r) {
  enter("MPI_Ialltoallv"); CommObj *x = C(c, "MPI_Ialltoallv"); size_t sz = sb == MPI_IN_PLACE ? 0 : T(st, "MPI_Ialltoallv");
  coll_start(x, mk_a2a(sb, sc, sd, 0, sz, 0, rb, rc, rd, 0, T(rt, "MPI_Ialltoallv"), 0, x, "MPI_Ialltoallv"), r); return 0; }
int MPI_Alltoallw(const void *sb, const int *sc, const int *sd, const MPI_Datatype *st, void *rb, const int *rc, const int *rd, const MPI_Datatype *rt, MPI_Comm c) {
  enter("MPI_Alltoallw"); CommObj *x = C(c, "MPI_Alltoallw"); std::vector<size_t> a, b;
  for (size_t i = 0; i < x->sh->m.size(); i++) { a.push_back(sb == MPI_IN_PLACE ? 0 : T(st[i], "MPI_Alltoallw")); b.push_back(T(rt[i], "MPI_Alltoallw")); }
  coll_block(x, mk_a2a(sb, sc, sd, 0, 0, a.data(), rb, rc, rd, 0, 0, b.data(), x, "MPI_Alltoallw")); return 0; }

int MPI_Type_size(MPI_Datatype t, int *n) { *n = (int)T(t, "MPI_Type_size"); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = (MPI_Aint)T(t, "MPI_Type_get_extent"); return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) {
  enter("MPI_Type_contiguous"); int k; size_t z = T(t, "MPI_Type_contiguous", &k);
  R[cur].types.emplace_back(); TypeObj &x = R[cur].types.back(); x.size = (int)(z*n); x.kind = K_DERIVED; x.magic = MAGIC_T; x.rank = cur; x.freed = false;
  *o = (MPI_Datatype)&x; return 0;
}
int MPI_Type_commit(MPI_Datatype *t) { T(*t, "MPI_Type_commit"); return 0; }
int MPI_Type_free(MPI_Datatype *t) {
  for (auto &o : R[cur].types) if ((MPI_Datatype)&o == *t) { if (o.freed) violation("mpi-usage", "MPI_Type_free twice"); o.freed = true; *t = MPI_DATATYPE_NULL; return 0; }
  violation("mpi-usage", "MPI_Type_free: invalid datatype");
}
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
} // extern C
