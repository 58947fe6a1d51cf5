// selftest: small programs over (nearly) every call that vmpi implements.  The same source runs on a real MPI (-DNATIVE) and on vmpi
// under all 64 uniform policies; every rank's log must be the same.
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <numeric>
#include <algorithm>
typedef std::vector<int> V; typedef std::string S;
static S str(const V &v) { S s; for (int x : v) s += std::to_string(x) + ","; return s; }
struct T {
  int me, np; MPI_Comm w; S log;
  void out(const char *n, const V &v) { log += S(n) + " " + str(v) + "; "; }
  V mk(int n, int k = 0) { V v(n); for (int i = 0; i < n; i++) v[i] = 1000*me + 10*i + k; return v; }
  // ---- point to point
  void p2p_ring(int mode) {
    int to = (me+1)%np, from = (me+np-1)%np; V s = mk(3+me), r(3+from, -1); MPI_Request q[2]; MPI_Status st[2];
    MPI_Irecv(r.data(), 3+from, MPI_INT, from, 5, w, &q[0]);
    if (mode == 0) MPI_Isend(s.data(), 3+me, MPI_INT, to, 5, w, &q[1]); else if (mode == 1) MPI_Issend(s.data(), 3+me, MPI_INT, to, 5, w, &q[1]);
    else { MPI_Barrier(w); MPI_Irsend(s.data(), 3+me, MPI_INT, to, 5, w, &q[1]); }
    MPI_Waitall(2, q, st); int c; MPI_Get_count(&st[0], MPI_INT, &c); out("ring", r); out("st", {c, st[0].MPI_SOURCE, st[0].MPI_TAG, q[0] == MPI_REQUEST_NULL, q[1] == MPI_REQUEST_NULL});
  }
  void p2p_order() {   // messages of one pair do not overtake, also with different tags received in another order
    if (np < 2) return;
    if (me == 0) for (int k = 0; k < 6; k++) { V s(2, k); MPI_Request q; MPI_Isend(s.data(), 2, MPI_INT, 1, k%2, w, &q); MPI_Wait(&q, MPI_STATUS_IGNORE); }
    if (me == 1) { V all(12, -1); MPI_Request q[6]; for (int k = 0; k < 6; k++) MPI_Irecv(&all[2*k], 2, MPI_INT, 0, k < 3 ? 1 : 0, w, &q[k]); MPI_Waitall(6, q, MPI_STATUSES_IGNORE); out("order", all); }
  }
  void p2p_blocking() {
    if (np < 2) return; V r(8, -1); MPI_Status st; int c;
    if (me == 0) { V s = mk(4); MPI_Send(s.data(), 4, MPI_INT, 1, 3, w); MPI_Ssend(s.data(), 2, MPI_INT, 1, 4, w); MPI_Recv(r.data(), 8, MPI_INT, 1, MPI_ANY_TAG, w, &st); MPI_Get_count(&st, MPI_INT, &c); out("b", r); out("st", {c, st.MPI_TAG}); }
    if (me == 1) { MPI_Probe(0, MPI_ANY_TAG, w, &st); MPI_Get_count(&st, MPI_INT, &c); out("probe", {c, st.MPI_TAG, st.MPI_SOURCE}); MPI_Recv(r.data(), 8, MPI_INT, 0, 3, w, &st); out("b", r); MPI_Recv(r.data(), 8, MPI_INT, 0, 4, w, MPI_STATUS_IGNORE); out("b", r); V s = mk(5); MPI_Send(s.data(), 5, MPI_INT, 0, 9, w); }
    int f = 0; MPI_Status s2; MPI_Iprobe(MPI_ANY_SOURCE, 77, w, &f, &s2); out("noprobe", {f});
  }
  void sendrecv() {
    int to = (me+1)%np, from = (me+np-1)%np; V s = mk(2), r(2, -1); MPI_Status st; MPI_Sendrecv(s.data(), 2, MPI_INT, to, 1, r.data(), 2, MPI_INT, from, 1, w, &st); out("sr", r);
    MPI_Sendrecv_replace(s.data(), 2, MPI_INT, from, 2, to, 2, w, &st); out("srr", s); out("st", {st.MPI_SOURCE, st.MPI_TAG});
    MPI_Sendrecv(s.data(), 2, MPI_INT, me ? MPI_PROC_NULL : 0, 1, r.data(), 2, MPI_INT, me ? MPI_PROC_NULL : 0, 1, w, &st); out("null", r); out("st", {st.MPI_SOURCE == (me ? MPI_PROC_NULL : 0)});
  }
  void anysource() {
    V s = mk(1); MPI_Request q; MPI_Isend(s.data(), 1, MPI_INT, 0, 6, w, &q);
    if (me == 0) { V r; for (int k = 0; k < np; k++) { int x; MPI_Status st; MPI_Recv(&x, 1, MPI_INT, MPI_ANY_SOURCE, 6, w, &st); if (x != 1000*st.MPI_SOURCE) log += "BAD"; r.push_back(x); } std::sort(r.begin(), r.end()); out("any", r); }
    MPI_Wait(&q, MPI_STATUS_IGNORE);
  }
  template<class F> void completion(F done) {   // a star of receives, completed by 'done'
    int n = np; std::vector<V> r(n, V(3, -1)); std::vector<MPI_Request> q(2*n); V s = mk(3);
    for (int i = 0; i < n; i++) MPI_Irecv(r[i].data(), 3, MPI_INT, i, 8, w, &q[i]);
    for (int i = 0; i < n; i++) MPI_Isend(s.data(), 3, MPI_INT, i, 8, w, &q[n+i]);
    done(q); for (auto &x : r) out("r", x); for (auto &x : q) if (x != MPI_REQUEST_NULL) log += "ACTIVE";
  }
  void wait_any() { completion([&](std::vector<MPI_Request> &q) { V seen; for (size_t k = 0; k < q.size(); k++) { int i; MPI_Status st; MPI_Waitany(q.size(), q.data(), &i, &st); if (i < np && st.MPI_SOURCE != i) log += "BAD"; seen.push_back(i); } int i; MPI_Waitany(q.size(), q.data(), &i, MPI_STATUS_IGNORE); std::sort(seen.begin(), seen.end()); out("seen", seen); out("undef", {i == MPI_UNDEFINED}); }); }
  void wait_some() { completion([&](std::vector<MPI_Request> &q) { V seen; while (1) { V idx(q.size()); std::vector<MPI_Status> st(q.size()); int n; MPI_Waitsome(q.size(), q.data(), &n, idx.data(), st.data()); if (n == MPI_UNDEFINED) break; for (int k = 0; k < n; k++) { seen.push_back(idx[k]); if (idx[k] < np && st[k].MPI_SOURCE != idx[k]) log += "BAD"; } } std::sort(seen.begin(), seen.end()); out("seen", seen); }); }
  void test_any() { completion([&](std::vector<MPI_Request> &q) { size_t n = 0; while (n < q.size()) { int i, f; MPI_Testany(q.size(), q.data(), &i, &f, MPI_STATUS_IGNORE); if (f) n++; } int i, f; MPI_Testany(q.size(), q.data(), &i, &f, MPI_STATUS_IGNORE); out("undef", {f, i == MPI_UNDEFINED}); }); }
  void test_some() { completion([&](std::vector<MPI_Request> &q) { size_t n = 0; while (n < q.size()) { V idx(q.size()); int k; MPI_Testsome(q.size(), q.data(), &k, idx.data(), MPI_STATUSES_IGNORE); n += k; } }); }
  void test_all() { completion([&](std::vector<MPI_Request> &q) { int f = 0; while (!f) MPI_Testall(q.size(), q.data(), &f, MPI_STATUSES_IGNORE); }); }
  void test_one() { completion([&](std::vector<MPI_Request> &q) { for (auto &x : q) { int f = 0; while (!f) MPI_Test(&x, &f, MPI_STATUS_IGNORE); } int f = 0; MPI_Request z = MPI_REQUEST_NULL; MPI_Test(&z, &f, MPI_STATUS_IGNORE); out("null", {f}); }); }
  void persistent() {
    int to = (me+1)%np, from = (me+np-1)%np; V s(2), r(2, -1); MPI_Request q[2]; MPI_Send_init(s.data(), 2, MPI_INT, to, 2, w, &q[0]); MPI_Recv_init(r.data(), 2, MPI_INT, from, 2, w, &q[1]);
    for (int k = 0; k < 3; k++) { V m = mk(2, k); std::copy(m.begin(), m.end(), s.begin()); if (k == 1) { MPI_Start(&q[1]); MPI_Start(&q[0]); } else MPI_Startall(2, q); MPI_Waitall(2, q, MPI_STATUSES_IGNORE); out("p", r); if (q[0] == MPI_REQUEST_NULL) log += "BAD"; }
    MPI_Request_free(&q[0]); MPI_Request_free(&q[1]); out("freed", {q[0] == MPI_REQUEST_NULL});
  }
  void cancel() { int x; MPI_Request q; MPI_Status st; int f; MPI_Irecv(&x, 1, MPI_INT, me, 99, w, &q); MPI_Cancel(&q); MPI_Wait(&q, &st); MPI_Test_cancelled(&st, &f); out("cancelled", {f}); }
  // ---- collectives
  void reductions() {
    V s = mk(3), r(3, -1); std::vector<double> d(3), e(3); for (int i = 0; i < 3; i++) d[i] = me*1.5 - i;
    MPI_Op ops[] = { MPI_SUM, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LOR, MPI_LAND, MPI_BOR, MPI_BAND, MPI_BXOR, MPI_LXOR }; V small = { me+1, me & 1, me == 2 };
    for (auto op : ops) { MPI_Allreduce(small.data(), r.data(), 3, MPI_INT, op, w); out("ar", r); }
    MPI_Allreduce(d.data(), e.data(), 3, MPI_DOUBLE, MPI_SUM, w); out("ard", {(int)(e[0]*2), (int)(e[1]*2), (int)(e[2]*2)});
    MPI_Allreduce(MPI_IN_PLACE, s.data(), 3, MPI_INT, MPI_SUM, w); out("arip", s);
    for (int root = 0; root < np; root++) { r = V(3, -1); MPI_Reduce(small.data(), r.data(), 3, MPI_INT, MPI_SUM, root, w); out("red", r); }
    r = small; if (me == 0) MPI_Reduce(MPI_IN_PLACE, r.data(), 3, MPI_INT, MPI_MAX, 0, w); else MPI_Reduce(r.data(), 0, 3, MPI_INT, MPI_MAX, 0, w); out("redip", r);
    MPI_Scan(small.data(), r.data(), 3, MPI_INT, MPI_SUM, w); out("scan", r); r = V(3, -7); MPI_Exscan(small.data(), r.data(), 3, MPI_INT, MPI_SUM, w); if (me) out("exscan", r);
    V big(2*np); for (int i = 0; i < 2*np; i++) big[i] = me*i; V two(2); MPI_Reduce_scatter_block(big.data(), two.data(), 2, MPI_INT, MPI_SUM, w); out("rsb", two);
    V cnt(np); for (int i = 0; i < np; i++) cnt[i] = i+1; V bg(np*(np+1)/2); std::iota(bg.begin(), bg.end(), me); V rs(me+1); MPI_Reduce_scatter(bg.data(), rs.data(), cnt.data(), MPI_INT, MPI_SUM, w); out("rs", rs);
    struct { double v; int i; } a = { (double)((me*7+3)%5), me }, b; MPI_Allreduce(&a, &b, 1, MPI_DOUBLE_INT, MPI_MINLOC, w); out("minloc", {(int)b.v, b.i}); MPI_Allreduce(&a, &b, 1, MPI_DOUBLE_INT, MPI_MAXLOC, w); out("maxloc", {(int)b.v, b.i});
  }
  void gathers() {
    V s = mk(2), r(2*np, -1); MPI_Allgather(s.data(), 2, MPI_INT, r.data(), 2, MPI_INT, w); out("ag", r);
    MPI_Allgather(s.data(), 2*sizeof(int), MPI_BYTE, r.data(), 2, MPI_INT, w); out("agb", r);
    for (int root = 0; root < np; root++) { r = V(2*np, -1); MPI_Gather(s.data(), 2, MPI_INT, me == root ? r.data() : 0, 2, MPI_INT, root, w); out("g", r); V x(2, -1); for (int i = 0; i < 2*np; i++) r[i] = root*100 + i; MPI_Scatter(me == root ? r.data() : 0, 2, MPI_INT, x.data(), 2, MPI_INT, root, w); out("s", x); }
    V cnt(np), dis(np); int tot = 0; for (int i = 0; i < np; i++) { cnt[i] = i%3; dis[i] = tot; tot += cnt[i] + 1; } V mine = mk(cnt[me]+1), all(tot+1, -1);
    MPI_Allgatherv(mine.data(), cnt[me], MPI_INT, all.data(), cnt.data(), dis.data(), MPI_INT, w); out("agv", all);
    all = V(tot+1, -1); MPI_Gatherv(mine.data(), cnt[me], MPI_INT, all.data(), cnt.data(), dis.data(), MPI_INT, np-1, w); out("gv", all);
    std::iota(all.begin(), all.end(), 0); V x(3, -1); MPI_Scatterv(all.data(), cnt.data(), dis.data(), MPI_INT, x.data(), cnt[me], MPI_INT, 0, w); out("sv", x);
    V ip(np, -1); ip[me] = me*me; MPI_Allgather(MPI_IN_PLACE, 0, MPI_INT, ip.data(), 1, MPI_INT, w); out("agip", ip);
  }
  void bcasts() { for (int root = 0; root < np; root++) { V s = mk(3); MPI_Bcast(s.data(), 3, MPI_INT, root, w); out("bc", s); MPI_Request q; V t = mk(2, 5); MPI_Ibcast(t.data(), 2, MPI_INT, root, w, &q); MPI_Wait(&q, MPI_STATUS_IGNORE); out("ibc", t); } }
  void alltoalls() {
    V s = mk(2*np), r(2*np, -1); MPI_Alltoall(s.data(), 2, MPI_INT, r.data(), 2, MPI_INT, w); out("a2a", r);
    V sc(np), sd(np), rc(np), rd(np); int so = 0, ro = 0; for (int i = 0; i < np; i++) { sc[i] = (me+2*i)%4; sd[i] = so; so += sc[i]; rc[i] = (i+2*me)%4; rd[i] = ro; ro += rc[i]; }
    s = mk(so+1); r = V(ro+1, -1); MPI_Alltoallv(s.data(), sc.data(), sd.data(), MPI_INT, r.data(), rc.data(), rd.data(), MPI_INT, w); out("a2av", r);
    r = V(ro+1, -1); MPI_Request q; MPI_Ialltoallv(s.data(), sc.data(), sd.data(), MPI_INT, r.data(), rc.data(), rd.data(), MPI_INT, w, &q); MPI_Wait(&q, MPI_STATUS_IGNORE); out("ia2av", r);
    std::vector<MPI_Datatype> ty(np, MPI_INT); V sb = sd, rb = rd; for (int i = 0; i < np; i++) { sb[i] *= sizeof(int); rb[i] *= sizeof(int); } r = V(ro+1, -1);
    MPI_Alltoallw(s.data(), sc.data(), sb.data(), ty.data(), r.data(), rc.data(), rb.data(), ty.data(), w); out("a2aw", r);
  }
  void nonblocking() {   // two outstanding collectives and a message between them
    V a = mk(2), b(2, -1); MPI_Request q[3]; MPI_Iallreduce(a.data(), b.data(), 2, MPI_INT, MPI_SUM, w, &q[0]); MPI_Ibarrier(w, &q[1]); V c = { me == 0 ? 42 : 0 }; MPI_Ibcast(c.data(), 1, MPI_INT, 0, w, &q[2]);
    int to = (me+1)%np, from = (me+np-1)%np, x = me, y = -1; MPI_Sendrecv(&x, 1, MPI_INT, to, 0, &y, 1, MPI_INT, from, 0, w, MPI_STATUS_IGNORE); MPI_Waitall(3, q, MPI_STATUSES_IGNORE); out("nb", b); out("nb", c); out("nb", {y});
  }
  // ---- communicators, groups, types
  void comms() {
    MPI_Comm d, e, f; MPI_Comm_dup(w, &d); int k; MPI_Comm_compare(w, d, &k); out("cmp", {k == MPI_CONGRUENT}); MPI_Comm_compare(w, w, &k); out("cmp", {k == MPI_IDENT});
    MPI_Comm_split(d, me % 2, -me, &e); int r, n; MPI_Comm_rank(e, &r); MPI_Comm_size(e, &n); int sum; MPI_Allreduce(&me, &sum, 1, MPI_INT, MPI_SUM, e); out("split", {r, n, sum});
    MPI_Comm_split(d, me == 0 ? MPI_UNDEFINED : 1, 0, &f); out("undef", {f == MPI_COMM_NULL}); if (f != MPI_COMM_NULL) { MPI_Comm_rank(f, &r); out("f", {r}); MPI_Comm_free(&f); }
    int x = me, y = -1, z = -1; MPI_Request q[2]; MPI_Irecv(&y, 1, MPI_INT, me, 1, d, &q[0]); MPI_Irecv(&z, 1, MPI_INT, me, 1, w, &q[1]); MPI_Send(&x, 1, MPI_INT, me, 1, w); x = 100+me; MPI_Send(&x, 1, MPI_INT, me, 1, d); MPI_Waitall(2, q, MPI_STATUSES_IGNORE); out("ctx", {y, z});
    MPI_Comm_free(&e); MPI_Comm_free(&d); out("freed", {d == MPI_COMM_NULL});
    MPI_Comm_split_type(w, MPI_COMM_TYPE_SHARED, 0, MPI_INFO_NULL, &d); MPI_Comm_size(d, &n); out("shared", {n}); MPI_Comm_free(&d);
    MPI_Comm_rank(MPI_COMM_SELF, &r); MPI_Comm_size(MPI_COMM_SELF, &n); out("self", {r, n}); MPI_Comm_test_inter(w, &k); out("inter", {k});
  }
  void groups() {
    MPI_Group g, h, u, i, d, ex, ra; MPI_Comm_group(w, &g); int n, r; MPI_Group_size(g, &n); MPI_Group_rank(g, &r); out("g", {n, r});
    V lo; for (int k = np-1; k >= 0; k -= 2) lo.push_back(k); MPI_Group_incl(g, lo.size(), lo.data(), &h); MPI_Group_size(h, &n); MPI_Group_rank(h, &r); out("h", {n, r == MPI_UNDEFINED ? -1 : r});
    V one = {0}; MPI_Group_excl(g, 1, one.data(), &ex); MPI_Group_union(h, ex, &u); MPI_Group_intersection(h, ex, &i); MPI_Group_difference(g, h, &d); int rg[1][3] = {{np-1,0,-1}}; MPI_Group_range_incl(g, 1, rg, &ra);
    MPI_Group all[] = { g, h, ex, u, i, d, ra }; for (auto x : all) { MPI_Group_size(x, &n); V a(n), b(n); std::iota(a.begin(), a.end(), 0); MPI_Group_translate_ranks(x, n, a.data(), g, b.data()); out("tr", b); }
    MPI_Comm c; MPI_Comm_create(w, h, &c); out("create", {c == MPI_COMM_NULL}); if (c != MPI_COMM_NULL) { MPI_Comm_rank(c, &r); out("cr", {r}); int s; MPI_Allreduce(&me, &s, 1, MPI_INT, MPI_SUM, c); out("cs", {s}); MPI_Comm_free(&c); }
    MPI_Group_rank(h, &r); if (r != MPI_UNDEFINED) for (int k = 0; k < 2; k++) { MPI_Comm_create_group(w, h, 3, &c); MPI_Comm_rank(c, &r); int s; MPI_Allreduce(&me, &s, 1, MPI_INT, MPI_SUM, c); out("cg", {r, s}); MPI_Comm_free(&c); }
    MPI_Comm_create(w, MPI_GROUP_EMPTY, &c); out("empty", {c == MPI_COMM_NULL});
    for (auto x : { &g, &h, &u, &i, &d, &ex, &ra }) if (*x != MPI_GROUP_EMPTY) MPI_Group_free(x);
  }
  void types() {
    MPI_Datatype t, u; MPI_Type_contiguous(3, MPI_INT, &t); MPI_Type_commit(&t); int sz; MPI_Aint lb, ext; MPI_Type_size(t, &sz); MPI_Type_get_extent(t, &lb, &ext); out("ty", {sz, (int)lb, (int)ext});
    V s = mk(6), r(6*np, -1); MPI_Allgather(s.data(), 2, t, r.data(), 2, t, w); out("tg", r); MPI_Type_contiguous(2, t, &u); MPI_Type_commit(&u); MPI_Bcast(s.data(), 1, u, 0, w); out("tb", s); MPI_Type_free(&u); MPI_Type_free(&t); out("null", {t == MPI_DATATYPE_NULL});
    MPI_Type_size(MPI_DOUBLE, &sz); out("d", {sz}); MPI_Type_size(MPI_LONG_LONG_INT, &sz); out("ll", {sz}); MPI_Type_size(MPI_BYTE, &sz); out("by", {sz});
  }
  void misc() { int f, v; MPI_Initialized(&f); MPI_Finalized(&v); out("init", {f, v}); double a = MPI_Wtime(), b = MPI_Wtime(); out("time", {b >= a, MPI_Wtick() > 0}); MPI_Barrier(w); }
  S run(int t) {
    log.clear();
    switch (t) { case 0: p2p_ring(0); break; case 1: p2p_ring(1); break; case 2: p2p_ring(2); break; case 3: p2p_order(); break; case 4: p2p_blocking(); break; case 5: sendrecv(); break; case 6: anysource(); break; case 7: wait_any(); break; case 8: wait_some(); break;
      case 9: test_any(); break; case 10: test_some(); break; case 11: test_all(); break; case 12: test_one(); break; case 13: persistent(); break; case 14: cancel(); break; case 15: reductions(); break; case 16: gathers(); break; case 17: bcasts(); break;
      case 18: alltoalls(); break; case 19: nonblocking(); break; case 20: comms(); break; case 21: groups(); break; case 22: types(); break; case 23: misc(); break; }
    return log;
  }
};
enum { NTEST = 24 };
#ifdef NATIVE
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); T t; t.w = MPI_COMM_WORLD; MPI_Comm_rank(t.w, &t.me); MPI_Comm_size(t.w, &t.np);
  for (int k = 0; k < NTEST; k++) { S s = t.run(k); char b[64]; snprintf(b, 64, "%s.%d.%d.%d", argv[1], t.np, k, t.me); FILE *f = fopen(b, "w"); fputs(s.c_str(), f); fclose(f); MPI_Barrier(t.w); }
  MPI_Finalize(); return 0;
}
#else
#include "vmpi.h"
static int test; static S logs[16];
static void rank(void *, int r) { T t; t.w = MPI_COMM_WORLD; MPI_Init(0, 0); MPI_Comm_rank(t.w, &t.me); MPI_Comm_size(t.w, &t.np); logs[r] = t.run(test); MPI_Finalize(); }
int main(int argc, char **argv) {   // selftest PREFIX: compares with the files that the native program wrote
  vmpi::init(); long runs = 0, bad = 0;
  for (int np = 1; np <= 4; np++) for (test = 0; test < NTEST; test++) {
    S want[16]; for (int r = 0; r < np; r++) { char b[64]; snprintf(b, 64, "%s.%d.%d.%d", argv[1], np, test, r); FILE *f = fopen(b, "r"); if (!f) { printf("no %s\n", b); return 2; } int c; while ((c = fgetc(f)) != EOF) want[r] += (char)c; fclose(f); }
    for (int p = 0; p < 64; p++) {
      vmpi::Policy pol = {}; pol.send = p & 1; pol.waitany = p >> 1 & 1; pol.coll = p >> 2 & 1; pol.order = p >> 3 & 1; pol.deliv = p >> 4 & 1; pol.yield = p >> 5 & 1; pol.fill = 0xA5;
      vmpi::Explore ex; vmpi::Fault fa; vmpi::Result res; for (auto &l : logs) l.clear(); vmpi::run(np, rank, 0, pol, ex, fa, res); runs++;
      if (res.violation) { bad++; printf("np %d test %d policy %d: %s %s\n", np, test, p, res.vclass.c_str(), res.msg.c_str()); break; }
      bool diff = false; for (int r = 0; r < np; r++) if (logs[r] != want[r]) { printf("np %d test %d policy %d rank %d:\n  vmpi %s\n  real %s\n", np, test, p, r, logs[r].c_str(), want[r].c_str()); diff = true; break; }
      if (diff) { bad++; break; }
    }
  }
  printf("selftest: %d programs, %ld executions, %ld differences\n", NTEST*4, runs, bad); return bad ? 1 : 0;
}
#endif
