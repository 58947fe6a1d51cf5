KD = "-DFFT_KISS -DFFT_DOUBLE"
# ---------------------------------------------------------------- C01
seed("c01-group-closure", "C01",
 [("remap3d.cpp", "          if (collide(&outarray[iproc],&inarray[jproc],&overlap)) {", "          if (jproc > me && collide(&outarray[iproc],&inarray[jproc],&overlap)) {")],
 MAIN % """  V n = {6,4,5}, w = whole(n), h0 = w, h1 = w; h0[5] = 2; h1[4] = 3;
  // ranks 0 and 2 own the input, rank 1 the output: they only meet through rank 1
  check_remap(MPI_COMM_WORLD, n, me == 0 ? h0 : me == 2 ? h1 : none(), me == 1 ? w : none(), 1, 0, 1, 0);
  check_remap(MPI_COMM_WORLD, n, me == 2 ? h0 : me == 0 ? h1 : none(), me == 1 ? w : none(), 2, 1, 1, 2);""",
 "build 3 %s; run 3" % KD,
 "a collective remap between irregular tilings where two processes are linked only through a third one that they both send to",
 "the processes build different process groups for the all-to-all, so the remap fails, hangs or misplaces data")
seed("c01-permute2-n", "C01",
 [("pack3d.h", "      begin = &(data[nqty*slow+mid*nstride_plane]);\n      end = begin + nfast*nstride_line;\n      for (instart = begin; instart < end; instart += nstride_line) {\n        in = instart;\n        for (iqty = 0; iqty < nqty; iqty++) *(in++) = *(out++);\n      }\n    }\n  }\n}\n\n// ------",
   "      begin = &(data[nqty*slow+mid*nstride_plane]);\n      end = begin + nfast*nstride_line - nqty;\n      for (instart = begin; instart < end; instart += nstride_line) {\n        in = instart;\n        for (iqty = 0; iqty < nqty; iqty++) *(in++) = *(out++);\n      }\n      if (instart - nstride_line < begin) out += nqty;\n    }\n  }\n}\n\n// ------", 1)],
 MAIN % """  V n = {4,3,2}, a = whole(n), b = none();
  // the output of rank 1 is one point deep: lines of a single value
  V in = brick(n, {1,1,2}, me), out = brick(n, {1,2,1}, me);
  check_remap(MPI_COMM_WORLD, n, in, out, 3, 2, 0, 1); check_remap(MPI_COMM_WORLD, n, in, out, 4, 2, 1, 1);
  V m = {1,4,2}, i2 = brick(m, {1,2,1}, me), o2 = brick(m, {1,1,2}, me);
  check_remap(MPI_COMM_WORLD, m, i2, o2, 3, 2, 0, 1);""",
 "build 3 %s; run 2" % KD,
 "3 or more values per point, permutation 2, pointer packing, and an output tile with a line length of one point",
 "the values of such lines are not stored")
# ---------------------------------------------------------------- C02 / C03
seed("c02-layout-same", "C02",
 [("fft3d.cpp", "      in_jlo != out_jlo || in_jhi != out_jhi ||\n      in_klo != out_klo || in_khi != out_khi) flag = 1;\n  if (permute)", "      in_jlo != out_jlo || in_jhi != out_jhi ||\n      in_khi-in_klo != out_khi-out_klo) flag = 1;\n  if (permute)")],
 MAIN % """  V n = {4,3,4}; V in = brick(n, {1,1,2}, me), out = brick(n, {1,1,2}, 1-me); Opt o;
  check_fft(MPI_COMM_WORLD, n, in, out, 0, o, true); o.exch = 1; o.coll = 1; check_fft(MPI_COMM_WORLD, n, in, out, 0, o, false);""",
 "build 3 %s; run 2" % KD,
 "a 3d FFT without permutation whose input and output tiles have the same shape on every process but lie elsewhere in the slow dimension",
 "the backward FFT takes and delivers data in the wrong layout")
seed("c03-layout-min", "C03",
 [("fft2d.cpp", "  if (permute) flag = 1;\n  MPI_Allreduce(&flag,&allflag,1,MPI_INT,MPI_MAX,world);\n  if (allflag) inout_layout_same = 0;", "  if (permute) flag = 1;\n  MPI_Allreduce(&flag,&allflag,1,MPI_INT,MPI_MIN,world);\n  if (allflag) inout_layout_same = 0;")],
 MAIN % """  V n = {6,6}; V in = brick(n, {1,3}, me), out = brick(n, {1,3}, me == 0 ? 0 : 3-me); Opt o; o.coll = 0;
  check_fft(MPI_COMM_WORLD, n, in, out, 0, o, true); check_fft(MPI_COMM_WORLD, n, in, out, 0, o, false);""",
 "build 2 %s; run 3" % KD,
 "a 2d FFT where some process has the same input and output tile while others do not",
 "the backward FFT uses the forward remaps and returns data in the wrong places")
# ---------------------------------------------------------------- C04
seed("c04-scale-at-setup", "C04",
 [("fft3d.cpp", "  norm = 1.0/((bigint) nfast * nmid*nslow);", "  norm = scaled ? 1.0/((bigint) nfast * nmid*nslow) : 1.0;")],
 MAIN % """  V n = {4,3,2}, in = brick(n, {2,1,1}, me); Opt o; o.scale = 0; int fs, ss, rs; FFT *f = make(MPI_COMM_WORLD, n, in, in, 0, o, fs, ss, rs);
  auto a = field(n), b = a; for (auto &z : b) z *= 24.0;
  for (int pass = 0; pass < 2; pass++) { f->scaled = pass; std::vector<SC> x(2*fs+2);
    each(n, in, 0, [&](long g, long p) { x[2*p] = a[g].real(); x[2*p+1] = a[g].imag(); });
    f->compute(x.data(), x.data(), 1); f->compute(x.data(), x.data(), -1); compare(n, in, 0, x.data(), pass ? a : b, pass ? "scaled" : "unscaled"); }
  delete f;""",
 "build 3 %s; run 2" % KD, "scaling switched on after a setup with scaling off", "the backward FFT stays unscaled")
# ---------------------------------------------------------------- C05
DELAY = '''#include "kit.h"
%s
int main(int argc, char **argv) { start(&argc, &argv);
%s
return done(); }
'''
seed("c05-late-receives", "C05",
 [("remap3d.cpp", """    for (irecv = 0; irecv < nrecv; irecv++)
      MPI_Irecv(&recvbuf[recv_bufloc[irecv]],recv_size[irecv],
                MPI_FFT_SCALAR,recv_proc[irecv],0,
                world,&request[irecv]);

    // send all messages to other procs

    for (isend = 0; isend < nsend; isend++) {
""", """    // small messages arrive without a posted receive, so post those later

    for (irecv = 0; irecv < nrecv; irecv++)
      if (recv_size[irecv] > 64)
        MPI_Irecv(&recvbuf[recv_bufloc[irecv]],recv_size[irecv],
                  MPI_FFT_SCALAR,recv_proc[irecv],0,
                  world,&request[irecv]);

    // send all messages to other procs

    for (isend = 0; isend < nsend; isend++) {
"""), ("remap3d.cpp", "    // copy in -> recvbuf -> out for self data\n", """    for (irecv = 0; irecv < nrecv; irecv++)
      if (recv_size[irecv] <= 64)
        MPI_Irecv(&recvbuf[recv_bufloc[irecv]],recv_size[irecv],
                  MPI_FFT_SCALAR,recv_proc[irecv],0,
                  world,&request[irecv]);

    // copy in -> recvbuf -> out for self data
""")],
 DELAY % ("""extern "C" int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return PMPI_Ssend(b, n, t, d, tag, c); }
#include <signal.h>
#include <unistd.h>""", """  alarm(20); V n = {4,4,4}; Opt o; o.coll = 0; check_fft(MPI_COMM_WORLD, n, brick(n, {2,2,1}, me), brick(n, {1,2,2}, me), 0, o, true);"""),
 "build 3 %s; run 4" % KD, "an MPI library that does not buffer small blocking sends (synchronous MPI_Send)", "point-to-point remaps deadlock: every process waits in MPI_Send for a receive that is posted only after its sends")
seed("c05-isend-reuse", "C05",
 [("remap3d.cpp", """      pack(&in[send_offset[isend]],sendbuf,&packplan[isend]);
      MPI_Send(sendbuf,send_size[isend],MPI_FFT_SCALAR,
               send_proc[isend],0,world);
    }
""", """      pack(&in[send_offset[isend]],sendbuf,&packplan[isend]);
      if (send_size[isend] > 64)
        MPI_Send(sendbuf,send_size[isend],MPI_FFT_SCALAR,
                 send_proc[isend],0,world);
      else {
        // fire and forget small messages
        MPI_Request sendrequest;
        MPI_Isend(sendbuf,send_size[isend],MPI_FFT_SCALAR,
                  send_proc[isend],0,world,&sendrequest);
        MPI_Request_free(&sendrequest);
      }
    }
""")],
 DELAY % ("""// an MPI that starts to transfer nonblocking sends late: when the caller next waits
struct Op { const void *b; int n; MPI_Datatype t; int d, tag; MPI_Comm c; }; static std::vector<Op> q;
static void flush_ops() { for (auto &o : q) PMPI_Send(o.b, o.n, o.t, o.d, o.tag, o.c); q.clear(); }
extern "C" int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { q.push_back({b,n,t,d,tag,c}); *r = (MPI_Request)0; return 0; }
extern "C" int MPI_Request_free(MPI_Request *r) { *r = MPI_REQUEST_NULL; return 0; }
extern "C" int MPI_Waitany(int n, MPI_Request *r, int *i, MPI_Status *s) { flush_ops(); return PMPI_Waitany(n, r, i, s); }
extern "C" int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { flush_ops(); return MPI_SUCCESS; }
extern "C" int MPI_Barrier(MPI_Comm c) { flush_ops(); return PMPI_Barrier(c); }""", """  V n = {4,4,4}; Opt o; o.coll = 0; check_fft(MPI_COMM_WORLD, n, brick(n, {2,2,1}, me), brick(n, {1,2,2}, me), 0, o, true);"""),
 "build 3 %s; run 4" % KD, "an MPI library that has not copied the data of a small nonblocking send before the buffer is packed again", "the send buffer is overwritten while MPI still owns it: receivers get the wrong data")
# ---------------------------------------------------------------- C06
seed("c06-postfast-recvsize", "C06",
 [("fft3d.cpp", "            in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,\n            2,0,0,ssize,rsize);\n    sendsize = MAX(sendsize,ssize);\n    recvsize = MAX(recvsize,rsize);\n    remap_postfast", "            in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,\n            2,0,0,ssize,rsize);\n    sendsize = MAX(sendsize,ssize);\n    remap_postfast")],
 MAIN % """  V n = {4,6,5}; V in = whole(n); if (me == 0) in[1] = 2; else in[0] = 3; V out = brick(n, {1,1,2}, me); int fs, ss, rs; Opt o; o.mem = 0; o.coll = 0;
  FFT *f = make(MPI_COMM_WORLD, n, in, out, 0, o, fs, ss, rs); std::vector<SC> sb(ss+4000, 12345), rb(rs+4000, 12345); f->setup_memory(sb.data(), rb.data());
  std::vector<SC> x(2*fs+2); f->compute(x.data(), x.data(), 1); f->compute(x.data(), x.data(), -1);
  for (size_t i = rs; i < rb.size(); i++) if (rb[i] != 12345) { fail("receive buffer overrun", i, rs); break; }
  delete f;""",
 "build 3 %s; run 2" % KD, "a process whose input tile is larger than all its other tiles, different input and output layouts, a backward FFT", "the receive buffer is smaller than what the last remap of the backward FFT receives")
seed("c06-bricksize", "C06",
 [("fft2d.cpp", "  if (exchange) fftsize = MAX(fftsize,bricksize);", "  if (exchange && remap_preflag) fftsize = MAX(fftsize,bricksize);")],
 MAIN % """  V n = {4,8};
  V in = me == 0 ? whole(n) : V{0,3,0,-1}, out = in; int fs, ss, rs; Opt o; o.exch = 1; FFT *f = make(MPI_COMM_WORLD, n, in, out, 0, o, fs, ss, rs);
  V bt = brick(n, {f->npbrick1, f->npbrick2}, me); if (fs < size(bt)) fail("fftsize is smaller than the brick tile", fs, size(bt));
  std::vector<SC> x(2*fs+400, 12345); for (int i = 0; i < 2*fs; i++) x[i] = 1; f->compute(x.data(), x.data(), 1);
  for (size_t i = 2*fs; i < x.size(); i++) if (x[i] != 12345) { fail("data array overrun", i, 2*fs); break; }
  delete f;""",
 "build 2 %s; run 3" % KD, "exchange=brick, an input layout that already is pencils, and a process whose brick is larger than its pencils", "the FFT writes the brick past the end of an array of the reported size")
# ---------------------------------------------------------------- C07
seed("c07-kiss-radix3", "C07",
 [("kissfft.h", "        tw1 += fstride;\n        tw2 += fstride*2;\n\n", "        tw1 += fstride;\n        tw2 += fstride*2;\n        if (tw2 >= st->twiddles + st->nfft/2) tw2 -= st->nfft/2;\n\n")],
 MAIN % """  V n = {30,2}; Opt o; check_fft(MPI_COMM_WORLD, n, brick(n, {1,np}, me), brick(n, {1,np}, me), 0, o, true);
  n = {4,45}; check_fft(MPI_COMM_WORLD, n, brick(n, {1,np}, me), brick(n, {np,1}, me), 0, o, true);""",
 "build 2 %s; run 2" % KD, "KISS FFT and a length with a radix-3 stage over 5 or more points (15, 27, 30, 45, ...)", "such 1d transforms are wrong")
# ---------------------------------------------------------------- C08
seed("c08-timesetup-bcast", "C08",
 [("fft2d.cpp", "  MPI_Bcast(&timesetup,1,MPI_DOUBLE,0,world);\n", "")],
 DELAY % ("""#include <unistd.h>
static int calls; extern "C" double MPI_Wtime() { calls++; return me == 0 ? calls*0.001 : calls*0.001*400; }""",
 """  alarm(20); V n = {6,4}, t = brick(n, {1,np}, me); FFT *f = new FFT(MPI_COMM_WORLD, PREC); int fs, ss, rs;
  f->tune(n[0],n[1],t[0],t[1],t[2],t[3],t[0],t[1],t[2],t[3],0,fs,ss,rs,1,5,1.0,0);
  int a[4] = { f->ntrial, f->collective, f->exchange, f->packflag }, lo[4], hi[4]; MPI_Allreduce(a, lo, 4, MPI_INT, MPI_MIN, MPI_COMM_WORLD); MPI_Allreduce(a, hi, 4, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  for (int k = 0; k < 4; k++) if (lo[k] != hi[k]) fail("tuning differs between processes", lo[k], hi[k]);
  delete f;"""),
 "build 2 %s; run 2" % KD, "a time limit, and processes whose clocks measure the first setup differently", "processes plan different sequences of trials: they hang or end with different settings")
seed("c08-pack-best", "C08",
 [("fft3d.cpp", "  if (pstart >= 0) {\n    besttime = BIG;\n", "  if (pstart >= 0) {\n    pbest = pdefault;\n")],
 DELAY % ("""// every measured interval is longer than the one before, except in the trial with the second packing style
static long calls; extern "C" double MPI_Wtime() { static double t; calls++; static const int slow = 1; t += calls*0.001; if (calls == 4+2*7+2) t -= calls*0.0005; return t; }""",
 """  V n = {6,4,3}, t = brick(n, {1,1,np}, me); FFT *f = new FFT(MPI_COMM_WORLD, PREC); int fs, ss, rs;
  f->tune(n[0],n[1],n[2],t[0],t[1],t[2],t[3],t[4],t[5],t[0],t[1],t[2],t[3],t[4],t[5],0,fs,ss,rs,1,2,0.0,0);
  int best = 6; for (int k = 7; k < f->ntrial; k++) if (f->tfft[k] < f->tfft[best]) best = k;
  if (f->ntrial != 9) fail("trials", f->ntrial, 9);
  if (f->packflag != f->pflags[best]) fail("packing is not that of the fastest trial", f->packflag, f->pflags[best]);
  if (fabs(f->besttime - f->tfft[best]) > 1e-12) fail("best time", f->besttime, f->tfft[best]);
  delete f;"""),
 "build 3 %s; run 2" % KD, "packing trials that all run slower than the best of the earlier trials", "the packing style is not that of the fastest packing trial, and the best time is that of another setting")
# ---------------------------------------------------------------- C09
seed("c09-world-group", "C09",
 [("remap2d.cpp", "    MPI_Comm_group(world,&orig_group);", "    MPI_Comm_group(MPI_COMM_WORLD,&orig_group);")],
 DELAY % ("#include <unistd.h>", """  alarm(20); V n = {6,4}; Opt o; o.coll = 1; MPI_Comm sub; MPI_Comm_split(MPI_COMM_WORLD, me % 2, -me, &sub); int r; MPI_Comm_rank(sub, &r);
  check_fft(sub, n, brick(n, {1,2}, r), brick(n, {2,1}, r), 0, o, true); MPI_Comm_free(&sub);"""),
 "build 2 %s; run 4" % KD, "a collective 2d remap or FFT on a communicator whose ranks are not those of MPI_COMM_WORLD", "the process group is made of other processes: the setup fails or hangs")
seed("c09-extra-leak", "C09",
 [("fft3d.cpp", "  delete remap->remap3d_extra;", "  if (exchange) delete remap->remap3d_extra;")],
 DELAY % ("""static int made, freed;
extern "C" int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *n) { int r = PMPI_Comm_create(c, g, n); if (*n != MPI_COMM_NULL) made++; return r; }
extern "C" int MPI_Comm_free(MPI_Comm *c) { freed++; return PMPI_Comm_free(c); }""", """  V n = {6,4,3}; Opt o; o.coll = 1; o.exch = 1; int fs, ss, rs; FFT *f = make(MPI_COMM_WORLD, n, brick(n, {1,1,2}, me), brick(n, {1,2,1}, me), 0, o, fs, ss, rs);
  f->exchange = 0; delete f; if (made != freed) fail("communicators made and freed", made, freed);"""),
 "build 3 %s; run 2" % KD, "an FFT set up with exchange=brick whose exchange setting is changed before it is destroyed", "memory and communicators of the second-stage remaps are never given back")
# ---------------------------------------------------------------- C10
REFUSE = r"""
for k in 1 2 3; do
  timeout -s KILL 40 mpirun -np %d "$tmp/demo" > "$tmp/log" 2>&1; rc=$?
  tail -3 "$tmp/log"
  grep -q SURVIVED "$tmp/log" && exit 1
  if grep -q "ERROR" "$tmp/log" && [ $rc != 0 ]; then exit 0; fi
done
exit 1"""
seed("c10-shifted-tile", "C10",
 [("fft3d.cpp", "  if (in_ihi >= nfast || in_jhi >= nmid || in_khi >= nslow) flag = 1;", "  if (in_ihi >= nfast || in_jhi >= nmid || in_khi > nslow) flag = 1;")],
 MAIN % """  V n = {4,3,4}, t = brick(n, {1,1,2}, me), o = t; if (me == 1) { t[4]++; t[5]++; }
  int fs, ss, rs; make(MPI_COMM_WORLD, n, t, o, 0, Opt(), fs, ss, rs); printf("SURVIVED\\n"); fflush(stdout);""",
 "build 3 %s\n%s" % (KD, REFUSE % 2), "a tile shifted by one plane past the end of the slow dimension on one process, with the sizes still adding up", "setup accepts input bounds outside the grid")
seed("c10-nomem-remap", "C10",
 [("fft3d.cpp", "  if (!setup_memory_flag) \n    error->all(\"Cannot perform an FFT remap before setup_memory\");", "  if (!setup_memory_flag && !memoryflag) \n    error->all(\"Cannot perform an FFT remap before setup_memory\");")],
 MAIN % """  V n = {4,3,4}, t = brick(n, {1,1,2}, me), o = brick(n, {2,1,1}, me); Opt op; op.mem = 0;
  int fs, ss, rs; FFT *f = make(MPI_COMM_WORLD, n, t, o, 0, op, fs, ss, rs); f->memoryflag = 1; std::vector<SC> x(2*fs+2);
  f->only_one_remap(x.data(), x.data(), 1, 4); printf("SURVIVED\\n"); fflush(stdout);""",
 "build 3 %s\n%s" % (KD, REFUSE % 2), "a plan set up for caller-provided buffers, the memory setting changed afterwards, and a single remap before the buffers were given", "the call goes ahead with null message buffers instead of being refused")
# ---------------------------------------------------------------- C11
seed("c11-tremap4", "C11",
 [("fft3d_wrap.cpp", 'else if (strcmp(keyword,"tremap4") == 0) return fft->tremap4;', 'else if (strncmp(keyword,"tremap4",6) == 0) return fft->tremap4;'),
  ("fft3d_wrap.cpp", '  else if (strcmp(keyword,"tremap") == 0) return fft->tremap;\n', '  else if (strncmp(keyword,"tremap",7) == 0) return fft->tremap;\n')],
 DELAY % ('#include "fft3d_wrap.cpp"', """  FFT *f = new FFT(MPI_COMM_WORLD, PREC); int len;
  struct { const char *k; double *p; } l[] = { {"tfft",f->tfft}, {"t1d",f->t1d}, {"tremap",f->tremap}, {"tremap1",f->tremap1}, {"tremap2",f->tremap2}, {"tremap3",f->tremap3}, {"tremap4",f->tremap4}, {"tremap5",0}, {"tremapx",0}, {"",0} };
  for (auto &x : l) if (fft3d_get_double_vector(f, x.k, &len) != x.p) fail(x.k); delete f;"""),
 "build 3 %s; run 1" % KD, "a query of an unknown timing vector through the C interface", "an unknown keyword returns a vector instead of NULL")
seed("c11-remap-fortran", "C11",
 [("remap3d_wrap.cpp", "               out_ilo-1,out_ihi-1,out_jlo-1,out_jhi-1,out_klo-1,out_khi-1,", "               out_ilo-1,out_ihi-1,out_jlo-1,out_jhi-1,out_klo-1,out_khi-(out_klo <= out_khi),")],
 DELAY % ('#include "remap3d_wrap.cpp"', """  V n = {4,3,2}, w = whole(n), e = w; e[5] = -1; V t = me == 0 ? w : e;
  V in = brick(n, {1,2,1}, me); void *p; remap3d_create_fortran(MPI_Comm_c2f(MPI_COMM_WORLD), &p); int ss, rs; remap3d_set(p, (char *)"collective", 0);
  remap3d_setup_fortran(p,in[0]+1,in[1]+1,in[2]+1,in[3]+1,in[4]+1,in[5]+1,t[0]+1,t[1]+1,t[2]+1,t[3]+1,t[4]+1,t[5]+1,1,0,1,&ss,&rs);
  if (me && rs != 0) fail("receive size of an empty output tile", rs, 0); remap3d_destroy(p);"""),
 "build 3 %s; run 2" % KD, "the Fortran remap interface and a process that owns nothing of the output", "the empty tile is taken for one plane, which also is counted in its buffer sizes and overlaps")
# ---------------------------------------------------------------- C12
seed("c12-one-remap", "C12",
 [("fft3d.cpp", "    } else if (which == 3) {\n      if (remap_slowmid) remap(in,out,remap_slowmid);\n    } else if (which == 2) {\n      if (remap_midfast) remap(in,out,remap_midfast);", "    } else if (which == 2) {\n      if (remap_slowmid) remap(in,out,remap_slowmid);\n    } else if (which == 3) {\n      if (remap_midfast) remap(in,out,remap_midfast);")],
 MAIN % """  V n = {4,3,6}, in = brick(n, {1,1,2}, me), out = brick(n, {2,1,1}, me); Opt o; int fs, ss, rs; FFT *f = make(MPI_COMM_WORLD, n, in, out, 0, o, fs, ss, rs);
  auto a = field(n); std::vector<SC> x(2*fs+2); each(n, out, 0, [&](long g, long p) { x[2*p] = a[g].real(); x[2*p+1] = a[g].imag(); });
  for (int w = 4; w >= 1; w--) f->only_one_remap(x.data(), x.data(), -1, w);
  compare(n, in, 0, x.data(), a, "single backward remaps"); delete f;""",
 "build 3 %s; run 2" % KD, "the single backward remaps of a 3d FFT, done one after the other", "they no longer compose to the data movement of the FFT")
# ---------------------------------------------------------------- C13
seed("c13-npbrick", "C13",
 [("fft3d.cpp", "  else npbrick1 = npbrick2 = npbrick3 = 0;", "  else if (!npbrick1) npbrick1 = npbrick2 = npbrick3 = 0;")],
 DELAY % ("""static long calls; extern "C" double MPI_Wtime() { static double t; calls++; t += calls*0.001; return t; }""", """  V n = {6,4,3}, t = brick(n, {1,1,np}, me); FFT *f = new FFT(MPI_COMM_WORLD, PREC); int fs, ss, rs;
  f->tune(n[0],n[1],n[2],t[0],t[1],t[2],t[3],t[4],t[5],t[0],t[1],t[2],t[3],t[4],t[5],0,fs,ss,rs,1,2,0.0,0);
  if (f->exchange == 0 && (f->npbrick1 || f->npbrick2 || f->npbrick3)) fail("brick grid of a pencil exchange", f->npbrick1, f->npbrick3); delete f;"""),
 "build 3 %s; run 2" % KD, "tuning that ends with the pencil exchange after trials with the brick exchange", "the brick process grid is reported although it is not used")
seed("c13-memusage", "C13",
 [("fft3d.cpp", "    memusage += remap_slowmid->remap3d->memusage;\n    if (remap_slowmid->remap3d_extra)\n      memusage += remap_slowmid->remap3d_extra->memusage;", "    memusage += remap_slowmid->remap3d->memusage;\n    if (remap_slowmid->remap3d_extra)\n      memusage += remap_midslow->remap3d_extra->memusage;")],
 MAIN % """  // x slabs in, z slabs out: what the forward remaps hold, the backward remaps of the swapped object hold
  V n = {12,5,9}, a = brick(n, {np,1,1}, me), b = brick(n, {1,1,np}, me); Opt o; o.exch = 1; o.mem = 0; o.coll = 0; int fs, ss, rs; long sum = 0;
  FFT *f = make(MPI_COMM_WORLD, n, a, b, 1, o, fs, ss, rs);
  V fa = brick(n, {f->npfast1,f->npfast2,f->npfast3}, me), mi = brick(n, {f->npmid1,f->npmid2,f->npmid3}, me), sl = brick(n, {f->npslow1,f->npslow2,f->npslow3}, me), br = brick(n, {f->npbrick1,f->npbrick2,f->npbrick3}, me);
  std::vector<V> st = { a, fa, br, mi, br, sl, b };
  for (size_t k = 0; k+1 < st.size(); k++) for (int back = 0; back < 2; back++) { REMAP *r = new REMAP(MPI_COMM_WORLD); r->collective = 0; r->packflag = 2; int x, y; rsetup(r, st[k+back], st[k+1-back], 2, 0, 0, x, y); sum += r->memusage; delete r; }
  if (f->memusage != sum) fail("memusage", f->memusage, sum); delete f;""",
 "build 3 %s; run 4" % KD, "the brick exchange between stages and different layouts of input and output", "the reported memory usage leaves out one remap and counts another twice")
# ---------------------------------------------------------------- C14
FAULT = r"""
mpicxx -g -O1 -w -std=c++17 -DDIM=%d -DFFT_MEMALIGN=64 -DFFT_KISS -DFFT_DOUBLE -I "$repo/src" -I "$here" "$here/demo.cpp" "$repo"/src/fft%dd.cpp "$repo"/src/remap%dd.cpp "$repo"/src/memory.cpp "$repo"/src/error.cpp -o "$tmp/demo" -Wl,--wrap=posix_memalign -lm || exit 1
total=$("$tmp/demo" 0 2>/dev/null | sed -n 's/^allocations //p'); [ -n "$total" ] || { echo "no count"; exit 1; }
for k in $(seq 1 $total); do
  timeout -s KILL 20 "$tmp/demo" $k > "$tmp/log" 2>&1; rc=$?
  if ! grep -q ERROR "$tmp/log"; then echo "allocation $k of $total: no error, status $rc"; tail -3 "$tmp/log"; exit 1; fi
done
exit 0"""
seed("c14-unpackplan", "C14",
 [("remap2d.cpp", "    if (!recv_offset || !recv_size || !recv_proc || !recv_bufloc ||\n        !request || !unpackplan)", "    if (!recv_offset || !recv_size || !recv_proc || !recv_bufloc ||\n        !unpackplan)")],
 DELAY % ("""static long count, fail_at = -1; extern "C" int __real_posix_memalign(void **, size_t, size_t);
extern "C" int __wrap_posix_memalign(void **p, size_t a, size_t n) { count++; if (count == fail_at) return 12; return __real_posix_memalign(p, a, n); }""",
 """  fail_at = argc > 1 ? atol(argv[1]) : 0; V n = {6,4}, t = whole(n); Opt o; o.coll = 0; check_fft(MPI_COMM_WORLD, n, t, t, 0, o, true); printf("allocations %ld\\n", count); fflush(stdout);"""),
 "%s" % (FAULT % (2,2,2)), "memory running out exactly when the request array of a 2d remap is allocated", "the failure goes unnoticed: the process later writes through a null pointer, or carries on when it has no messages")

# ---------------------------------------------------------------- later additions
seed("c02-empty-preflag", "C02",
 [("fft3d.cpp", "  if (in_ilo == 0 && in_ihi == nfast-1) flag = 0;", "  if ((in_ilo == 0 && in_ihi == nfast-1) || in_ilo > in_ihi) flag = 0;")],
 MAIN % """  V n = {4,3,5}, w = whole(n), e = w; e[1] = -1; Opt o; V in = me == 0 ? w : e, out = me == 0 ? w : none();
  int fs, ss, rs; FFT *f = make(MPI_COMM_WORLD, n, in, out, 0, o, fs, ss, rs); std::vector<CD> a = field(n), F = dft(n, a, -1); std::vector<SC> x(1000, 0.5);
  each(n, in, 0, [&](long g, long p) { x[2*p] = a[g].real(); x[2*p+1] = a[g].imag(); });
  f->compute(x.data(), x.data(), 1); compare(n, out, 0, x.data(), F, "forward"); for (int k = 2*fs; k < 1000; k++) if (x[k] != 0.5) fail("written past the reported size", fs, k); delete f;""",
 "build 3 %s; run 2" % KD, "processes that own nothing, written as an empty range in the fast dimension only, while all others own whole lines", "the first remap is left out and the empty processes transform lines they do not have")
seed("c08-mislabelled-trials", "C08",
 [("fft2d.cpp", "      exchange = eflags[ntrial] = ebest;", "      eflags[ntrial] = ebest;")],
 DELAY % ("""// a clock that makes the trials with exchange 0 fast, and notes the exchange setting in use when an FFT is timed
static FFT *obj; static int seen[1000]; static long calls; static double t; extern "C" double MPI_Wtime() { seen[calls++ % 1000] = obj ? obj->exchange : -1; t += obj && obj->exchange ? 0.010 : 0.001; return t; }""",
 """  V n = {6,4}, b = brick(n, {1,np}, me); FFT *f = obj = new FFT(MPI_COMM_WORLD, PREC); int fs, ss, rs;
  f->tune(n[0],n[1],b[0],b[1],b[2],b[3],b[0],b[1],b[2],b[3],0,fs,ss,rs,1,2,0.0,0);
  if (f->ntrial != 9) fail("trials", f->ntrial, 9);
  for (int k = 6; k < f->ntrial; k++) { if (f->eflags[k] != 0) fail("exchange of the packing trials", f->eflags[k], 0); if (f->tfft[k] > 0.002) fail("a trial with exchange 0 took the time of exchange 1", k, f->tfft[k]); }
  obj = 0; delete f;"""),
 "build 2 %s; run 2" % KD, "a tuning with all nine trials in which the exchange setting 0 is the faster one", "the packing trials run with another exchange setting than they report, so the choice of packing is made for the wrong setting")
seed("c09-static-factors", "C09",
 [("kissfft.h", "        kf_factor(nfft,st->factors);", "        static int last, lastfac[2*MAXFACTORS];\n        if (nfft % 60 || nfft/2 != last) { kf_factor(nfft,lastfac); last = nfft; }\n        memcpy(st->factors,lastfac,sizeof(lastfac));")],
 MAIN % """  V n = {2,30}, m = {60,2}; Opt o; check_fft(MPI_COMM_WORLD, m, brick(m, {1,1}, 0), brick(m, {1,1}, 0), 0, o, true);
  check_fft(MPI_COMM_WORLD, n, whole(n), whole(n), 0, o, true); check_fft(MPI_COMM_WORLD, m, whole(m), whole(m), 0, o, true);""",
 "build 2 %s; run 1" % KD, "an object with a length that is a multiple of 60, made right after a plan of half that length", "the 1d transforms of that length are wrong")
