// Exploration driver: enumerates the executions of every case of a suite on the real code.
#include "engine.h"
#include <dlfcn.h>
#include <link.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sanitizer/asan_interface.h>

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:detect_odr_violation=0:detect_stack_use_after_return=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:"
         "allocator_may_return_null=1:abort_on_error=0:exitcode=98:print_summary=0:max_malloc_fill_size=0:handle_abort=0:symbolize=1:allow_user_segv_handler=1:"
         "fast_unwind_on_fatal=1:allocator_release_to_os_interval_ms=-1:detect_stack_use_after_scope=1";
}
namespace vmpi { void redirect_output(int fd); }

static std::string libdir;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }

// ---------------------------------------------------------------------------------- libraries
static const char *libname[] = { "kiss_d", "kiss_s", "fftw_d", "fftw_s", "fftw2_d", "fftw2_s", "mkl_d", "mkl_s" };
struct Lib { void *h = 0; const Api *(*get)(int) = 0; };
static std::map<int, Lib> libs;       // dim, lib, rank
struct SegArg { const char *base; int rank; };
static Lib *load_lib(int dim, int lib, int rank) {
  int key = (dim*8 + lib)*256 + rank;
  auto it = libs.find(key); if (it != libs.end()) return &it->second;
  std::string path = libdir + "/lib" + std::to_string(dim) + "d_" + libname[lib] + ".so";
  static std::map<std::string, std::string> content;
  std::string &data = content[path];
  if (data.empty()) { std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); data = ss.str(); }
  if (data.empty()) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(2); }
  int fd = memfd_create("lib", 0);
  size_t off = 0; while (off < data.size()) { ssize_t w = write(fd, data.data()+off, data.size()-off); if (w <= 0) exit(2); off += w; }
  char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  Lib l; l.h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
  if (!l.h) { fprintf(stderr, "dlopen %s: %s\n", path.c_str(), dlerror()); exit(2); }
  l.get = (const Api *(*)(int))dlsym(l.h, "vp_api");
  if (!l.get) { fprintf(stderr, "no vp_api in %s\n", path.c_str()); exit(2); }
  struct link_map *lm; dlinfo(l.h, RTLD_DI_LINKMAP, &lm);
  // writable data outside RELRO
  const ElfW(Ehdr) *eh = (const ElfW(Ehdr) *)data.data(); const ElfW(Phdr) *ph = (const ElfW(Phdr) *)(data.data() + eh->e_phoff);
  ElfW(Addr) rlo = 0, rhi = 0;
  for (int i = 0; i < eh->e_phnum; i++) if (ph[i].p_type == PT_GNU_RELRO) { rlo = ph[i].p_vaddr; rhi = (ph[i].p_vaddr + ph[i].p_memsz + 4095) & ~4095ul; }
  for (int i = 0; i < eh->e_phnum; i++) if (ph[i].p_type == PT_LOAD && (ph[i].p_flags & PF_W)) {
    ElfW(Addr) lo = ph[i].p_vaddr, hi = lo + ph[i].p_memsz;
    if (rhi > lo && rlo <= lo) lo = rhi;
    if (lo < hi) vmpi::register_segment((char *)lm->l_addr + lo, hi - lo, rank);
  }
  return &(libs[key] = l);
}

struct VEnv : Env {
  int marks[vmpi::MAXR];
  const Api *api(int dim, int lib, int rank, int fl) override { return load_lib(dim, lib, rank)->get(fl); }
  [[noreturn]] void fail(const char *cls, const std::string &m) override { vmpi::violation(cls, "%s", m.c_str()); }
  void *alloc(size_t n, size_t skew) override { return vmpi::arena(n, skew); }
  size_t live_bytes(int r) override { return vmpi::tracked_bytes(r); }
  size_t live_blocks(int r) override { return vmpi::tracked_blocks(r); }
  bool virt() override { return true; }
  void mark(int r, int p) override { marks[r] = p; }
};
static VEnv venv;
static const Case *curcase;
static void rank_main(void *, int r) { run_rank(*curcase, venv, r); }

// clock scenarios
static double wt_hook(int rank, long n) {
  switch (curcase->wt) {
    case 1: return vmpi::choose(vmpi::CH_WTIME, 2, 0) ? 0.05 : 0.001;
    case 2: return vmpi::choose(vmpi::CH_WTIME, 2, 0) ? 2.0 : 0.001;
    case 3: return vmpi::choose(vmpi::CH_WTIME, 2, 0) ? 0.0 : 0.01;
    default: return fixed_clock(curcase->wt, rank, n);
  }
}

// ---------------------------------------------------------------------------------- judging
static std::string judge(const Case &c, vmpi::Result &r, const vmpi::Fault &f, std::string &cls) {
  auto describe = [&]() {
    std::string s;
    for (size_t i = 0; i < r.out.size(); i++) {
      static const char *on[] = { "unfinished", "finished", "exit", "aborted", "exception", "blocked", "abort()" };
      char b[100]; snprintf(b, sizeof b, " rank %zu %s", i, on[r.out[i].kind]); s += b;
      if (r.out[i].kind == vmpi::OUT_EXIT) { snprintf(b, sizeof b, "(%d)", r.out[i].code); s += b; }
    }
    if (!r.output.empty()) s += "; output: " + r.output.substr(0, 200);
    return s;
  };
  if (r.violation) { cls = r.vclass; return r.msg + (r.output.empty() ? "" : "; output: " + r.output.substr(0, 200)); }
  bool normal = !r.jobabort; for (auto &o : r.out) if (o.kind != vmpi::OUT_RETURN) normal = false;
  bool ended_bad = false;
  if (r.jobabort) ended_bad = r.abort_code != 0;
  else { ended_bad = true; int members = 0; for (size_t i = 0; i < r.out.size(); i++) { auto &o = r.out[i];
      if (c.comm == 3 && i == 0) continue;
      members++;
      if (!(o.kind == vmpi::OUT_EXIT && o.code != 0)) ended_bad = false; } }
  if (c.expect == EXP_REFUSED) {
    if (normal) { cls = "accepted"; return "invalid use was accepted"; }
    if (!ended_bad) { cls = "refusal"; return "the job did not end with an error on every rank:" + describe(); }
    if (r.output.empty()) { cls = "refusal"; return "the job ended without a message:" + describe(); }
    bool marked = false; for (int i = 0; i < (int)r.out.size(); i++) if (venv.marks[i] == 1) marked = true;
    if (!marked) { cls = "refusal"; return "refused before the invalid call:" + describe(); }
    return "";
  }
  if (c.expect == EXP_FAULT && f.rank >= 0 && r.fault_hit) {
    if (normal) return "";
    if (!r.jobabort || r.abort_code == 0) { if (!ended_bad) { cls = "fault"; return "after an allocation failure the job ended without an error:" + describe(); } }
    // an escaping exception or abort() is reported by the language runtime on stderr
    bool rt = false; for (auto &o : r.out) if (o.kind == vmpi::OUT_EXCEPTION || o.kind == vmpi::OUT_SIGABRT) rt = true;
    if (!rt && r.output.empty()) { cls = "fault"; return "after an allocation failure the job ended without a message:" + describe(); }
    return "";
  }
  if (!normal) { cls = "refused"; return "a valid program did not finish:" + describe(); }
  return "";
}

// ---------------------------------------------------------------------------------- shared memory
struct Slot {
  std::atomic<long> item; std::atomic<int> spec; std::atomic<int> busy;
  vmpi::Policy pol; uint32_t mask; int focus; int frank; long fnth; int nprefix; uint16_t prefix[6000];
  uint64_t execs, steps, states, choices, capped, cases, maxdepth, faults, nontrivial; uint64_t refused;
  char report[6000]; int done;
};
struct VRec { char cls[32]; char msg[2500]; long item; int spec; vmpi::Policy pol; uint32_t mask; int focus; int frank; long fnth; int nprefix; uint16_t prefix[6000]; };
struct Shm { std::atomic<long> next; std::atomic<int> stop; std::atomic<int> nviol; VRec v[64]; Slot s[64]; };
static Shm *shm; static Slot *slot;
static Suite suite;
static double deadline = 1e18;
static long exec_limit_s = 60;

static void asan_cb(const char *rep) { if (slot) { strncpy(slot->report, rep, sizeof slot->report - 1); } }
static void on_prof(int) { if (slot) snprintf(slot->report, sizeof slot->report, "no progress: execution exceeded its CPU limit"); _exit(97); }

static void record(const Case &c, long item, int spec, const vmpi::Policy &pol, const vmpi::Explore &ex, const vmpi::Fault &f, const vmpi::Result &r, const std::string &cls, const std::string &msg) {
  int k = shm->nviol.fetch_add(1);
  if (k >= 64) { shm->stop = 1; return; }
  VRec &v = shm->v[k]; v.item = item; v.spec = spec; v.pol = pol; v.mask = ex.mask; v.focus = ex.focus; v.frank = f.rank; v.fnth = f.nth;
  snprintf(v.cls, sizeof v.cls, "%s", cls.c_str()); snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
  v.nprefix = (int)std::min<size_t>(r.trace.size(), 6000); for (int i = 0; i < v.nprefix; i++) v.prefix[i] = r.trace[i].c;
  if (k >= 5) shm->stop = 1;
}
static bool one(const Case &c, long item, int spec, const vmpi::Policy &pol, const vmpi::Explore &ex, const vmpi::Fault &f, bool leaks, vmpi::Result &r) {
  Slot &s = *slot; s.pol = pol; s.mask = ex.mask; s.focus = ex.focus; s.frank = f.rank; s.fnth = f.nth; s.nprefix = (int)std::min<size_t>(ex.prefix.size(), 6000);
  for (int i = 0; i < s.nprefix; i++) s.prefix[i] = ex.prefix[i];
  s.busy = 1;
  struct itimerval it = {{0,0},{exec_limit_s,0}}; setitimer(ITIMER_PROF, &it, 0);
  vmpi::check_leaks = leaks; curcase = &c; vmpi::wtime_hook = wt_hook; vmpi::wtime_data = c.wt == 8; memset(venv.marks, 0, sizeof venv.marks);
  vmpi::run(c.job(), rank_main, 0, pol, ex, f, r);
  s.busy = 0;
  s.execs++; s.steps += r.steps; s.choices += r.trace.size(); if (r.trace.size() > s.maxdepth) s.maxdepth = r.trace.size();
  if (r.fault_hit) s.faults++;
  std::string cls, msg = judge(c, r, f, cls);
  if (!msg.empty()) { record(c, item, spec, pol, ex, f, r, cls, msg); return false; }
  if (c.expect == EXP_REFUSED) s.refused++;
  return true;
}
static bool dfs(const Case &c, long item, int si, const Spec &sp, int focus) {
  vmpi::Explore ex; ex.mask = sp.mask; ex.focus = focus; vmpi::Fault nf; long n = 0;
  int maxdev = sp.mode == M_DEV ? sp.dev : 1 << 30;
  for (;;) {
    vmpi::Result r;
    if (!one(c, item, si, sp.pol, ex, nf, sp.leaks, r)) return false;
    if (++n >= sp.cap) { // is there more?
      bool more = false; int dev = 0; for (auto &t : r.trace) if (t.c != t.def) dev++;
      for (auto &t : r.trace) if (t.c != (t.def == t.n-1 ? t.n-2 : t.n-1) && (t.c != t.def || dev < maxdev)) more = true;
      if (more) slot->capped++;
      return true;
    }
    if (now() > deadline || shm->stop) { slot->capped++; return true; }
    // next path: order of alternatives at a point = default first, then the others increasing
    std::vector<uint16_t> p; for (auto &t : r.trace) p.push_back(t.c);
    int i = (int)p.size() - 1; bool found = false;
    std::vector<int> devs(p.size()+1, 0); for (size_t k = 0; k < p.size(); k++) devs[k+1] = devs[k] + (r.trace[k].c != r.trace[k].def);
    for (; i >= 0; i--) {
      auto &t = r.trace[i]; int nx;
      if (t.c == t.def) nx = t.def == 0 ? 1 : 0; else nx = t.c + 1 == t.def ? t.c + 2 : t.c + 1;
      if (nx >= t.n) continue;
      if (devs[i] + 1 > maxdev) continue;
      p.resize(i+1); p[i] = nx; found = true; break;
    }
    if (!found) return true;
    ex.prefix = p;
  }
}
static void run_item(long idx) {
  Case c; if (!Case::parse(suite.items[idx].flat, c)) { fprintf(stderr, "bad case %ld\n", idx); _exit(2); }
  auto &specs = suite.speclists[suite.items[idx].specs];
  vmpi::state_reset();
  for (size_t si = 0; si < specs.size(); si++) {
    const Spec &sp = specs[si]; slot->spec = (int)si;
    bool ok = true;
    if (sp.mode == M_FAULT) {
      vmpi::Explore ex; vmpi::Fault nf; vmpi::Result r;
      ok = one(c, idx, si, sp.pol, ex, nf, sp.leaks, r);
      for (int rk = 0; ok && rk < c.job(); rk++) for (uint64_t k = 0; k < r.allocs[rk] && !shm->stop; k++) {
        vmpi::Fault f; f.rank = rk; f.nth = (long)k; vmpi::Result r2;
        if (!one(c, idx, si, sp.pol, ex, f, false, r2)) { ok = false; break; }
        if (now() > deadline) { slot->capped++; break; }
      }
    } else if (sp.mode == M_RANKWISE) {
      for (int rk = 0; ok && rk < c.job(); rk++) ok = dfs(c, idx, si, sp, rk);
    } else ok = dfs(c, idx, si, sp, -1);
    if (!ok) break;
  }
  slot->states += vmpi::state_count(); slot->cases++;
}

static pid_t start_worker(int w) {
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    slot = &shm->s[w];
    signal(SIGPROF, on_prof);
    __asan_set_error_report_callback(asan_cb);
    vmpi::init(); vmpi::redirect_output(1);
    vmpi::redirect_output(2);
    for (;;) {
      if (shm->stop || now() > deadline) break;
      long i = shm->next.fetch_add(1); if (i >= (long)suite.items.size()) break;
      slot->item = i; run_item(i);
    }
    slot->done = 1; _exit(0);
  }
  return p;
}
// re-run one recorded execution (or a whole item) in a fresh process; true if it fails again
static bool confirm(long item, const Slot &s, bool whole, std::string &rep, int &code) {
  Slot *ns = &shm->s[63]; memset((void *)ns, 0, sizeof *ns);
  int before = shm->nviol;
  pid_t p = fork();
  if (p == 0) {
    slot = ns; slot->item = item; exec_limit_s = 180; signal(SIGPROF, on_prof); __asan_set_error_report_callback(asan_cb);
    vmpi::init(); vmpi::redirect_output(1); vmpi::redirect_output(2);
    if (whole) { run_item(item); _exit(0); }
    Case c; Case::parse(suite.items[item].flat, c);
    vmpi::Explore ex; ex.mask = s.mask; ex.focus = s.focus; ex.prefix.assign(s.prefix, s.prefix + s.nprefix); vmpi::Fault f; f.rank = s.frank; f.nth = s.fnth; vmpi::Result r;
    one(c, item, s.spec, s.pol, ex, f, false, r); _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  rep = ns->report;
  if (!bad && shm->nviol > before) bad = false;   // an ordinary violation was recorded by itself
  return bad;
}
static std::string firstlines(const std::string &s, int n) {
  std::stringstream in(s); std::string l, o; int k = 0;
  while (std::getline(in, l) && k < n) { if (l.find("ERROR") != std::string::npos || l.find("    #") == 0 || l.find("of size") != std::string::npos || l.find("located") != std::string::npos || l.find("is located") != std::string::npos || l.find("progress") != std::string::npos) { o += l + "\n"; k++; } }
  return o.empty() ? s.substr(0, 400) : o;
}

static void write_replay(const std::string &path, const std::string &prop, const VRec &v) {
  std::ofstream f(path);
  Case c; Case::parse(suite.items[v.item].flat, c);
  f << "property " << prop << "\nclass " << v.cls << "\nmessage " << std::string(v.msg).substr(0, 2000) << "\nENDMESSAGE\ntext " << c.text() << "\n";
  f << "policy"; const uint8_t *p = (const uint8_t *)&v.pol; for (size_t i = 0; i < sizeof v.pol; i++) f << " " << (int)p[i];
  f << "\nmask " << v.mask << "\nfocus " << v.focus << "\nfault " << v.frank << " " << v.fnth << "\nspec " << v.spec << " " << suite.items[v.item].specs << "\nchoices";
  for (int i = 0; i < v.nprefix; i++) f << " " << v.prefix[i];
  f << "\ncase"; for (int x : suite.items[v.item].flat) f << " " << x; f << "\n";
}
static std::string jstr(const std::string &s) {
  std::string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32) o += ' '; else o += ch; } return o + "\"";
}
static void preload() {
  std::set<int> seen;
  for (auto &it : suite.items) {
    Case c; Case::parse(it.flat, c);
    for (auto &o : c.objs) for (int r = 0; r < c.job(); r++) { int key = (o.dim*8 + o.lib)*256 + r; if (seen.insert(key).second) load_lib(o.dim, o.lib, r); }
  }
}

// programs repeated with the 1d FFT back ends that only have stand-ins here (if they could be built)
static long standins;
static void add_standins(const std::string &prop) {
  static const std::map<std::string,int> every = { {"C02",23}, {"C03",23}, {"C04",29}, {"C06",17}, {"C07",1}, {"C08",61}, {"C09",17}, {"C11",47}, {"C12",19}, {"C13",17} };
  auto e = every.find(prop); if (e == every.end()) return;
  bool have[4]; for (int l = 0; l < 8; l++) { bool ok = true; for (int dim = 2; dim <= 3; dim++) ok = ok && access((libdir + "/lib" + std::to_string(dim) + "d_" + libname[l] + ".so").c_str(), R_OK) == 0; if (l >= 4) have[l-4] = ok; }
  size_t n = suite.items.size(); long k = 0;
  for (size_t i = 0; i < n; i++) {
    Case c; Case::parse(suite.items[i].flat, c); bool ok = false; long work = c.job();
    for (auto &o : c.objs) if (o.kind == 0) { ok = true; for (int d = 0; d < o.dim; d++) { work *= o.n[d]; if (o.n[d] > 64 || o.n[d] < 2 ) ok = false; } if (!ok) break; }
    if (!ok || work > 40000 || c.job() > 16) continue;
    if (k++ % e->second) continue;
    bool any = false;
    for (auto &o : c.objs) if (o.kind == 0) { int l = 4 + 2*(int)((k/e->second) & 1) + (o.lib & 1); if (have[l-4]) { o.lib = l; any = true; } }
    if (any) { suite.add(c, suite.items[i].specs); standins++; }
  }
}

static int do_replay(const char *file) {
  std::ifstream f(file); std::string line; vmpi::Policy pol{}; vmpi::Explore ex; vmpi::Fault ft; Item it; it.specs = 0; bool have = false;
  while (std::getline(f, line)) {
    std::stringstream ss(line); std::string k; ss >> k; long x;
    if (k == "policy") { uint8_t *p = (uint8_t *)&pol; for (size_t i = 0; i < sizeof pol && ss >> x; i++) p[i] = (uint8_t)x; }
    else if (k == "mask") { ss >> x; ex.mask = (uint32_t)x; } else if (k == "focus") { ss >> x; ex.focus = (int)x; }
    else if (k == "fault") { ss >> x; ft.rank = (int)x; ss >> x; ft.nth = x; }
    else if (k == "choices") while (ss >> x) ex.prefix.push_back((uint16_t)x);
    else if (k == "case") { while (ss >> x) it.flat.push_back((int)x); have = true; }
  }
  if (!have) { fprintf(stderr, "no case in %s\n", file); return 2; }
  suite.items.push_back(it); suite.speclists.push_back({});
  preload();
  Case c; Case::parse(it.flat, c);
  printf("case: %s\n", c.text().c_str()); fflush(stdout);
  slot = &shm->s[0];
  int keep = dup(1), keep2 = dup(2); vmpi::init(); vmpi::redirect_output(1); vmpi::redirect_output(2);
  vmpi::Result r; bool ok = one(c, 0, 0, pol, ex, ft, true, r);
  fflush(stdout); dup2(keep, 1); dup2(keep2, 2);
  std::string cls, m = judge(c, r, ft, cls);
  printf("steps %llu, choices %zu, output: %s\n", (unsigned long long)r.steps, r.trace.size(), r.output.c_str());
  if (!ok) { printf("violation (%s): %s\n", cls.c_str(), m.c_str()); return 1; }
  printf("ok\n"); return 0;
}

// cases the real MPI can replay, spread over the suite, with the call digests of the virtual run
static int do_conform(const std::string &file, long want) {
  std::map<int, std::vector<long>> by;
  for (size_t i = 0; i < suite.items.size(); i++) {
    Case c; Case::parse(suite.items[i].flat, c);
    if (c.expect == EXP_REFUSED || (c.wt >= 1 && c.wt <= 3) || c.wt == 8 || c.job() < 1 || c.job() > 8) continue;
    bool ok = true; for (auto &o : c.objs) { if (o.lib != 0 && o.lib != 3) ok = false; long v = 1; for (int k = 0; k < o.dim; k++) v *= o.n[k]; if (v > 100000) ok = false; }
    for (auto &x : c.cmds) if (!x.empty() && (x[0] == C_MUSTFAIL || x[0] == C_RAW)) ok = false;
    if (ok) by[c.job()].push_back((long)i);
  }
  std::ofstream f(file); if (by.empty()) return 0;
  slot = &shm->s[0]; vmpi::init(); vmpi::redirect_output(1);
  vmpi::tracing = true;
  for (auto &b : by) {
    long n = (long)b.second.size(), k = std::min(n, std::max<long>(1, want / (long)by.size()));
    for (long q = 0; q < k; q++) {
      Item &it = suite.items[b.second[q*n/k]]; Case c; Case::parse(it.flat, c);
      vmpi::trace_payload = true; for (auto &o : c.objs) if (o.lib != 0) vmpi::trace_payload = false;
      for (auto &o : c.objs) for (int r = 0; r < c.job(); r++) load_lib(o.dim, o.lib, r);
      vmpi::Result r; vmpi::Explore ex; vmpi::Fault nf;
      if (!one(c, b.second[q*n/k], 0, q & 1 ? P_B : P_A, ex, nf, false, r)) continue;
      f << c.job() << " " << (vmpi::trace_payload ? 1 : 0); for (int i = 0; i < c.job(); i++) f << " " << vmpi::call_trace(i).h << " " << vmpi::call_trace(i).n;
      f << " " << it.flat.size(); for (int x : it.flat) f << " " << x; f << "\n";
    }
  }
  return 0;
}

int main(int argc, char **argv) {
  std::string conform; long want = 200, nsample = 0; std::string prop, tier = "quick", out, repdir = ".", replay, dump, only; int jobs = 8; double limit = 800; bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--out") out = nx(); else if (a == "--replaydir") repdir = nx();
    else if (a == "--replay") replay = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--libdir") libdir = nx(); else if (a == "--limit") limit = atof(nx().c_str());
    else if (a == "--list") list = true; else if (a == "--dump") dump = nx(); else if (a == "--only") only = nx(); else if (a == "--sample") nsample = atol(nx().c_str()); else if (a == "--conform") conform = nx(); else if (a == "--want") want = atol(nx().c_str());
  }
  shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (!replay.empty()) return do_replay(replay.c_str());
  if (!make_suite(prop, tier == "thorough", suite)) { fprintf(stderr, "no suite %s\n", prop.c_str()); return 2; }
  add_standins(prop);
  if (list) { for (size_t i = 0; i < suite.items.size(); i++) { Case c; Case::parse(suite.items[i].flat, c); printf("%zu [%d] %s\n", i, suite.items[i].specs, c.text().c_str()); } return 0; }
  if (nsample) { long n = suite.items.size(); for (long q = 0; q < nsample && n; q++) { Case c; Case::parse(suite.items[(2*q+1)*n/(2*nsample)].flat, c); printf("%s\n", c.text().c_str()); } return 0; }
  if (!dump.empty()) {   // cases for the native conformance replay: one line of ints each
    std::ofstream f(dump); for (auto &it : suite.items) { for (size_t k = 0; k < it.flat.size(); k++) f << (k ? " " : "") << it.flat[k]; f << "\n"; } return 0;
  }
  if (!conform.empty()) return do_conform(conform, want);
  if (!only.empty()) { Item x = suite.items[atol(only.c_str())]; suite.items.assign(1, x); }
  double t0 = now(); deadline = t0 + limit;
  preload();
  if (jobs > 60) jobs = 60;
  std::map<pid_t, int> kids; std::vector<std::string> crashes; int unrepro = 0;
  for (int w = 0; w < jobs; w++) kids[start_worker(w)] = w;
  while (!kids.empty()) {
    int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break;
    auto it = kids.find(p); if (it == kids.end()) continue;
    int w = it->second; kids.erase(it);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    // the worker died inside an execution: reproduce it alone
    Slot snap; memcpy((void *)&snap, (void *)&shm->s[w], sizeof snap); long item = snap.item; std::string rep; int code;
    bool c1 = confirm(item, snap, false, rep, code);
    bool c2 = c1 ? true : confirm(item, snap, true, rep, code);
    if (c1 || c2) {
      int k = shm->nviol.fetch_add(1);
      if (k < 64) {
        VRec &v = shm->v[k]; v.item = item; v.spec = snap.spec; v.pol = snap.pol; v.mask = snap.mask; v.focus = snap.focus; v.frank = snap.frank; v.fnth = snap.fnth;
        snprintf(v.cls, sizeof v.cls, "%s", code == 97 ? "hang" : code == 98 ? "memory" : "crash");
        snprintf(v.msg, sizeof v.msg, "process ended with status %d; %s", code, firstlines(rep, 14).c_str());
        v.nprefix = snap.nprefix; memcpy(v.prefix, snap.prefix, sizeof(uint16_t)*snap.nprefix);
      }
      if (k >= 5) shm->stop = 1;
    } else { unrepro++; if (unrepro > 20) shm->stop = 1; }
    if (!shm->stop) { memset(shm->s[w].report, 0, sizeof shm->s[w].report); kids[start_worker(w)] = w; }
  }
  uint64_t ex = 0, stp = 0, sta = 0, ch = 0, cap = 0, cs = 0, md = 0, fl = 0, rf = 0;
  for (int w = 0; w < jobs; w++) { Slot &s = shm->s[w]; ex += s.execs; stp += s.steps; sta += s.states; ch += s.choices; cap += s.capped; cs += s.cases; md = std::max(md, s.maxdepth); fl += s.faults; rf += s.refused; }
  int nv = std::min<int>(shm->nviol, 64);
  std::ofstream f(out.empty() ? "/dev/stdout" : out);
  f << "{\"property\":" << jstr(prop) << ",\"tier\":" << jstr(tier) << ",\"items\":" << suite.items.size() << ",\"cases\":" << cs << ",\"executions\":" << ex << ",\"transitions\":" << stp
    << ",\"states\":" << sta << ",\"choice_points\":" << ch << ",\"max_choices\":" << md << ",\"capped\":" << cap << ",\"faults\":" << fl << ",\"refused\":" << rf << ",\"unreproduced\":" << unrepro << ",\"standins\":" << standins
    << ",\"seconds\":" << now() - t0 << ",\"complete\":" << (cs == suite.items.size() && cap == 0 ? "true" : "false") << ",\"bounds\":" << jstr(suite.bounds) << ",\"violations\":[";
  for (int i = 0; i < nv; i++) {
    VRec &v = shm->v[i]; std::string rp = repdir + "/" + prop + "-" + std::to_string(i) + ".replay";
    write_replay(rp, prop, v); Case c; Case::parse(suite.items[v.item].flat, c);
    f << (i ? "," : "") << "{\"class\":" << jstr(v.cls) << ",\"message\":" << jstr(v.msg) << ",\"item\":" << v.item << ",\"replay\":" << jstr(rp) << ",\"case\":" << jstr(c.text()) << "}";
  }
  f << "]}\n";
  return nv ? 1 : 0;
}
