// What is enumerated for each property: programs (cases) x execution specs.
#include "engine.h"
#include <algorithm>
#include <functional>
#include <set>
#include <string.h>

//                      send waitany coll order deliv yield fill
const vmpi::Policy P_A = { 0, 0, 0, 0, 0, 0, 0xA5 };   // buffered sends, in order, early
const vmpi::Policy P_B = { 1, 1, 1, 1, 1, 0, 0x00 };   // synchronous sends, reverse order, late
const vmpi::Policy P_C = { 0, 1, 1, 1, 1, 1, 0xFF };
const vmpi::Policy P_D = { 1, 0, 0, 0, 0, 1, 0x5A };

typedef std::vector<int> Tiles;        // np * 2*dim
struct Grid { int dim; int n[3]; };

static Spec single(const vmpi::Policy &p, bool leaks = false) { Spec s; s.pol = p; s.leaks = leaks; return s; }
static Spec explore(const vmpi::Policy &p, int mode, uint32_t mask, int dev, long cap, bool leaks = false) {
  Spec s; s.pol = p; s.mode = mode; s.mask = mask; s.dev = dev; s.cap = cap; s.leaks = leaks; return s; }
static uint32_t M(std::initializer_list<int> l) { uint32_t m = 0; for (int k : l) m |= 1u << k; return m; }

// ------------------------------------------------------------------ layouts
static void set_empty(const Grid &g, int *t, int variant) {
  // ways to say "nothing": lo = hi+1 in one dimension, or in all of them
  int d = g.dim;
  for (int k = 0; k < d; k++) { t[2*k] = 0; t[2*k+1] = g.n[k]-1; }
  switch (variant % 4) {
    case 0: t[0] = 0; t[1] = -1; break;
    case 1: t[2*d-2] = g.n[d-1]; t[2*d-1] = g.n[d-1]-1; break;
    case 2: for (int k = 0; k < d; k++) { t[2*k] = g.n[k]/2; t[2*k+1] = g.n[k]/2-1; } break;
    case 3: t[2] = 1; t[3] = 0; t[0] = g.n[0]-1; break;
  }
}
static std::vector<std::vector<int>> factorisations(int np, int dim) {
  std::vector<std::vector<int>> r;
  if (dim == 1) { r.push_back({np}); return r; }
  for (int a = 1; a <= np; a++) if (np % a == 0) for (auto &f : factorisations(np/a, dim-1)) { auto v = f; v.insert(v.begin(), a); r.push_back(v); }
  return r;
}
// bricks of a processor grid; order 0: x fastest, 1: reversed ranks, 2: x slowest
static Tiles bricks(const Grid &g, int np, const std::vector<int> &p, int order) {
  Tiles t(np*2*g.dim);
  for (int r = 0; r < np; r++) {
    int q = order == 1 ? np-1-r : r; int ip[3];
    if (order == 2) { for (int k = g.dim-1; k >= 0; k--) { ip[k] = q % p[k]; q /= p[k]; } }
    else for (int k = 0; k < g.dim; k++) { ip[k] = q % p[k]; q /= p[k]; }
    for (int k = 0; k < g.dim; k++) { t[(r*g.dim+k)*2] = (int)((long)ip[k]*g.n[k]/p[k]); t[(r*g.dim+k)*2+1] = (int)((long)(ip[k]+1)*g.n[k]/p[k])-1; }
  }
  return t;
}
static Tiles one_owner(const Grid &g, int np, int owner, int variant) {
  Tiles t(np*2*g.dim);
  for (int r = 0; r < np; r++) { if (r == owner) for (int k = 0; k < g.dim; k++) { t[(r*g.dim+k)*2] = 0; t[(r*g.dim+k)*2+1] = g.n[k]-1; } else set_empty(g, &t[r*2*g.dim], variant + r); }
  return t;
}
// slabs along dimension d with all cuts early: ranks 0..np-2 get one plane (or nothing), the last the rest
static Tiles uneven(const Grid &g, int np, int d, bool rev) {
  Tiles t(np*2*g.dim);
  for (int r = 0; r < np; r++) {
    int q = rev ? np-1-r : r; int lo = std::min(q, g.n[d]), hi = q == np-1 ? g.n[d]-1 : std::min(q, g.n[d]-1);
    if (q >= g.n[d]) { set_empty(g, &t[r*2*g.dim], r); continue; }
    for (int k = 0; k < g.dim; k++) { t[(r*g.dim+k)*2] = 0; t[(r*g.dim+k)*2+1] = g.n[k]-1; }
    t[(r*g.dim+d)*2] = lo; t[(r*g.dim+d)*2+1] = hi;
  }
  return t;
}
// first rank owns a corner-to-face slab, the others split the rest along another dimension (no processor grid)
static Tiles lshape(const Grid &g, int np, int d, int e, bool rev) {
  Tiles t(np*2*g.dim); int h = g.n[d]/2; if (h < 1) h = 1;
  for (int r = 0; r < np; r++) {
    int q = rev ? np-1-r : r;
    for (int k = 0; k < g.dim; k++) { t[(r*g.dim+k)*2] = 0; t[(r*g.dim+k)*2+1] = g.n[k]-1; }
    if (np == 1) break;
    if (q == 0) t[(r*g.dim+d)*2+1] = h-1;
    else { t[(r*g.dim+d)*2] = h; t[(r*g.dim+e)*2] = (q-1)*g.n[e]/(np-1); t[(r*g.dim+e)*2+1] = q*g.n[e]/(np-1)-1; }
  }
  return t;
}
static bool covers(const Grid &g, int np, const Tiles &t) {
  long s = 0, N = 1; for (int k = 0; k < g.dim; k++) N *= g.n[k];
  for (int r = 0; r < np; r++) { s += tile_size(&t[r*2*g.dim], g.dim); for (int k = 0; k < g.dim; k++) { int lo = t[(r*g.dim+k)*2], hi = t[(r*g.dim+k)*2+1]; if (lo < 0 || hi >= g.n[k] || lo > hi+1) return false; } }
  return s == N;
}
// level 0: small set, 1: usual, 2: everything
static std::vector<Tiles> family(const Grid &g, int np, int level) {
  std::vector<Tiles> r; std::set<Tiles> seen;
  auto add = [&](const Tiles &t) { if (covers(g, np, t) && seen.insert(t).second) r.push_back(t); };
  auto fs = factorisations(np, g.dim);
  if (level == 0) {
    add(bricks(g, np, fs[fs.size()/2], 0)); add(bricks(g, np, fs.front(), 1)); add(lshape(g, np, g.dim-1, 0, false)); add(one_owner(g, np, np-1, 1));
    return r;
  }
  for (auto &f : fs) { add(bricks(g, np, f, 0)); if (level >= 2) { add(bricks(g, np, f, 1)); add(bricks(g, np, f, 2)); } }
  add(bricks(g, np, fs.front(), 1));
  add(bricks(g, np, fs[fs.size()/2], 2));
  for (int o = 0; o < np; o++) if (level >= 2 || o == 0 || o == np-1) add(one_owner(g, np, o, o));
  if (level >= 2) add(one_owner(g, np, np/2, 2));
  for (int d = 0; d < g.dim; d++) { add(uneven(g, np, d, false)); if (level >= 2) add(uneven(g, np, d, true)); add(lshape(g, np, d, (d+1) % g.dim, d & 1)); if (level >= 2) add(lshape(g, np, d, (d+g.dim-1) % g.dim, false)); }
  return r;
}
// every partition of the grid into at most np boxes, every assignment of boxes to ranks
static void all_tilings(const Grid &g, int np, std::vector<Tiles> &out) {
  int N = 1; for (int k = 0; k < g.dim; k++) N *= g.n[k];
  std::vector<std::vector<int>> boxes; std::vector<char> used(N, 0); std::vector<std::vector<std::vector<int>>> parts;
  int n1 = g.n[0], n2 = g.n[1], n3 = g.dim == 3 ? g.n[2] : 1;
  std::function<void()> rec = [&]() {
    int p = 0; while (p < N && used[p]) p++;
    if (p == N) { parts.push_back(boxes); return; }
    if ((int)boxes.size() == np) return;
    int i = p % n1, j = p / n1 % n2, k = p / (n1*n2);
    for (int i2 = i; i2 < n1; i2++) for (int j2 = j; j2 < n2; j2++) for (int k2 = k; k2 < n3; k2++) {
      bool ok = true;
      for (int c = k; c <= k2 && ok; c++) for (int b = j; b <= j2 && ok; b++) for (int a = i; a <= i2; a++) if (used[(c*n2+b)*n1+a]) { ok = false; break; }
      if (!ok) continue;
      for (int c = k; c <= k2; c++) for (int b = j; b <= j2; b++) for (int a = i; a <= i2; a++) used[(c*n2+b)*n1+a] = 1;
      boxes.push_back({i,i2,j,j2,k,k2}); rec(); boxes.pop_back();
      for (int c = k; c <= k2; c++) for (int b = j; b <= j2; b++) for (int a = i; a <= i2; a++) used[(c*n2+b)*n1+a] = 0;
    }
  };
  rec();
  int var = 0;
  for (auto &p : parts) {
    std::vector<int> slot(np, -1); for (size_t b = 0; b < p.size(); b++) slot[b] = (int)b;
    std::sort(slot.begin(), slot.end());
    do {
      Tiles t(np*2*g.dim); var++;
      for (int r = 0; r < np; r++) if (slot[r] >= 0) { for (int k = 0; k < 2*g.dim; k++) t[r*2*g.dim+k] = p[slot[r]][k]; } else set_empty(g, &t[r*2*g.dim], var + r);
      out.push_back(t);
    } while (std::next_permutation(slot.begin(), slot.end()));
  }
}

// ------------------------------------------------------------------ building blocks
static Obj fft(const Grid &g, int lib, const Tiles &in, const Tiles &out, int perm, int coll = -1, int exch = -1, int pack = -1, int mem = -1) {
  Obj o; o.kind = K_FFT; o.dim = g.dim; o.lib = lib; for (int k = 0; k < 3; k++) o.n[k] = k < g.dim ? g.n[k] : 1;
  o.perm = perm; o.coll = coll; o.exch = exch; o.pack = pack; o.mem = mem; o.in = in; o.out = out; return o;
}
static Obj rem(const Grid &g, int lib, const Tiles &in, const Tiles &out, int perm, int nqty, int coll, int pack, int mem) {
  Obj o = fft(g, lib, in, out, perm, coll, -1, pack, mem); o.kind = K_REMAP; o.nqty = nqty; return o;
}
static Case prog(int np, std::vector<Obj> objs, std::vector<std::vector<int>> cmds) { Case c; c.np = np; c.objs = std::move(objs); c.cmds = std::move(cmds); return c; }
static int add_specs(Suite &s, std::vector<Spec> l) { s.speclists.push_back(std::move(l)); return (int)s.speclists.size()-1; }
struct Rot { int i = 0; int operator()(int n) { return i++ % n; } };
// a mixed-radix counter over option values: index -> combination
struct Opts { int perm, coll, exch, pack, mem, lib; };
static Opts opts_at(long i, int dim, int nlib) {
  // strides chosen so that consecutive indices vary every option
  Opts o; int np = dim == 3 ? 3 : 2; long N = (long)np*3*2*3*2*nlib; long x = (i*149 + 7) % N; if (N % 149 == 0) x = i % N;
  o.perm = x % np; x /= np; o.coll = x % 3; x /= 3; o.exch = x % 2; x /= 2; o.pack = x % 3; x /= 3; o.mem = x % 2; x /= 2; o.lib = x % nlib; return o;
}
static long opts_count(int dim, int nlib) { return (long)(dim == 3 ? 3 : 2)*3*2*3*2*nlib; }

// ------------------------------------------------------------------ C01 remap
static void suite_C01(bool th, Suite &s) {
  int sl[4] = { add_specs(s, {single(P_A)}), add_specs(s, {single(P_B)}), add_specs(s, {single(P_C)}), add_specs(s, {single(P_D)}) };
  Rot rp; long k = 0;
  auto one = [&](int np, const Grid &g, const Tiles &a, const Tiles &b, int lib, int perm, int nq, int coll, int pack, int mem) {
    Case c = prog(np, { rem(g, lib, a, b, perm, nq, coll, pack, mem) }, { {C_MAKE,0}, {C_REMAP,0,0}, {C_REMAP,0,1}, {C_REMAP,0,0}, {C_DESTROY,0} });
    c.comm = (k++ % 7 == 3) ? 1 : 0;
    s.add(c, sl[rp(4)]);
  };
  // full option product on layout families
  for (int dim = 2; dim <= 3; dim++) {
    std::vector<Grid> gs; std::vector<int> nps;
    if (dim == 3) gs = { {3,{4,3,5}}, {3,{2,7,3}} }; else gs = { {2,{5,4,1}}, {2,{7,3,1}} };
    if (th) { if (dim == 3) gs.push_back({3,{6,1,4}}); else gs.push_back({2,{1,9,1}}); }
    nps = std::vector<int>{1,2,3,4,5,6,8};
    for (auto &g : gs) for (int np : nps) {
      auto fam = family(g, np, th && np <= 4 ? 2 : np <= 3 ? 1 : 0);
      for (auto &a : fam) for (auto &b : fam)
        for (int lib = 0; lib < 2; lib++) for (int perm = 0; perm < dim; perm++) for (int nq : {1,2,3,4,5}) for (int coll = 0; coll < 2; coll++) for (int pack = 0; pack < 3; pack++) for (int mem = 0; mem < 2; mem++) {
          if (np > 3 && !th && ((lib + perm + nq + coll + pack + mem) & 1)) continue;
          one(np, g, a, b, lib, perm, nq, coll, pack, mem);
        }
    }
  }
  // every box tiling of tiny grids, in x out, options cycling
  struct T { Grid g; int np; };
  std::vector<T> ts = { {{3,{2,2,2}},2}, {{3,{2,2,2}},3}, {{2,{2,2,1}},2}, {{2,{2,2,1}},3}, {{2,{3,2,1}},2}, {{2,{3,2,1}},3}, {{2,{2,2,1}},4}, {{2,{3,3,1}},3}, {{3,{3,2,2}},2}, {{3,{2,3,2}},2}, {{3,{2,2,3}},2} };
  if (th) { ts.push_back({{2,{3,3,1}},4}); ts.push_back({{3,{3,2,2}},3}); ts.push_back({{2,{4,3,1}},3}); }
  long idx = 0;
  for (auto &t : ts) {
    std::vector<Tiles> all; all_tilings(t.g, t.np, all);
    for (auto &a : all) for (auto &b : all) {
      long x = idx++; int perm = x % t.g.dim; x /= t.g.dim; int nq = 1 + x % 3; x /= 3; int pack = x % 3; x /= 3; int coll = x % 2; x /= 2; int mem = x % 2; x /= 2;
      one(t.np, t.g, a, b, x % 2, perm, nq, coll, pack, mem);
    }
  }
  // five-box pinwheel of the 3x3 grid (no processor grid, no slicing) against all families
  { Grid g = {2,{3,3,1}}; Tiles pin = {0,1,0,0, 2,2,0,1, 1,2,2,2, 0,0,1,2, 1,1,1,1};
    for (auto &b : family(g, 5, 1)) for (int perm = 0; perm < 2; perm++) for (int coll = 0; coll < 2; coll++) for (int pack = 0; pack < 3; pack++) for (int w = 0; w < 2; w++)
      one(5, g, w ? b : pin, w ? pin : b, 0, perm, 1 + (perm+coll+pack) % 3, coll, pack, w); }
  // sizes beyond any small constant: long rows, many values per point, more ranks
  struct L { Grid g; std::vector<int> np; };
  std::vector<L> ls = { {{3,{70,5,3}},{1,2,3,6}}, {{3,{3,70,5}},{1,2,4,7}}, {{3,{5,3,70}},{1,3,4,8}}, {{3,{18,17,19}},{2,4,9,12,16,27,100}}, {{3,{2,2,300}},{3,5}}, {{3,{300,2,2}},{2,5}}, {{2,{260,9,1}},{1,2,3,8}}, {{2,{9,260,1}},{1,2,4,7}}, {{2,{65,66,1}},{4,9,16,30,70}}, {{2,{1030,2,1}},{2,3}}, {{3,{1,1,40}},{4,6}}, {{3,{40,1,1}},{5}}, {{2,{1,40,1}},{6}} };
  if (th) { ls.push_back({{3,{130,33,9}},{4,8,16}}); ls.push_back({{2,{4100,3,1}},{2,4}}); ls.push_back({{2,{3,4100,1}},{2,4}}); ls.push_back({{3,{40,40,40}},{8,32,64}}); }
  for (auto &l : ls) for (int np : l.np) {
    auto fam = family(l.g, np, 0);
    for (auto &a : fam) for (auto &b : fam) for (int rep = 0; rep < (np > 12 ? (th ? 9 : 3) : (th ? 54 : 27)); rep++) {
      long x = idx++; static const int nqs[] = { 1, 2, 4, 5, 7, 8, 16, 3, 33 }; int perm = x % l.g.dim, nq = nqs[x/2 % 9], pack = x/3 % 3, coll = x/5 % 2, mem = x/7 % 2;
      one(np, l.g, a, b, x/11 % 2, perm, nq, coll, pack, mem); }
  }
  // many repetitions on one object
  for (int dim = 2; dim <= 3; dim++) for (int np : {1,2,4}) for (int coll = 0; coll < 2; coll++) for (int mem = 0; mem < 2; mem++) for (int pack = 0; pack < 3; pack++) {
    Grid g = dim == 3 ? Grid{3,{3,4,2}} : Grid{2,{4,3,1}}; auto fam = family(g, np, 0); long x = idx++;
    Case c = prog(np, { rem(g, x % 2, fam[x % fam.size()], fam[(x/2) % fam.size()], x/2 % dim, 1 + x % 4, coll, pack, mem) }, { {C_MAKE,0} });
    for (int i = 0; i < (th ? 2100 : 270); i++) c.cmds.push_back({C_REMAP,0,i % 3 == 1});
    c.cmds.push_back({C_DESTROY,0}); s.add(c, sl[rp(4)]);
  }
  s.bounds = "2d and 3d remaps: layout families x full option product (permutation, 1-3 values per point, collective, pack, memory, precision, in/out of place); every pair of box tilings of 2x2x2 (2,3 ranks), 2x2, 3x2 grids; long rows, up to 33 values per point and 30 ranks";
}

static const int FULLMASK_ALL = 0xff & ~(1 << vmpi::CH_WTIME);
static int perms(int dim) { return dim == 3 ? 3 : 2; }

// ------------------------------------------------------------------ C02 / C03 FFT = DFT
static const std::vector<std::vector<int>> FFT_ALL = { {C_MAKE,0}, {C_COMPUTE,0,1,0}, {C_COMPUTE,0,-1,1}, {C_REFRESH,0}, {C_COMPUTE,0,-1,0}, {C_REFRESH,0}, {C_COMPUTE,0,1,1}, {C_DESTROY,0} };
static void suite_fft(int dim, bool th, Suite &s) {
  int sl[4] = { add_specs(s, {single(P_A)}), add_specs(s, {single(P_B)}), add_specs(s, {single(P_C)}), add_specs(s, {single(P_D)}) };
  long k = 0; long q = 0;
  auto one = [&](int np, const Grid &g, const Tiles &a, const Tiles &b, const Opts &o) {
    Case c = prog(np, { fft(g, o.lib, a, b, o.perm, o.coll, o.exch, o.pack, o.mem) }, FFT_ALL);
    k++; c.comm = k % 11 == 5 ? 1 : k % 11 == 8 ? 2 : k % 23 == 3 ? 3 : 0;
    s.add(c, sl[k % 4]);
  };
  // A: layout families x full option product
  std::vector<Grid> ga = dim == 3 ? std::vector<Grid>{ {3,{4,3,5}} } : std::vector<Grid>{ {2,{5,4,1}}, {2,{6,3,1}} };
  if (th) { if (dim == 3) { ga.push_back({3,{2,6,3}}); ga.push_back({3,{5,2,4}}); } else { ga.push_back({2,{2,9,1}}); ga.push_back({2,{10,2,1}}); } }
  for (auto &g : ga) for (int np = 1; np <= (th ? 4 : 4); np++) {
    auto fam = family(g, np, th ? (np <= 3 ? 2 : 1) : np <= 3 || dim == 2 ? 1 : 0);
    int nlib = np <= 2 || th ? 4 : 1;
    for (auto &a : fam) for (auto &b : fam) for (long i = 0; i < opts_count(dim, nlib); i++) {
      Opts o = opts_at(i, dim, nlib); if (nlib == 1) o.lib = (int)(q++ % 4);
      if (!th && np == 2 && dim == 3 && ((i + q++) & 1)) continue;
      one(np, g, a, b, o);
    }
  }
  // B: more ranks and other grids, full product on a few layouts
  std::vector<Grid> gb = dim == 3 ? std::vector<Grid>{ {3,{6,5,4}}, {3,{2,2,2}}, {3,{8,3,10}}, {3,{2,15,4}}, {3,{9,2,2}}, {3,{16,4,2}} }
                                  : std::vector<Grid>{ {2,{6,5,1}}, {2,{2,2,1}}, {2,{16,3,1}}, {2,{4,25,1}}, {2,{9,8,1}}, {2,{30,2,1}}, {2,{12,12,1}} };
  for (auto &g : gb) for (int np : th ? std::vector<int>{2,3,4,5,6,7,8,9,10,12,16,18,24} : std::vector<int>{3,4,5,6,7,8,9,12,16}) {
    auto fam = family(g, np, th ? 1 : dim == 2 ? 1 : 0);
    long n = opts_count(dim, 1);
    for (auto &a : fam) for (auto &b : fam) {
      long step = th || fam.size() <= 4 ? 1 : 3;
      if (!th && np > 8) step *= 3;
      for (long i = q % step; i < n; i += step) { Opts o = opts_at(i, dim, 1); o.lib = (int)(q++ % 4); one(np, g, a, b, o); }
    }
  }
  // C: every box tiling, in x out
  struct T { Grid g; int np; };
  std::vector<T> ts;
  if (dim == 3) { ts = { {{3,{2,2,2}},2}, {{3,{2,2,2}},3} }; if (th) { ts.push_back({{3,{3,2,2}},2}); ts.push_back({{3,{2,2,3}},2}); } }
  else { ts = { {{2,{2,2,1}},2}, {{2,{2,2,1}},3}, {{2,{2,2,1}},4}, {{2,{3,2,1}},2}, {{2,{3,2,1}},3}, {{2,{2,3,1}},3}, {{2,{3,3,1}},2} }; if (th) ts.push_back({{2,{3,3,1}},3}); }
  long idx = 0;
  for (auto &t : ts) {
    std::vector<Tiles> all; all_tilings(t.g, t.np, all);
    for (auto &a : all) for (auto &b : all) for (int rep = 0; rep < (th ? 4 : dim == 2 && t.np < 4 ? 3 : 1); rep++) one(t.np, t.g, a, b, opts_at(idx++, dim, 4));
  }
  // D: larger grids
  std::vector<Grid> gd = dim == 3 ? std::vector<Grid>{ {3,{20,18,16}}, {3,{32,6,25}}, {3,{3,40,12}} } : std::vector<Grid>{ {2,{64,45,1}}, {2,{27,50,1}}, {2,{128,3,1}} };
  for (auto &g : gd) for (int np : th ? std::vector<int>{1,2,3,4,6,8,11,13,25,27,32,48,64} : std::vector<int>{1,2,4,6,8,13,27,64}) {
    auto fam = family(g, np, 0); if (np == 64) fam.resize(std::min<size_t>(2, fam.size()));
    for (auto &a : fam) for (auto &b : fam) for (int rep = 0; rep < (th ? 6 : 2); rep++) one(np, g, a, b, opts_at(idx++, dim, 4));
  }
  // E: many ranks
  for (auto &g : dim == 3 ? std::vector<Grid>{ {3,{12,10,9}}, {3,{5,3,4}} } : std::vector<Grid>{ {2,{45,32,1}}, {2,{9,10,1}} }) for (int np : th ? std::vector<int>{65,72,81,96,100,125,128} : std::vector<int>{72,100,128}) {
    auto fam = family(g, np, 0); if (fam.size() > 2 && !th) fam.resize(2);
    for (auto &a : fam) for (auto &b : fam) one(np, g, a, b, opts_at(idx++*5, dim, 1));
  }
  s.bounds = std::string(dim == 3 ? "3d" : "2d") + " FFTs, forward and backward, in and out of place: layout families x full option product for 1-4 ranks; further grids on up to " + "128 ranks; every pair of box tilings of tiny grids";
}

// ------------------------------------------------------------------ C04 round trips and scaling
static void suite_C04(bool th, Suite &s) {
  int sl[4] = { add_specs(s, {single(P_A)}), add_specs(s, {single(P_B)}), add_specs(s, {single(P_C)}), add_specs(s, {single(P_D)}) };
  long k = 0, idx = 0;
  // histories over {F,B} x {in place, separate} x scaling changes, all up to a depth
  struct H { std::vector<std::vector<int>> c; };
  std::vector<H> hs;
  for (int ip = 0; ip < 16; ip++) hs.push_back({{ {C_COMPUTE,0,1,ip&1}, {C_COMPUTE,0,-1,ip>>1&1}, {C_COMPUTE,0,1,ip>>2&1}, {C_COMPUTE,0,-1,ip>>3&1} }});
  for (int v = 0; v < 32; v++) {      // scale set to v0, v1, v2 around F and B
    std::vector<std::vector<int>> c; int x = v;
    c.push_back({C_SETKEY,0,4,x&1}); x >>= 1; c.push_back({C_COMPUTE,0,1,x&1}); x >>= 1; c.push_back({C_SETKEY,0,4,x&1}); x >>= 1; c.push_back({C_COMPUTE,0,-1,x&1}); x >>= 1;
    c.push_back({C_SETKEY,0,4,x&1}); c.push_back({C_COMPUTE,0,1,0}); c.push_back({C_COMPUTE,0,-1,1}); hs.push_back({c});
  }
  for (int v = 0; v < 8; v++) hs.push_back({{ {C_COMPUTE,0,-1,v&1}, {C_COMPUTE,0,1,v>>1&1}, {C_COMPUTE,0,-1,v>>2&1}, {C_COMPUTE,0,1,0} }});
  hs.push_back({{ {C_COMPUTE,0,1,0}, {C_REFRESH,0}, {C_COMPUTE,0,1,0}, {C_REFRESH,0}, {C_COMPUTE,0,1,1}, {C_COMPUTE,0,-1,0}, {C_REFRESH,0}, {C_COMPUTE,0,-1,0} }});
  for (int dim = 2; dim <= 3; dim++) {
    std::vector<Grid> gs = dim == 3 ? std::vector<Grid>{ {3,{4,3,2}}, {3,{5,2,6}} } : std::vector<Grid>{ {2,{5,4,1}}, {2,{3,10,1}} };
    if (th) { if (dim == 3) { gs.push_back({3,{8,9,5}}); gs.push_back({3,{2,2,2}}); } else { gs.push_back({2,{16,15,1}}); gs.push_back({2,{2,2,1}}); } }
    for (auto &g : gs) for (int np : th ? std::vector<int>{1,2,3,4,5,6,8} : std::vector<int>{1,2,3,4,6}) {
      auto fam = family(g, np, np <= 4 || th ? 1 : 0);
      for (auto &a : fam) for (auto &b : fam) for (size_t h = 0; h < hs.size(); h++) for (int sc = -1; sc <= 1; sc++) {
        if (!th && np > 1 && (h + sc + 1 + k++) % 2) continue;
        Opts o = opts_at(idx++, dim, 4);
        Obj ob = fft(g, o.lib, a, b, o.perm, o.coll, o.exch, o.pack, o.mem); ob.scale = sc;
        Case c = prog(np, { ob }, { {C_MAKE,0} });
        for (auto &x : hs[h].c) c.cmds.push_back(x);
        c.cmds.push_back({C_DESTROY,0});
        s.add(c, sl[idx % 4]);
      }
    }
  }
  s.bounds = "histories of forward/backward FFTs with scaling set to on, off or default and changed between calls, every in-place/separate combination, over layout families of 2d and 3d grids on 1-6 ranks";
}

// ------------------------------------------------------------------ C05 schedules
static void suite_C05(bool th, Suite &s) {
  using namespace vmpi;
  uint32_t mWS = M({CH_WAITANY, CH_SEND, CH_ANYSRC, CH_TEST}), mW = M({CH_WAITANY, CH_ANYSRC, CH_TEST}), mALL = FULLMASK_ALL, mCS = M({CH_COLL, CH_SCHED, CH_ANYSRC, CH_TEST}), mSD = M({CH_SEND, CH_DELIV, CH_COLL});
  long C = th ? 60000 : 6000;
  auto pols = [&]() { return std::vector<Spec>{ single(P_A,true), single(P_B,true), single(P_C,true), single(P_D,true) }; };
  // all 2^6 policies
  std::vector<Spec> allpol; for (int v = 0; v < 64; v++) { Policy p = { (uint8_t)(v&1), (uint8_t)(v>>1&1), (uint8_t)(v>>2&1), (uint8_t)(v>>3&1), (uint8_t)(v>>4&1), (uint8_t)(v>>5&1), (uint8_t)(v & 1 ? 0xA5 : 0) }; allpol.push_back(single(p, v < 4)); }
  int s_pol = add_specs(s, allpol);
  std::vector<Spec> sp;
  if (th) {
    sp = pols(); sp.push_back(explore(P_A, M_FULL, mWS, 0, C)); sp.push_back(explore(P_B, M_FULL, mWS, 0, C)); sp.push_back(explore(P_A, M_DEV, mALL, 2, C)); sp.push_back(explore(P_B, M_DEV, mALL, 2, C));
  } else { sp = pols(); sp.push_back(explore(P_A, M_FULL, mWS, 0, C)); sp.push_back(explore(P_B, M_DEV, mALL, 1, C)); sp.push_back(explore(P_A, M_DEV, mALL, 1, C)); }
  int s_small = add_specs(s, sp);
  if (th) { sp = pols(); sp.push_back(explore(P_A, M_RANKWISE, mW, 0, C)); sp.push_back(explore(P_B, M_RANKWISE, mWS, 0, C/2)); sp.push_back(explore(P_A, M_DEV, mALL, 2, C)); sp.push_back(explore(P_D, M_DEV, mALL, 2, C)); }
  else { sp = pols(); sp.push_back(explore(P_A, M_DEV, mW, 1, C)); sp.push_back(explore(P_D, M_DEV, mALL, 1, C)); }
  int s_big = add_specs(s, sp);
  if (th) { sp = pols(); sp.push_back(explore(P_A, M_FULL, M({CH_COLL}), 0, C)); sp.push_back(explore(P_A, M_DEV, mCS, 2, C)); sp.push_back(explore(P_D, M_DEV, mCS, 2, C)); }
  else { sp = pols(); sp.push_back(explore(P_A, M_DEV, M({CH_COLL}), 2, C)); sp.push_back(explore(P_D, M_DEV, mCS, 1, C)); }
  int s_coll = add_specs(s, sp);
  (void)mSD; long idx = 0, fk = 0;
  for (int dim = 2; dim <= 3; dim++) {
    Grid g = dim == 3 ? Grid{3,{4,3,2}} : Grid{2,{4,3,1}};
    // one remap, all pairs exchange
    for (int np = 2; np <= (th ? 4 : 3); np++) {
      auto fam = family(g, np, 1);
      for (auto &a : fam) for (auto &b : fam) {
        idx++;
        if (a == b) continue;
        if (!th && np == 3 && idx % 3) continue;
        if (th && np == 4 && idx % 5) continue;
        for (int coll = 0; coll < 2; coll++) {
          Case c = prog(np, { rem(g, idx & 1, a, b, idx % perms(dim), 1 + idx % 2, coll, idx % 3, idx % 2) }, { {C_MAKE,0}, {C_REMAP,0,(int)(idx>>1&1)}, {C_DESTROY,0} });
          s.add(c, coll ? s_coll : np <= 3 ? s_small : s_big);
        }
      }
    }
    // remaps back to back on two objects: messages of the next operation may overtake
    for (int np = 2; np <= (th ? 5 : 4); np++) {
      auto fam = family(g, np, 0); auto fam1 = family(g, np, 1);
      for (size_t i = 0; i < fam1.size(); i++) {
        auto &a = fam1[i], &b = fam1[(i+1) % fam1.size()], &d = fam1[(i+2) % fam1.size()];
        for (int coll = 0; coll < 3; coll++) {
          Case c = prog(np, { rem(g, 0, a, b, i % perms(dim), 1, coll & 1, i % 3, i & 1), rem(g, 0, b, d, 0, 2, coll > 1 ? 0 : coll & 1, (i+1) % 3, 1) },
            { {C_MAKE,0}, {C_MAKE,1}, {C_REMAP,0,0}, {C_REMAP,1,1}, {C_REMAP,0,1}, {C_DESTROY,0}, {C_REMAP,1,0}, {C_DESTROY,1} });
          s.add(c, s_pol);
          if (th || np < 4 || fk++ % 3 == 0) s.add(c, coll == 0 ? s_big : s_coll);
        }
      }
    }
    // whole FFTs
    for (int np = 2; np <= (th ? 6 : 4); np++) {
      auto fam = family(g, np, 0);
      for (auto &a : fam) for (auto &b : fam) for (int coll = 0; coll < 3; coll++) for (int ex = 0; ex < 2; ex++) {
        idx++;
        Case c = prog(np, { fft(g, idx % 4, a, b, idx % perms(dim), coll, ex, idx % 3, idx & 1) }, { {C_MAKE,0}, {C_COMPUTE,0,1,(int)(idx>>1&1)}, {C_COMPUTE,0,-1,(int)(idx>>2&1)}, {C_DESTROY,0} });
        s.add(c, s_pol);
        int thin = th ? 1 : np == 2 ? 2 : np == 3 ? 5 : 11;
        if (fk++ % thin) continue;
        s.add(c, np == 2 && coll == 0 ? s_small : s_big);
        if (coll == 1) s.add(c, s_coll);
      }
    }
    // other operations and several objects, all policies
    for (int np : th ? std::vector<int>{2,3,4,5,6,8} : std::vector<int>{2,3,4,6}) {
      auto fam = family(g, np, 0);
      for (auto &a : fam) for (auto &b : fam) for (int coll = 0; coll < 3; coll++) {
        idx++;
        Case c = prog(np, { fft(g, idx % 4, a, b, idx % perms(dim), coll, idx & 1, idx % 3, idx>>1&1), rem(g, idx & 1, b, a, 0, 3, coll & 1, 0, 1) },
          { {C_MAKE,0}, {C_MAKE,1}, {C_ONLYREMAPS,0,1,0}, {C_REMAP,1,0}, {C_ONLYREMAPS,0,-1,1}, {C_REMAP,1,1}, {C_COMPUTE,0,1,0}, {C_DESTROY,1}, {C_COMPUTE,0,-1,0}, {C_DESTROY,0} });
        c.comm = idx % 5 == 0 ? 4 : idx % 5 == 1 ? 3 : 0;
        s.add(c, s_pol);
      }
    }
    // tuning
    for (int np = 2; np <= 3; np++) {
      auto fam = family(g, np, 0);
      Case c = prog(np, { fft(g, 0, fam[0], fam[1], 1) }, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,0,1,0,1}, {C_COMPUTE,0,1,0}, {C_COMPUTE,0,-1,1}, {C_DESTROY,0} });
      s.add(c, s_pol);
    }
  }
  s.bounds = "schedules of remaps (full product of completion order x buffered/synchronous sends on 2-3 ranks), FFTs, back-to-back operations of several objects: exhaustive per-rank completion orders, all 64 uniform policies, all deviations (up to 2) in completion, sends, delivery, collectives and rank order";
}

// ------------------------------------------------------------------ C06 memory bounds
static void suite_C06(bool th, Suite &s) {
  int sl[4] = { add_specs(s, {single(P_A)}), add_specs(s, {single(P_B)}), add_specs(s, {single(P_C)}), add_specs(s, {single(P_D)}) };
  long k = 0, idx = 0;
  for (int dim = 2; dim <= 3; dim++) {
    std::vector<Grid> gs = dim == 3 ? std::vector<Grid>{ {3,{4,3,2}}, {3,{2,5,6}}, {3,{9,2,4}} } : std::vector<Grid>{ {2,{5,4,1}}, {2,{2,9,1}}, {2,{12,3,1}} };
    if (th) { if (dim == 3) { gs.push_back({3,{3,8,5}}); gs.push_back({3,{10,10,10}}); } else { gs.push_back({2,{25,6,1}}); gs.push_back({2,{3,40,1}}); } }
    for (auto &g : gs) for (int np : th ? std::vector<int>{1,2,3,4,5,6,7,8,12,16} : std::vector<int>{1,2,3,4,5,6,8,12}) {
      auto fam = family(g, np, np <= 4 || th ? 1 : 0);
      for (auto &a : fam) for (auto &b : fam) {
        long n = opts_count(dim, 1);
        long step = th ? 1 : fam.size() <= 4 ? 2 : 6;
        for (long i = k++ % step; i < n; i += step) {
          Opts o = opts_at(i, dim, 1); o.lib = idx++ % 4;
          Case c = prog(np, { fft(g, o.lib, a, b, o.perm, o.coll, o.exch, o.pack, o.mem) }, { {C_MAKE,0},
            {C_COMPUTE,0,1,0}, {C_COMPUTE,0,-1,0}, {C_ONLYREMAPS,0,1,0}, {C_ONLYREMAPS,0,-1,1}, {C_COMPUTE,0,1,1}, {C_COMPUTE,0,-1,1}, {C_ONLY1D,0,1} });
          for (int w = 1; w <= (dim == 3 ? 4 : 3); w++) c.cmds.push_back({C_ONEREMAP,0,1,w,(int)(idx&1)});
          for (int w = (dim == 3 ? 4 : 3); w >= 1; w--) c.cmds.push_back({C_ONEREMAP,0,-1,w,(int)(idx>>1&1)});
          c.cmds.push_back({C_ONLY1D,0,-1}); c.cmds.push_back({C_DESTROY,0});
          s.add(c, sl[idx % 4]);
        }
        for (int v = 0; v < (th ? 24 : 4); v++) { idx++;
          Case c = prog(np, { rem(g, idx & 1, a, b, idx % perms(dim), 1 + idx/2 % 6, idx>>1&1, idx % 3, idx>>2&1) }, { {C_MAKE,0}, {C_REMAP,0,0}, {C_REMAP,0,1}, {C_REMAP,0,0}, {C_DESTROY,0} });
          s.add(c, sl[idx % 4]);
        }
      }
    }
  }
  s.bounds = "every operation with buffers of exactly the reported sizes (and separate inputs of exactly the tile), guarded heap, over layout families, all option combinations, 1-12 ranks";
}

// ------------------------------------------------------------------ C07 1d lengths
static bool smooth(int n) { for (int p : {2,3,5}) while (n % p == 0) n /= p; return n == 1; }
static void suite_C07(bool th, Suite &s) {
  int sl[2] = { add_specs(s, {single(P_A)}), add_specs(s, {single(P_B)}) };
  int top = th ? 2500 : 720; long idx = 0;
  for (int dim = 2; dim <= 3; dim++) for (int n = 2; n <= top; n++) {
    if (smooth(n)) {
      for (int d = 0; d < dim; d++) for (int lib = 0; lib < 4; lib++) {
        Grid g; g.dim = dim; g.n[0] = g.n[1] = g.n[2] = 2; g.n[d] = n;
        for (int np : n <= 30 ? std::vector<int>{1,2,3,5,7} : n <= 200 ? std::vector<int>{1,3} : std::vector<int>{1 + (int)(idx & 1)}) {
          idx++;
          auto fs = factorisations(np, dim); Tiles a = bricks(g, np, fs[idx % fs.size()], 0), b = bricks(g, np, fs[(idx/2) % fs.size()], 1);
          Obj o = fft(g, lib, a, b, idx % perms(dim), -1, -1, -1, -1);
          std::vector<std::vector<int>> cm = { {C_MAKE,0}, {C_COMPUTE,0,1,0}, {C_REFRESH,0}, {C_COMPUTE,0,-1,1}, {C_ONLY1D,0,1}, {C_ONLY1D,0,-1}, {C_DESTROY,0} };
          if (n > 300) cm = { {C_MAKE,0}, {C_ONLY1D,0,1}, {C_ONLY1D,0,-1}, {C_DESTROY,0} };
          s.add(prog(np, { o }, cm), sl[idx & 1]);
        }
      }
    }
  }
  // long rows: the rest up to a larger bound in turn, and the longest of each kind
  { std::vector<int> longs; for (int n = top+1; n <= (th ? 20000 : 6000); n++) if (smooth(n)) longs.push_back(n);
    for (int n : { 8192, 16384, 32768, 65536, 6561, 19683, 59049, 15625, 7776, 10000, 30000, 46656, 64800, 50000 }) if (n > (th ? 20000 : 6000)) longs.push_back(n);
    if (th) for (int n : { 131072, 1<<18, 1<<20, 177147, 390625, 1000000, 531441 }) longs.push_back(n);
    for (int n : longs) for (int dim = 2; dim <= 3; dim++) for (int lib = 0; lib < (th ? 4 : 2); lib++) { idx++;
      int d = idx % dim; Grid g; g.dim = dim; g.n[0] = g.n[1] = g.n[2] = 2; g.n[d] = n; int np = 1 + idx % 3 % 2;
      auto fs = factorisations(np, dim); Tiles a = bricks(g, np, fs[idx % fs.size()], 0), b = bricks(g, np, fs[(idx/2) % fs.size()], 1);
      int f = idx & 1 ? 1 : -1;
      s.add(prog(np, { fft(g, th ? lib : lib == 0 ? (int)(idx/2 % 2) : (int)(idx/2 % 4), a, b, idx % perms(dim)) }, idx % 4 == 3 ? std::vector<std::vector<int>>{ {C_MAKE,0}, {C_COMPUTE,0,f,0}, {C_COMPUTE,0,-f,1}, {C_DESTROY,0} }
        : std::vector<std::vector<int>>{ {C_MAKE,0}, {C_ONLY1D,0,f}, {C_ONLY1D,0,-f}, {C_DESTROY,0} }), sl[idx & 1]); } }
  // refused: sizes with other factors (all below the top), below 2
  for (int dim = 2; dim <= 3; dim++) for (int n = -2; n <= (th ? 2500 : 400); n++) if (n < 2 || !smooth(n)) for (int d = 0; d < dim; d++) {
    idx++; int np = 1 + idx % 3;
    Grid g; g.dim = dim; g.n[0] = 2; g.n[1] = 4; g.n[2] = 2; g.n[d] = n;
    Tiles a = n >= 1 ? one_owner(g, np, idx % np, 0) : Tiles(np*2*dim, 0);
    if (n < 1) for (int r = 0; r < np; r++) for (int k = 0; k < dim; k++) a[(r*dim+k)*2+1] = k == d ? -1 : g.n[k]-1;
    Case c = prog(np, { fft(g, idx % 4, a, a, 0) }, { {C_CREATE,0,-1}, {C_MUSTFAIL}, {C_SETUP,0} }); c.expect = EXP_REFUSED;
    s.add(c, sl[idx & 1]);
  }
  // products of two large odd parts that look smooth to a sloppy test
  for (int n : { 1<<14, 3*3*3*3*3*3*3, 5*5*5*5*5, 1000, 30030 % 1000, 7*128, 11*243, 13*625, 49*2, 121*3, 2*3*5*7, 77, 143, 1021, 2039, 4093, 49*49 }) for (int dim = 2; dim <= 3; dim++) for (int d = 0; d < dim; d++) {
    Grid g; g.dim = dim; g.n[0] = g.n[1] = g.n[2] = 2; g.n[d] = n; idx++;
    Tiles a = one_owner(g, 1, 0, 0);
    if (smooth(n)) { if (n <= (th ? 20000 : 5000)) s.add(prog(1, { fft(g, idx % 4, a, a, 0) }, { {C_MAKE,0}, {C_ONLY1D,0,1}, {C_DESTROY,0} }), sl[0]); }
    else { Case c = prog(1, { fft(g, idx % 4, a, a, 0) }, { {C_CREATE,0,-1}, {C_MUSTFAIL}, {C_SETUP,0} }); c.expect = EXP_REFUSED; s.add(c, sl[0]); }
  }
  s.bounds = "every 2/3/5-smooth length up to " + std::to_string(top) + " in each dimension of 2d and 3d grids, both directions, KISS and FFTW3, single and double; every longer one up to " + (th ? "20000" : "6000") + " and chosen ones up to " + (th ? "2^20" : "65536") + " in one dimension; every other length up to " + (th ? "2500" : "400") + " refused";
}

// ------------------------------------------------------------------ C08 tuning
static void suite_C08(bool th, Suite &s) {
  using namespace vmpi;
  int s1 = add_specs(s, {single(P_A,true), single(P_B,true), single(P_C,true)});
  long C = th ? 20000 : 1500;
  int sx = add_specs(s, {explore(P_A, M_DEV, M({CH_WTIME}), th ? 2 : 1, C), explore(P_B, M_DEV, M({CH_WTIME}), 1, C)});
  long idx = 0;
  for (int dim = 2; dim <= 3; dim++) {
    std::vector<Grid> gs = dim == 3 ? std::vector<Grid>{ {3,{2,3,2}}, {3,{4,3,5}} } : std::vector<Grid>{ {2,{3,2,1}}, {2,{6,5,1}} };
    for (auto &g : gs) for (int np : th ? std::vector<int>{1,2,3,4,6,8} : std::vector<int>{1,2,3,4}) {
      auto fam = family(g, np, th ? 1 : 0);
      for (auto &a : fam) for (auto &b : fam) {
        // deterministic clocks x time limits x flags
        for (int wt : {0,4,5,6,7}) for (int tmax : {0,1,1000,5000,8000,12000,16000,30000,100000,200000,2000000,1000000000}) for (int flag = -1; flag <= 1; flag++) for (int tf = 0; tf < 2; tf++) {
          idx++;
          if (!th && (idx * 7919 + idx / 13) % (np <= 2 ? 5 : 24)) continue;
          Opts o = opts_at(idx, dim, 4); int niter = idx % 8 == 5 && wt != 6 ? 40 : 1 + idx % 3;
          Obj ob = fft(g, o.lib, a, b, o.perm); ob.mem = o.mem; if (idx & 1) { ob.coll = o.coll; ob.exch = o.exch; ob.pack = o.pack; }
          ob.flavour = idx % 9 == 4 ? FL_C : idx % 9 == 7 ? FL_F90 : FL_CXX;
          int exp = 0; if (wt == 0 && tmax >= 2000000) exp = 9; if (wt == 5) exp = 0; if (wt == 6 && tmax && tmax <= 30000) exp = 1; if (tmax == 1000000000 && wt != 6) exp = 9;
          Case c = prog(np, { ob }, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,flag,niter,tmax,tf,exp} });
          if (o.mem == 0) c.cmds.push_back({C_SETMEM,0});
          for (auto &x : std::vector<std::vector<int>>{ {C_SIZES,0}, {C_COMPUTE,0,1,0}, {C_COMPUTE,0,-1,1}, {C_STATS,0}, {C_ONLYREMAPS,0,1,0}, {C_DESTROY,0} }) c.cmds.push_back(x);
          c.wt = wt; s.add(c, s1);
        }
        // a clock that shows the data sent: exact time limits and per-trial times
        if (np > 1) for (int tmax : {0,150,250,350,450,550,650,750,850,950,1050,1550,2050,2950,3050,4050,6050,9050,12050,30050}) for (int flag = -1; flag <= 1; flag++) for (int tf = 0; tf < 2; tf++) {
          idx++;
          if (!th && (idx * 7919 + idx / 13) % (np <= 2 ? 7 : 29)) continue;
          Opts o = opts_at(idx, dim, 4); Obj ob = fft(g, o.lib, a, b, o.perm); ob.mem = o.mem; if (idx & 1) { ob.coll = o.coll; ob.exch = o.exch; ob.pack = o.pack; }
          ob.flavour = idx % 9 == 4 ? FL_C : idx % 9 == 7 ? FL_F90 : FL_CXX;
          Case c = prog(np, { ob }, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,flag,(int)(1 + idx % 4),tmax,tf} });
          if (o.mem == 0) c.cmds.push_back({C_SETMEM,0});
          for (auto &x : std::vector<std::vector<int>>{ {C_SIZES,0}, {C_COMPUTE,0,1,0}, {C_STATS,0}, {C_DESTROY,0} }) c.cmds.push_back(x);
          c.wt = 8; s.add(c, s1);
        }
        // every single (thorough: every pair of) slow or fast measurement on any rank
        if (np > 1) for (int wt : {1,2,3}) for (int tmax : {0,8000,40000}) { idx++;
          if (!th && idx % 11) continue;
          Opts o = opts_at(idx, dim, 4); Obj ob = fft(g, o.lib, a, b, o.perm); ob.mem = o.mem; if (idx & 1) { ob.coll = o.coll; ob.exch = o.exch; ob.pack = o.pack; }
          Case c = prog(np, { ob }, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,(int)(idx % 3) - 1,1,tmax,(int)(idx & 1)} });
          if (o.mem == 0) c.cmds.push_back({C_SETMEM,0});
          c.cmds.push_back({C_COMPUTE,0,1,0}); c.cmds.push_back({C_DESTROY,0});
          c.wt = wt; s.add(c, sx);
        }
      }
    }
  }
  s.bounds = std::string("tuning with constant, rank-dependent, zero and slow clocks x time limits x directions x partial timings; every ") + (th ? "pair of deviating clock readings" : "single deviating clock reading") + " of any rank";
}

// ------------------------------------------------------------------ C09 lifecycles
static void interleave(const std::vector<std::vector<std::vector<int>>> &seqs, std::vector<size_t> pos, std::vector<std::vector<int>> cur, std::vector<std::vector<std::vector<int>>> &out) {
  bool end = true;
  for (size_t i = 0; i < seqs.size(); i++) if (pos[i] < seqs[i].size()) { end = false; auto p = pos; auto c = cur; c.push_back(seqs[i][p[i]++]); interleave(seqs, p, c, out); }
  if (end) out.push_back(cur);
}
static void suite_C09(bool th, Suite &s) {
  int sl[4] = { add_specs(s, {single(P_A,true)}), add_specs(s, {single(P_B,true)}), add_specs(s, {single(P_C,true)}), add_specs(s, {single(P_D,true)}) };
  int both = add_specs(s, {single(P_A,true), single(P_B,true)});
  long idx = 0;
  auto mk = [&](int i, int kind, int dim, const Tiles &a, const Tiles &b, const Grid &g) {
    Opts o = opts_at(idx*3 + i*17, dim, 4); Obj ob = kind == K_FFT ? fft(g, o.lib, a, b, o.perm, o.coll, o.exch, o.pack, o.mem) : rem(g, o.lib & 1, a, b, o.perm, 1 + (idx+i) % 3, o.coll & 1, o.pack, o.mem);
    ob.flavour = (idx + i) % 7 == 0 ? (int)(1 + idx % 3) : 0; return ob; };
  auto seq = [&](int i, int kind, int len) {
    std::vector<std::vector<int>> v = { {C_MAKE,i} };
    if (kind == K_FFT) { if (len > 2) v.push_back({C_COMPUTE,i,1,(int)(idx&1)}); if (len > 3) v.push_back({C_COMPUTE,i,-1,(int)(idx>>1&1)}); if (len > 4) v.push_back({C_ONLYREMAPS,i,1,0}); }
    else { if (len > 2) v.push_back({C_REMAP,i,(int)(idx&1)}); if (len > 3) v.push_back({C_REMAP,i,(int)(idx>>1&1)}); if (len > 4) v.push_back({C_REMAP,i,0}); }
    v.push_back({C_DESTROY,i}); return v; };
  Grid g3[2] = { {3,{4,3,2}}, {3,{2,5,3}} }, g2[2] = { {2,{5,4,1}}, {2,{3,6,1}} };
  // all interleavings of two lifecycles, for every pair of kinds
  for (int np : th ? std::vector<int>{1,2,3,4} : std::vector<int>{1,2,3}) for (int ka = 0; ka < 4; ka++) for (int kb = 0; kb < 4; kb++) {
    int da = ka & 1 ? 2 : 3, db = kb & 1 ? 2 : 3; Grid ga = da == 3 ? g3[0] : g2[0], gb = db == 3 ? g3[1] : g2[1];
    auto fa = family(ga, np, 1), fb = family(gb, np, 1);
    for (int rep = 0; rep < (th ? 12 : 3); rep++) {
      std::vector<std::vector<std::vector<int>>> outs; interleave({ seq(0, ka >> 1, 4), seq(1, kb >> 1, 4) }, {0,0}, {}, outs);
      for (auto &o : outs) { idx++;
        Case c = prog(np, { mk(0, ka >> 1, da, fa[idx % fa.size()], fa[(idx/3+1) % fa.size()], ga), mk(1, kb >> 1, db, fb[(idx/2) % fb.size()], fb[(idx/5+2) % fb.size()], gb) }, o);
        c.comm = (int)(idx % 6); if (c.comm == 4 && np > 2) c.comm = 0;
        s.add(c, sl[idx % 4]); }
    }
  }
  // three lifecycles
  for (int np : th ? std::vector<int>{2,3,4} : std::vector<int>{2,3}) for (int v = 0; v < (th ? 8 : 3); v++) {
    int k0 = v & 1, k1 = v >> 1 & 1, k2 = v >> 2 & 1; auto f3 = family(g3[0], np, 1), f2 = family(g2[0], np, 1), f3b = family(g3[1], np, 1);
    std::vector<std::vector<std::vector<int>>> outs; interleave({ seq(0, k0, 3), seq(1, k1, 3), seq(2, k2, 3) }, {0,0,0}, {}, outs);
    for (auto &o : outs) { idx++;
      Case c = prog(np, { mk(0, k0, 3, f3[idx % f3.size()], f3[(idx/3+1) % f3.size()], g3[0]), mk(1, k1, 2, f2[idx % f2.size()], f2[(idx/2+1) % f2.size()], g2[0]), mk(2, k2, 3, f3b[idx % f3b.size()], f3b[(idx/4+1) % f3b.size()], g3[1]) }, o);
      c.comm = idx % 3 == 0 ? 5 : 0; s.add(c, sl[idx % 4]); }
  }
  // destroyed at every stage; every option, layout pair and communicator
  for (int dim = 2; dim <= 3; dim++) for (int np : th ? std::vector<int>{1,2,3,4,6} : std::vector<int>{1,2,3,4}) {
    Grid g = dim == 3 ? g3[0] : g2[0]; auto fam = family(g, np, th ? 1 : 0);
    for (auto &a : fam) for (auto &b : fam) for (int stage = 0; stage < 7; stage++) for (int kind = 0; kind < 2; kind++) for (long i = 0; i < opts_count(dim,1); i += kind ? 6 : (th ? 1 : 5)) {
      idx++; Opts o = opts_at(i + idx, dim, 4);
      Obj ob = kind == K_FFT ? fft(g, o.lib, a, b, o.perm, o.coll, o.exch, o.pack, o.mem) : rem(g, o.lib & 1, a, b, o.perm, 1 + idx % 3, o.coll & 1, o.pack, o.mem);
      ob.flavour = idx % 4;
      std::vector<std::vector<int>> cm = { {C_CREATE,0,-1} };
      if (stage >= 1) cm.push_back({C_SETOPTS,0});
      if (stage >= 2) cm.push_back({C_SETUP,0});
      if (stage >= 3 && o.mem == 0) cm.push_back({C_SETMEM,0});
      if (stage >= 3 && kind == K_FFT) cm.push_back({C_STATS,0});
      if (stage >= 4) cm.push_back(kind ? std::vector<int>{C_REMAP,0,(int)(idx&1)} : std::vector<int>{C_COMPUTE,0,1,(int)(idx&1)});
      if (stage >= 5) cm.push_back(kind ? std::vector<int>{C_REMAP,0,(int)(idx&1)} : std::vector<int>{C_COMPUTE,0,-1,(int)(idx&1)});
      if (stage >= 6) for (int r = 0; r < 3; r++) { cm.push_back({C_REFRESH,0}); cm.push_back(kind ? std::vector<int>{C_REMAP,0,(int)(idx&1)} : std::vector<int>{C_COMPUTE,0,r == 1 ? -1 : 1,(int)(idx&1)}); }
      cm.push_back({C_DESTROY,0});
      // the caller's communicator stays usable: a second life
      if (idx & 1) { cm.push_back({C_BARRIER}); cm.push_back({C_MAKE,0}); cm.push_back(kind ? std::vector<int>{C_REMAP,0,0} : std::vector<int>{C_COMPUTE,0,1,0}); cm.push_back({C_DESTROY,0}); }
      Case c = prog(np, { ob }, cm); c.comm = (int)(idx/2 % 5); if (c.comm == 4 && np > 3) c.comm = 0;
      s.add(c, sl[idx % 4]);
    }
    // options changed after setup have no effect
    for (auto &a : fam) for (auto &b : fam) for (int key = 0; key < 4; key++) for (int v = 0; v < 3; v++) for (int kind = 0; kind < 2; kind++) for (int base = 0; base < 6; base++) {
      if (kind == 1 && (key == 1 || key == 3)) continue;
      if ((key == 1 || key == 3 || (kind == 1 && key == 0)) && v == 2) continue;
      idx++; Opts o = opts_at(base*13 + idx, dim, 4);
      Obj ob = kind == K_FFT ? fft(g, o.lib, a, b, o.perm, base % 3, base & 1, o.pack, o.mem) : rem(g, o.lib & 1, a, b, o.perm, 2, base & 1, o.pack, o.mem);
      std::vector<std::vector<int>> cm = { {C_MAKE,0}, {C_SETKEY,0,key,v} };
      if (kind) { cm.push_back({C_REMAP,0,0}); cm.push_back({C_REMAP,0,1}); } else { cm.push_back({C_COMPUTE,0,1,0}); cm.push_back({C_COMPUTE,0,-1,1}); }
      cm.push_back({C_DESTROY,0});
      s.add(prog(np, { ob }, cm), sl[idx % 4]);
    }
    // overlapping communicators of different sizes (objects with odd index live on the ranks other than 0)
    if (np >= 2) for (size_t i = 0; i < fam.size(); i++) for (int kb = 0; kb < 2; kb++) {
      auto fs = family(g, np-1, 0);
      std::vector<std::vector<std::vector<int>>> outs; interleave({ seq(0, 0, 3), seq(1, kb, 3) }, {0,0}, {}, outs);
      for (auto &o : outs) { idx++; Tiles x = fs[i % fs.size()], y = fs[(i+1) % fs.size()]; x.resize(np*2*dim, 0); y.resize(np*2*dim, 0);
        Case c = prog(np, { mk(0, 0, dim, fam[i], fam[(i+1) % fam.size()], g), mk(1, kb, dim, x, y, g) }, o); c.comm = 6; s.add(c, both); }
    }
    // tuned objects
    for (size_t i = 0; i < fam.size(); i++) for (int mem = 0; mem < 2; mem++) for (int tm : {0, 1, 8000, 30000}) { idx++;
      Opts o = opts_at(idx, dim, 4); Obj ob = fft(g, o.lib, fam[i], fam[(i+1) % fam.size()], o.perm, -1, -1, -1, mem);
      Case c = prog(np, { ob, mk(1, K_FFT, dim, fam[0], fam[i], g) }, { {C_MAKE,1}, {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,0,1,tm,(int)(idx&1)} });
      if (mem == 0) c.cmds.push_back({C_SETMEM,0});
      for (auto &x : std::vector<std::vector<int>>{ {C_COMPUTE,1,1,0}, {C_COMPUTE,0,1,0}, {C_DESTROY,1}, {C_COMPUTE,0,-1,0}, {C_DESTROY,0} }) c.cmds.push_back(x);
      s.add(c, sl[idx % 4]); }
  }
  // lengths that follow one another: a plan never depends on the lengths of plans made before or alongside
  { static const int ln[] = { 2,3,4,5,6,8,9,10,12,15,16,18,20,24,25,27,30,32,36,40,45,48,60,64,75,80,90,100,120,125,128 }; int nl = th ? 31 : 23;
    for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) for (int lib = 0; lib < 4; lib++) for (int dim = 2; dim <= 3; dim++) {
      idx++; if (!th && (lib >= 2 || dim == 3) && (i + j + lib) % 3) continue; int np = 1 + idx % 2;
      auto gr = [&](int n, int w) { Grid g; g.dim = dim; g.n[0] = g.n[1] = g.n[2] = 1; for (int k = 0; k < dim; k++) g.n[k] = 2; g.n[w % dim] = n; return g; };
      bool adj = dim == 2 || lib < 2; Grid ga = gr(ln[i], adj ? dim-1 : (int)idx/3), gb = gr(ln[j], adj ? 0 : (int)idx/7); auto fa = family(ga, np, 0), fb = family(gb, np, 0);
      Obj a = fft(ga, lib, fa[0], fa[0], 0), b = fft(gb, lib, fb[0], fb[0], 0);
      s.add(prog(np, { a, b }, { {C_MAKE,0}, {C_COMPUTE,0,1,0}, {C_MAKE,1}, {C_COMPUTE,1,1,0}, {C_COMPUTE,0,-1,0}, {C_DESTROY,0}, {C_COMPUTE,1,-1,0}, {C_DESTROY,1} }), sl[idx % 4]);
      if (ln[i] * ln[j] <= (th ? 16384 : 2000) && (th || lib < 2 || (i + j) % 4 == 0)) { Grid g; g.dim = dim; g.n[0] = ln[i]; g.n[1] = ln[j]; g.n[2] = dim == 3 ? 2 : 1; if (dim == 3 && idx % 2) std::swap(g.n[1], g.n[2]);
        auto f = family(g, np, 0); Obj c = fft(g, lib, f[0], f[0], 0); s.add(prog(np, { c }, { {C_MAKE,0}, {C_COMPUTE,0,1,0}, {C_DESTROY,0}, {C_MAKE,0}, {C_COMPUTE,0,-1,0}, {C_DESTROY,0} }), sl[idx % 4]); }
    } }
  // many uses and many lives
  for (int dim = 2; dim <= 3; dim++) for (int np : {1,2,3}) for (int kind = 0; kind < 2; kind++) for (int lib = 0; lib < (kind ? 2 : 4); lib++) for (int v = 0; v < (th ? 6 : 2); v++) {
    Grid g = dim == 3 ? g3[v & 1] : g2[v & 1]; auto fam = family(g, np, 0); idx++; Obj ob = mk(0, kind, dim, fam[idx % fam.size()], fam[(idx/2) % fam.size()], g); ob.lib = lib;
    std::vector<std::vector<int>> cm = { {C_MAKE,0} };
    for (int i = 0; i < (th ? 700 : 140); i++) { if (kind) cm.push_back({C_REMAP,0,i & 1}); else { cm.push_back({C_REFRESH,0}); cm.push_back({C_COMPUTE,0,i % 3 == 1 ? -1 : 1,i/2 & 1}); } }
    cm.push_back({C_DESTROY,0}); s.add(prog(np, { ob }, cm), sl[idx % 4]);
    cm.clear();
    for (int i = 0; i < (th ? 300 : 70); i++) { cm.push_back({C_MAKE,0}); if (i % 5 == 4) cm.push_back(kind ? std::vector<int>{C_REMAP,0,0} : std::vector<int>{C_COMPUTE,0,1,0}); cm.push_back({C_DESTROY,0}); }
    s.add(prog(np, { ob }, cm), sl[idx % 4]);
  }
  s.bounds = "all interleavings of two (and three short) object lifecycles for every pair of 2d/3d FFT/remap kinds; destruction at every stage with every option, on the world, permuted, duplicated, excluding, split and overlapping communicators; options changed after setup; leak accounting at the end of every execution";
}

// ------------------------------------------------------------------ C10 refusal
static void suite_C10(bool th, Suite &s) {
  int sp[2] = { add_specs(s, {single(P_A), single(P_B)}), add_specs(s, {single(P_C), single(P_D)}) };
  long idx = 0;
  auto refuse = [&](int np, Obj o, std::vector<std::vector<int>> pre, std::vector<int> bad) {
    o.flavour = idx % 5 == 1 ? FL_C : idx % 5 == 3 ? FL_FC : idx % 5 == 4 ? FL_F90 : FL_CXX;
    Case c = prog(np, { o }, pre); c.cmds.push_back({C_MUSTFAIL}); c.cmds.push_back(bad); c.expect = EXP_REFUSED; c.comm = idx % 13 == 4 ? 1 : idx % 13 == 7 ? 3 : idx % 13 == 9 ? 2 : 0; idx++;
    s.add(c, sp[idx & 1]);
  };
  for (int dim = 2; dim <= 3; dim++) for (int np = 1; np <= (th ? 6 : 4); np++) {
    std::vector<Grid> gs = dim == 3 ? std::vector<Grid>{ {3,{4,3,2}}, {3,{5,6,3}} } : std::vector<Grid>{ {2,{5,4,1}}, {2,{6,9,1}} };
    for (auto &g : gs) {
      auto fam = family(g, np, 1);
      // bad bounds on one rank, one side, one dimension
      for (size_t f = 0; f < fam.size(); f++) for (int side = 0; side < 2; side++) for (int r = 0; r < np; r++) for (int d = 0; d < dim; d++) for (int kind = 0; kind < 8; kind++) {
        Tiles a = fam[f], b = fam[(f+1) % fam.size()]; Tiles &t = side ? b : a; int &lo = t[(r*dim+d)*2], &hi = t[(r*dim+d)*2+1];
        Tiles before = t;
        switch (kind) {
          case 0: lo = -1; break;
          case 1: hi = g.n[d]; break;
          case 2: lo = hi + 2; break;
          case 3: hi--; break;                          // tile too small
          case 4: if (lo > 0) lo--; else continue; break;   // overlaps a neighbour
          case 5: lo = g.n[d] + 3; hi = g.n[d] + 2; break;
          case 6: hi = g.n[d] + 100000; break;
          case 7: lo = -100000; break;
        }
        if (covers(g, np, t)) continue;               // still valid (empty tiles)
        // an out-of-range or shrunken tile on a rank that owns nothing may still be "nothing"
        Opts o = opts_at(idx, dim, 4);
        refuse(np, fft(g, o.lib, a, b, o.perm, o.coll, o.exch, o.pack, o.mem), { {C_CREATE,0,-1}, {C_SETOPTS,0} }, idx % 6 == 5 ? std::vector<int>{C_TUNE,0,0,1,0,0} : std::vector<int>{C_SETUP,0});
      }
      Tiles a = fam[0], b = fam[1 % fam.size()];
      for (int lib = 0; lib < 4; lib++) {
        Obj o = fft(g, lib, a, b, 0), m0 = fft(g, lib, a, b, 1, -1, -1, -1, 0);
        for (int pr : { 0, 3, 4, -2, lib & 1 ? 2 : 1, 8, 64 }) refuse(np, o, {}, {C_CREATE,0,pr});
        for (int pm : dim == 3 ? std::vector<int>{-2,3,4,100} : std::vector<int>{-2,2,3,100}) { Obj x = o; x.perm = pm; refuse(np, x, { {C_CREATE,0,-1} }, {C_SETUP,0}); x.coll = idx % 3; x.exch = idx & 1; x.pack = idx % 3; refuse(np, x, { {C_CREATE,0,-1}, {C_SETOPTS,0} }, {C_TUNE,0,1,1,0,0}); }
        // order of calls
        for (int call = 0; call < 4; call++) for (int fl = -1; fl <= 1; fl += 2) refuse(np, o, { {C_CREATE,0,-1} }, {C_RAW,0,call,fl});
        for (int call = 0; call < 3; call++) for (int fl = -1; fl <= 1; fl += 2) refuse(np, m0, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_SETUP,0} }, {C_RAW,0,call,fl});
        refuse(np, o, { {C_CREATE,0,-1} }, {C_RAW,0,5,0});
        refuse(np, m0, { {C_CREATE,0,-1}, {C_SETOPTS,0} }, {C_RAW,0,5,0});
        refuse(np, o, { {C_MAKE,0} }, {C_RAW,0,5,0});
        refuse(np, o, { {C_MAKE,0}, {C_COMPUTE,0,1,0} }, {C_RAW,0,5,0});
        for (auto &ob : { o, m0 }) {
          refuse(np, ob, { {C_MAKE,0} }, {C_SETUP,0});
          refuse(np, ob, { {C_MAKE,0}, {C_COMPUTE,0,1,0}, {C_COMPUTE,0,-1,1} }, {C_SETUP,0});
          refuse(np, ob, { {C_MAKE,0} }, {C_TUNE,0,0,1,0,0});
          refuse(np, ob, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,1,1,0,0} }, {C_SETUP,0});
          refuse(np, ob, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,1,1,8000,0} }, {C_TUNE,0,1,1,0,0});
        }
        for (auto &t : std::vector<std::vector<int>>{ {C_TUNE,0,2,1,0,0}, {C_TUNE,0,-2,1,0,0}, {C_TUNE,0,1,0,0,0}, {C_TUNE,0,1,-1,0,0}, {C_TUNE,0,1,1,-1,0}, {C_TUNE,0,0,1,-1000000,1}, {C_TUNE,0,1,1,0,2}, {C_TUNE,0,1,1,0,-1} })
          refuse(np, o, { {C_CREATE,0,-1} }, t);
        if (lib < 2) {
          refuse(np, rem(g, lib, a, b, 0, 1, 0, 0, 1), { {C_CREATE,0,-1} }, {C_RAW,0,4,0});
          refuse(np, rem(g, lib, a, b, 0, 1, 1, 0, 0), { {C_CREATE,0,-1}, {C_SETOPTS,0} }, {C_RAW,0,4,0});
          refuse(np, rem(g, lib, a, b, 0, 2, 0, 0, 1), { {C_MAKE,0} }, {C_SETUP,0});
          refuse(np, rem(g, lib, a, b, 1, 2, 1, 2, 0), { {C_MAKE,0}, {C_REMAP,0,0} }, {C_SETUP,0});
        }
        // a tuned object with caller memory needs it before it computes
        refuse(np, m0, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,1,1,0,0} }, {C_RAW,0,0,1});
        refuse(np, m0, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,1,1,1,0} }, {C_RAW,0,1,1});
      }
    }
  }
  // grid sizes that are not allowed, in each dimension, by setup and by tuning
  for (int dim = 2; dim <= 3; dim++) for (int np : th ? std::vector<int>{1,2,3,4,5,6} : std::vector<int>{1,2,3}) for (int d = 0; d < dim; d++) for (int bad : {-8,-1,0,1,7,11,13,14,17,19,21,22,26,28,33,35,42,49,55,66,70,77,91,98,101,121,127,143,169,210,343,1001,2310,2401,30030,32761}) {
    Grid g = dim == 3 ? Grid{3,{4,3,2}} : Grid{2,{5,4,1}}; g.n[d] = bad; bool small = bad < 1;
    Grid h = g; if (small) h.n[d] = 2;
    std::vector<int> pf(dim, 1); pf[idx % dim] = np; Tiles a = bricks(h, np, pf, 0); pf.assign(dim, 1); pf[(idx/2 + 1) % dim] = np; Tiles b = bricks(h, np, pf, 0);
    if (small) for (int r = 0; r < np; r++) { a[(r*dim+d)*2] = b[(r*dim+d)*2] = 0; a[(r*dim+d)*2+1] = b[(r*dim+d)*2+1] = bad - 1; }
    Opts o = opts_at(idx, dim, 4);
    refuse(np, fft(g, o.lib, a, b, o.perm, o.coll, o.exch, o.pack, o.mem), { {C_CREATE,0,-1}, {C_SETOPTS,0} }, (idx/3) % 3 == 2 ? std::vector<int>{C_TUNE,0,0,1,0,0} : std::vector<int>{C_SETUP,0});
  }
  // bad bounds on one of many ranks
  for (int dim = 2; dim <= 3; dim++) for (int np : th ? std::vector<int>{8,9,16,27,33,64,70} : std::vector<int>{8,16,33,70}) for (int d = 0; d < dim; d++) for (int side = 0; side < 2; side++) for (int q = 0; q < 3; q++) for (int kind = 0; kind < 3; kind++) {
    Grid g = dim == 3 ? Grid{3,{4,6,5}} : Grid{2,{9,10,1}}; auto fam = family(g, np, 0); Tiles a = fam[idx % fam.size()], b = fam[(idx/2) % fam.size()]; Tiles &t = side ? b : a;
    int r = q == 0 ? np-1 : q == 1 ? np/2 : np - 2; int &lo = t[(r*dim+d)*2], &hi = t[(r*dim+d)*2+1];
    if (kind == 0) lo = -1; else if (kind == 1) hi = g.n[d]; else hi--;
    if (covers(g, np, t)) continue;
    Opts o = opts_at(idx, dim, 4); refuse(np, fft(g, o.lib, a, b, o.perm, o.coll, o.exch, o.pack, o.mem), { {C_CREATE,0,-1}, {C_SETOPTS,0} }, {C_SETUP,0});
  }
  // settings changed after setup do not change what is refused
  for (int dim = 2; dim <= 3; dim++) for (int np = 1; np <= 3; np++) for (int lib = 0; lib < 4; lib++) for (int v = 0; v < 2; v++) {
    Grid g = dim == 3 ? Grid{3,{4,3,2}} : Grid{2,{5,4,1}}; auto fam = family(g, np, 0); Tiles a = fam[0], b = fam[1 % fam.size()];
    Obj m0 = fft(g, lib, a, b, v, -1, -1, -1, 0), m1 = fft(g, lib, a, b, v, -1, -1, -1, 1);
    refuse(np, m1, { {C_MAKE,0}, {C_SETKEY,0,3,0} }, {C_RAW,0,5,0});
    refuse(np, m1, { {C_MAKE,0}, {C_COMPUTE,0,1,0}, {C_SETKEY,0,3,0} }, {C_RAW,0,5,0});
    for (int call = 0; call < 3; call++) refuse(np, m0, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_SETUP,0}, {C_SETKEY,0,3,1} }, {C_RAW,0,call,v ? 1 : -1});
    refuse(np, m1, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,1,1,0,0}, {C_SETKEY,0,3,0} }, {C_RAW,0,5,0});
  }
  // never refused: empty tiles in every notation, more ranks than rows
  for (int dim = 2; dim <= 3; dim++) for (int np : th ? std::vector<int>{1,2,3,4,5,6,7,8,10,12} : std::vector<int>{1,2,3,4,5,8}) {
    Grid g = dim == 3 ? Grid{3,{2,3,2}} : Grid{2,{3,2,1}}; auto fam = family(g, np, 2);
    for (size_t i = 0; i < fam.size(); i++) for (size_t j = 0; j < fam.size(); j++) { idx++; if (!th && fam.size() > 12 && idx % 3) continue; Opts o = opts_at(idx, dim, 4);
      s.add(prog(np, { fft(g, o.lib, fam[i], fam[j], o.perm, o.coll, o.exch, o.pack, o.mem) }, { {C_MAKE,0}, {C_COMPUTE,0,1,0}, {C_DESTROY,0} }), sp[idx & 1]); }
    for (int v = 0; v < 4; v++) for (int ow = 0; ow < np; ow++) { Tiles t = one_owner(g, np, ow, v); idx++; Opts o = opts_at(idx, dim, 4); auto &u = fam[idx % fam.size()];
      s.add(prog(np, { fft(g, o.lib, idx & 1 ? t : u, idx & 1 ? u : t, o.perm, o.coll, o.exch, o.pack, o.mem) }, { {C_MAKE,0}, {C_COMPUTE,0,1,0}, {C_COMPUTE,0,-1,0}, {C_DESTROY,0} }), sp[idx & 1]); }
  }
  // never refused: grids with more than 2^31 points
  std::vector<Grid> big = { {3,{2048,2048,2048}}, {3,{4096,1024,1024}}, {3,{1000,2000,3000}}, {3,{1024,1024,2048}}, {3,{2,65536,32768}} };
  for (auto &g : big) for (int np : th ? std::vector<int>{24,32,48,60,64} : std::vector<int>{32,64}) {
    auto toobig = [&](const Tiles &t) { for (int r = 0; r < np; r++) { long v = 1; for (int k = 0; k < g.dim; k++) v *= t[(r*g.dim+k)*2+1] - t[(r*g.dim+k)*2] + 1; if (v > (1L << 28)) return true; } return false; };
    auto fs = factorisations(np, 3);
    for (size_t f = 0; f < fs.size(); f += th ? 3 : 9) { idx++; Tiles a = bricks(g, np, fs[f], 0), b = bricks(g, np, fs[(f+2) % fs.size()], 0); if (toobig(a) || toobig(b)) continue; Opts o = opts_at(idx, 3, 1);
      s.add(prog(np, { fft(g, 0, a, b, o.perm, o.coll, o.exch, o.pack, 0) }, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_SETUP,0}, {C_SIZES,0}, {C_DESTROY,0} }), sp[idx & 1]); }
  }
  for (auto &g : std::vector<Grid>{ {2,{65536,65536,1}}, {2,{4096,1048576,1}} }) for (int np : {32,64}) {
    auto toobig = [&](const Tiles &t) { for (int r = 0; r < np; r++) { long v = 1; for (int k = 0; k < g.dim; k++) v *= t[(r*g.dim+k)*2+1] - t[(r*g.dim+k)*2] + 1; if (v > (1L << 28)) return true; } return false; };
    auto fs = factorisations(np, 2);
    for (size_t f = 0; f < fs.size(); f++) { idx++; Tiles a = bricks(g, np, fs[f], 0), b = bricks(g, np, fs[(f+1) % fs.size()], 0); if (toobig(a) || toobig(b)) continue;
      s.add(prog(np, { fft(g, 0, a, b, idx & 1, idx % 3, idx & 1, idx % 3, 0) }, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_SETUP,0}, {C_SIZES,0}, {C_DESTROY,0} }), sp[idx & 1]); }
  }
  s.bounds = "one invalid bound, grid size (36 sizes in each dimension), size, precision, permutation, tuning argument or call order at a time, on each single rank, side and dimension, 1-4 ranks, 2 schedules each; valid: empty tiles in every notation, more ranks than rows, grids above 2^31 points";
}

// ------------------------------------------------------------------ C11 interfaces
static void suite_C11(bool th, Suite &s) {
  int sl[4] = { add_specs(s, {single(P_A,true)}), add_specs(s, {single(P_B,true)}), add_specs(s, {single(P_C,true)}), add_specs(s, {single(P_D,true)}) };
  long idx = 0;
  for (int dim = 2; dim <= 3; dim++) {
    std::vector<Grid> gs = dim == 3 ? std::vector<Grid>{ {3,{4,3,2}}, {3,{5,2,6}} } : std::vector<Grid>{ {2,{5,4,1}}, {2,{3,8,1}} };
    for (auto &g : gs) for (int np : th ? std::vector<int>{1,2,3,4,5,6} : std::vector<int>{1,2,3,4}) {
      auto fam = family(g, np, th ? 1 : 0);
      for (int fl = 0; fl < 4; fl++) for (auto &a : fam) for (auto &b : fam) {
        for (long i = 0; i < opts_count(dim,1); i += th ? 1 : 2) {
          idx++; Opts o = opts_at(i + idx/7, dim, 1); o.lib = idx % 4;
          Obj ob = fft(g, o.lib, a, b, o.perm, o.coll, o.exch, o.pack, o.mem); ob.flavour = fl; ob.scale = idx % 3 - 1;
          Case c = prog(np, { ob }, { {C_MAKE,0}, {C_STATS,0}, {C_COMPUTE,0,1,(int)(idx&1)}, {C_COMPUTE,0,-1,(int)(idx>>1&1)}, {C_ONLYREMAPS,0,1,0}, {C_ONLYREMAPS,0,-1,0}, {C_ONLY1D,0,1}, {C_GETBAD,0,(int)(idx % 64 == 9)} });
          c.cmds.push_back({C_REFRESH,0});
          for (int w = 1; w <= (dim == 3 ? 4 : 3); w++) c.cmds.push_back({C_ONEREMAP,0,1,w,(int)(idx&1)});
          for (int w = (dim == 3 ? 4 : 3); w >= 1; w--) c.cmds.push_back({C_ONEREMAP,0,-1,w,1});
          for (auto &x : std::vector<std::vector<int>>{ {C_SETKEY,0,5,1}, {C_COMPUTE,0,1,0}, {C_COMPUTE,0,-1,0}, {C_SETKEY,0,5,0}, {C_SETKEY,0,4,0}, {C_COMPUTE,0,1,0}, {C_COMPUTE,0,-1,0}, {C_STATS,0}, {C_DESTROY,0} }) c.cmds.push_back(x);
          c.comm = idx % 5 == 2 ? 1 : idx % 5 == 3 ? 3 : 0;
          s.add(c, sl[idx % 4]);
        }
        for (int nq = 1; nq <= 3; nq++) for (int v = 0; v < 12; v++) { idx++;
          Obj ob = rem(g, idx & 1, a, b, idx/2 % perms(dim), nq, v % 3 - 1, v % 4 - 1, v/3 & 1); ob.flavour = fl;
          s.add(prog(np, { ob }, { {C_MAKE,0}, {C_REMAP,0,0}, {C_REMAP,0,1}, {C_STATS,0}, {C_DESTROY,0} }), sl[idx % 4]); }
        for (int tm : {0, 1, 8000, 12000, 100000}) for (int tf = 0; tf < 2; tf++) for (int mem = 0; mem < 2; mem++) { idx++;
          Obj ob = fft(g, idx % 4, a, b, idx % perms(dim)); ob.mem = mem; ob.flavour = fl;
          Case c = prog(np, { ob }, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,(int)(idx % 3)-1,2,tm,tf} });
          if (mem == 0) c.cmds.push_back({C_SETMEM,0});
          for (auto &x : std::vector<std::vector<int>>{ {C_STATS,0}, {C_GETBAD,0,(int)(idx % 16 == 3)}, {C_SIZES,0}, {C_COMPUTE,0,1,0}, {C_COMPUTE,0,-1,1}, {C_DESTROY,0} }) c.cmds.push_back(x);
          s.add(c, sl[idx % 4]); }
      }
      // errors reach the caller the same way
      for (int fl = 0; fl < 4; fl++) for (int lib = 0; lib < 4; lib++) for (int v = 0; v < 12; v++) { idx++;
        Obj o = fft(g, lib, fam[0], fam[1 % fam.size()], 0, -1, -1, -1, v & 1); o.flavour = fl; std::vector<std::vector<int>> pre = { {C_CREATE,0,-1}, {C_SETOPTS,0} }; std::vector<int> bad;
        switch (v) {
          case 0: pre.clear(); bad = {C_CREATE,0,lib & 1 ? 2 : 1}; break;
          case 1: o.in[0] = -1; bad = {C_SETUP,0}; break;
          case 2: o.in[(np*dim-1)*2+1] = g.n[dim-1]; bad = {C_SETUP,0}; break;
          case 3: bad = {C_RAW,0,0,1}; break;
          case 4: bad = {C_RAW,0,1,1}; break;
          case 5: bad = {C_RAW,0,2,-1}; break;
          case 6: bad = {C_RAW,0,3,1}; break;
          case 7: bad = {C_RAW,0,5,0}; break;
          case 8: bad = {C_TUNE,0,5,1,0,0}; break;
          case 9: pre = { {C_MAKE,0} }; bad = {C_SETUP,0}; break;
          case 10: o.n[0] = 7; bad = {C_SETUP,0}; break;
          case 11: o.n[dim-1] = 11; bad = {C_TUNE,0,0,1,0,0}; break;
        }
        Case c = prog(np, { o }, pre); c.cmds.push_back({C_MUSTFAIL}); c.cmds.push_back(bad); c.expect = EXP_REFUSED; s.add(c, sl[idx % 4]);
      }
    }
  }
  s.bounds = "every entry point and keyword of the C++, C, C-for-Fortran and Fortran 90 interfaces, compared with the object's fields and the reference, over layouts and options on 1-4 ranks";
}

// ------------------------------------------------------------------ C12 partial operations
static void suite_C12(bool th, Suite &s) {
  int sl[4] = { add_specs(s, {single(P_A)}), add_specs(s, {single(P_B)}), add_specs(s, {single(P_C)}), add_specs(s, {single(P_D)}) };
  long idx = 0;
  for (int dim = 2; dim <= 3; dim++) {
    int W = dim == 3 ? 4 : 3;
    std::vector<Grid> gs = dim == 3 ? std::vector<Grid>{ {3,{4,3,2}}, {3,{2,6,5}} } : std::vector<Grid>{ {2,{5,4,1}}, {2,{3,8,1}} };
    if (th) gs.push_back(dim == 3 ? Grid{3,{8,5,9}} : Grid{2,{20,9,1}});
    for (auto &g : gs) for (int np : th ? std::vector<int>{1,2,3,4,5,6,7,8,12} : std::vector<int>{1,2,3,4,6,8}) {
      auto fam = family(g, np, np <= 4 || th ? 1 : 0);
      for (auto &a : fam) for (auto &b : fam) {
        long n = opts_count(dim, 1), step = th ? 1 : fam.size() <= 4 ? 2 : np <= 2 ? 4 : 9;
        for (long i = idx % step; i < n; i += step) for (int h = 0; h < 4; h++) {
          idx++; Opts o = opts_at(i, dim, 1); o.lib = idx % 4;
          Obj ob = fft(g, o.lib, a, b, o.perm, o.coll, o.exch, o.pack, o.mem); ob.flavour = idx % 17 == 3 ? FL_C : 0;
          Case c = prog(np, { ob }, { {C_MAKE,0} }); int x = idx & 1, y = idx >> 1 & 1;
          if (h == 0) {        // remap-only mode, switched on and off
            for (auto &k : std::vector<std::vector<int>>{ {C_SETKEY,0,5,1}, {C_COMPUTE,0,1,x}, {C_COMPUTE,0,-1,y}, {C_SETKEY,0,5,0}, {C_COMPUTE,0,1,y}, {C_SETKEY,0,5,1}, {C_COMPUTE,0,-1,x}, {C_COMPUTE,0,1,x}, {C_SETKEY,0,5,0}, {C_COMPUTE,0,-1,1}, {C_ONLYREMAPS,0,1,0} }) c.cmds.push_back(k);
            if (x) { c.objs[0].remaponly = 1; c.cmds = { {C_MAKE,0}, {C_COMPUTE,0,1,y}, {C_COMPUTE,0,-1,y}, {C_REFRESH,0}, {C_COMPUTE,0,-1,0}, {C_COMPUTE,0,1,1}, {C_ONLYREMAPS,0,-1,0}, {C_SETKEY,0,5,0}, {C_COMPUTE,0,1,0}, {C_COMPUTE,0,-1,0} }; }
          } else if (h == 1) { // all remaps
            for (auto &k : std::vector<std::vector<int>>{ {C_ONLYREMAPS,0,1,x}, {C_ONLYREMAPS,0,-1,y}, {C_REFRESH,0}, {C_ONLYREMAPS,0,-1,x}, {C_ONLYREMAPS,0,1,y}, {C_COMPUTE,0,-1,0}, {C_ONLYREMAPS,0,1,1} }) c.cmds.push_back(k);
          } else if (h == 2) { // single remaps, in order, each direction
            for (int w = 1; w <= W; w++) c.cmds.push_back({C_ONEREMAP,0,1,w,x});
            for (int w = W; w >= 1; w--) c.cmds.push_back({C_ONEREMAP,0,-1,w,y});
            for (int w = 1; w <= W; w++) c.cmds.push_back({C_ONEREMAP,0,-1,w,x});      // the order of the FFT when both layouts are equal
            c.cmds.push_back({C_REFRESH,0});
            for (int w = W; w >= 1; w--) c.cmds.push_back({C_ONEREMAP,0,-1,w,x ^ (w & 1)});
            for (int w = 1; w <= W; w++) c.cmds.push_back({C_ONEREMAP,0,1,w,y ^ (w & 1)});
          } else {             // 1d transforms between, and single remaps out of order on fresh data
            c.cmds.push_back({C_ONLY1D,0,1}); c.cmds.push_back({C_ONLY1D,0,-1});
            for (int w = W; w >= 1; w--) { c.cmds.push_back({C_REFRESH,0}); c.cmds.push_back({C_ONEREMAP,0,1,w,x}); }
            for (int w = 1; w <= W; w++) { c.cmds.push_back({C_REFRESH,0}); c.cmds.push_back({C_ONEREMAP,0,-1,w,y}); }
            c.cmds.push_back({C_REFRESH,0}); c.cmds.push_back({C_COMPUTE,0,1,0});
          }
          c.cmds.push_back({C_DESTROY,0});
          s.add(c, sl[idx % 4]);
        }
      }
    }
  }
  s.bounds = "remap-only mode, all remaps, single remaps in order / in reverse / alone, 1d transforms, in and out of place, over layout families x options on 1-8 ranks";
}

// ------------------------------------------------------------------ C13 statistics
static void suite_C13(bool th, Suite &s) {
  int sl[2] = { add_specs(s, {single(P_A)}), add_specs(s, {single(P_B)}) };
  long idx = 0;
  for (int dim = 2; dim <= 3; dim++) {
    std::vector<Grid> gs = dim == 3 ? std::vector<Grid>{ {3,{2,2,2}}, {3,{8,6,5}}, {3,{64,2,3}}, {3,{2,3,64}}, {3,{3,100,4}}, {3,{16,16,16}}, {3,{30,20,10}} }
                                    : std::vector<Grid>{ {2,{2,2,1}}, {2,{8,6,1}}, {2,{64,2,1}}, {2,{3,100,1}}, {2,{16,16,1}}, {2,{45,30,1}} };
    for (int np = 1; np <= 64; np++) for (auto &g : gs) for (int ex = 0; ex < 2; ex++) {
      auto fs = factorisations(np, dim);
      for (size_t f = 0; f < fs.size(); f += th ? 1 : std::max<size_t>(1, fs.size()/3)) { idx++;
        Tiles a = bricks(g, np, fs[f], 0), b = bricks(g, np, fs[(f*2+1) % fs.size()], idx % 3);
        Obj o1 = fft(g, np > 16 ? 0 : (int)(idx % 4), a, b, idx % perms(dim), idx % 3, ex, idx/3 % 3, 1), o0 = o1; o0.mem = 0;
        Case c = prog(np, { o1, o0 }, { {C_MAKE,0}, {C_STATS,0}, {C_CREATE,1,-1}, {C_SETOPTS,1}, {C_SETUP,1}, {C_SIZES,1}, {C_STATS,1}, {C_CMPSIZE,0,1}, {C_DESTROY,0}, {C_DESTROY,1} });
        if (np <= 16 || idx % 8 == 0) c.cmds.insert(c.cmds.begin()+2, std::vector<int>{C_MEMSUM,0});
        s.add(c, sl[idx & 1]);
        if (np <= 16 && idx % 4 == 0) { Obj r = rem(g, idx>>2 & 1, a, b, idx % perms(dim), 1 + idx % 3, idx & 1, idx % 3, idx>>3 & 1); s.add(prog(np, { r }, { {C_MAKE,0}, {C_STATS,0}, {C_MEMSUM,0}, {C_REMAP,0,0}, {C_STATS,0}, {C_DESTROY,0} }), sl[idx & 1]); }
      }
    }
    // more ranks
    for (int np : th ? std::vector<int>{65,66,70,72,75,80,81,90,96,97,100,108,112,120,121,125,127,128} : std::vector<int>{66,81,96,97,120,125,128}) for (auto &g : gs) for (int ex = 0; ex < 2; ex++) { idx++;
      auto fs = factorisations(np, dim); Tiles a = bricks(g, np, fs[idx % fs.size()], 0), b = bricks(g, np, fs[(idx*2+1) % fs.size()], idx % 3);
      Obj o = fft(g, 0, a, b, idx % perms(dim), idx % 3, ex, idx/3 % 3, idx/7 & 1);
      s.add(prog(np, { o }, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_SETUP,0}, {C_SIZES,0}, {C_STATS,0}, {C_DESTROY,0} }), sl[idx & 1]);
      if (idx % (th ? 2 : 7) == 0) s.add(prog(np, { rem(g, 0, a, b, idx % perms(dim), 1 + idx % 3, idx/3 & 1, idx % 3, idx/2 & 1) }, { {C_MAKE,0}, {C_MEMSUM,0}, {C_DESTROY,0} }), sl[idx & 1]); }
    // statistics with every option, uneven layouts and after tuning
    for (int np : th ? std::vector<int>{1,2,3,4,5,6,8} : std::vector<int>{1,2,3,4}) {
      Grid g = dim == 3 ? Grid{3,{6,4,5}} : Grid{2,{6,5,1}}; auto fam = family(g, np, 1);
      for (auto &a : fam) for (auto &b : fam) { idx++; Opts o = opts_at(idx, dim, 4); Obj ob = fft(g, o.lib, a, b, o.perm, o.coll, o.exch, o.pack, o.mem), oc = ob; oc.mem = 1 - o.mem; ob.flavour = idx % 4;
        s.add(prog(np, { ob, oc }, { {C_MAKE,0}, {C_MAKE,1}, {C_CMPSIZE,0,1}, {C_STATS,0}, {C_COMPUTE,0,1,0}, {C_STATS,0}, {C_STATS,1}, {C_MEMSUM,1}, {C_DESTROY,1}, {C_DESTROY,0} }), sl[idx & 1]);
        Obj ot = fft(g, o.lib, a, b, o.perm); ot.mem = o.mem; ot.flavour = (idx/2) % 4;
        Case c = prog(np, { ot }, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,(int)(idx % 3) - 1,2,(int)(idx & 1 ? 0 : 12000),(int)(idx>>1 & 1)} });
        if (o.mem == 0) c.cmds.push_back({C_SETMEM,0});
        for (auto &x : std::vector<std::vector<int>>{ {C_SIZES,0}, {C_STATS,0}, {C_MEMSUM,0}, {C_COMPUTE,0,1,0}, {C_STATS,0}, {C_DESTROY,0} }) c.cmds.push_back(x);
        s.add(c, sl[idx & 1]); }
    }
  }
  // large grids: setup only, caller memory
  std::vector<Grid> big = { {3,{2048,2048,2048}}, {3,{1024,1024,2048}}, {3,{1536,1280,1200}}, {3,{512,512,512}}, {3,{2,65536,32768}}, {3,{46080,2,65536}}, {3,{4096,1024,1024}}, {2,{36000000,4,1}}, {2,{4,36000000,1}}, {3,{36000000,2,2}}, {3,{2,36000000,2}}, {3,{2,2,36000000}}, {2,{65536,65536,1}}, {2,{8192,524288,1}} };
  for (auto &g : big) for (int np : th ? std::vector<int>{16,24,27,32,48,60,61,64} : std::vector<int>{27,32,61,64}) for (int ex = 0; ex < 2; ex++) for (int co = 0; co < 3; co++) {
    auto fs = factorisations(np, g.dim); idx++;
    Tiles a = bricks(g, np, fs[idx % fs.size()], 0), b = bricks(g, np, fs[(idx/2) % fs.size()], 0);
    long mx = 0; for (int r = 0; r < np; r++) for (auto *t : { &a, &b }) { long v = 1; for (int k = 0; k < g.dim; k++) v *= (*t)[(r*g.dim+k)*2+1] - (*t)[(r*g.dim+k)*2] + 1; mx = std::max(mx, v); }
    if (mx > (1L << 28)) continue;
    bool hugedim = std::max(g.n[0], std::max(g.n[1], g.n[2])) > 1<<20;
    if (hugedim) { if (np != 64 || co) continue; a = one_owner(g, np, ex, idx); b = one_owner(g, np, 1-ex, idx); }
    s.add(prog(np, { fft(g, hugedim ? 2 : 0, a, b, idx % perms(g.dim), co, ex, idx % 3, 0) }, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_SETUP,0}, {C_SIZES,0}, {C_STATS,0}, {C_DESTROY,0} }), sl[idx & 1]);
  }
  s.bounds = "process grids, sizes, memory and settings for every rank count 1-64 (some up to 128) and a set of grids and layouts; grids above 2^31 points on up to 64 ranks";
}

// ------------------------------------------------------------------ C14 allocation failures
static void suite_C14(bool th, Suite &s) {
  Spec fa; fa.pol = P_A; fa.mode = M_FAULT; Spec fb; fb.pol = P_B; fb.mode = M_FAULT;
  int a = add_specs(s, {fa}), b = add_specs(s, {fb}); int sl[2] = { a, b }; long idx = 0;
  // tunings in which the grid size grows between trials, from the default and from each starting exchange
  { std::vector<Grid> gs = { Grid{3,{2,3,4}}, Grid{3,{2,3,3}} }; if (th) { gs.push_back(Grid{3,{2,5,5}}); gs.push_back(Grid{3,{2,4,5}}); gs.push_back(Grid{2,{9,2,1}}); gs.push_back(Grid{2,{3,4,1}}); }
    for (auto &g : gs) for (int np : th ? std::vector<int>{4,5,6} : std::vector<int>{4}) for (int ex = -1; ex < (th ? 2 : 0); ex++) for (int tm : {0, 12000, 12}) { idx++; if (!th && tm) continue;
      std::vector<int> pf(g.dim, 1); pf[g.dim-1] = np; Tiles x = bricks(g, np, pf, 0); Obj ob = fft(g, idx % 4, x, x, 0, -1, ex, -1);
      Case c = prog(np, { ob }, { {C_CREATE,0,-1}, {C_SETOPTS,0}, {C_TUNE,0,0,1,tm,(int)(idx & 1)}, {C_COMPUTE,0,1,0}, {C_DESTROY,0} }); c.expect = EXP_FAULT; s.add(c, sl[idx & 1]); } }
  for (int dim = 2; dim <= 3; dim++) {
    Grid g = dim == 3 ? Grid{3,{4,3,2}} : Grid{2,{5,4,1}};
    for (int np : th ? std::vector<int>{1,2,3,4,6} : std::vector<int>{1,2,3,4}) {
      auto fam = family(g, np, th ? 1 : 0);
      for (auto &x : fam) for (auto &y : fam) {
        for (int coll = 0; coll < 3; coll++) for (int ex = 0; ex < 2; ex++) for (int lib = 0; lib < (th ? 4 : 2); lib++) { idx++;
          if (!th && np >= 3 && idx % 3) continue;
          int l = th ? lib : (lib*2 + idx) % 4;
          Case c = prog(np, { fft(g, l, x, y, idx % perms(dim), coll, ex, idx % 3, idx>>1 & 1) }, { {C_MAKE,0}, {C_COMPUTE,0,1,0}, {C_COMPUTE,0,-1,1}, {C_DESTROY,0} });
          c.objs[0].flavour = idx % 5 == 2 ? FL_C : 0; c.expect = EXP_FAULT; s.add(c, sl[idx & 1]); }
        for (int coll = 0; coll < 2; coll++) for (int mem = 0; mem < 2; mem++) { idx++;
          Case c = prog(np, { rem(g, idx & 1, x, y, idx % perms(dim), 1 + idx % 3, coll, idx % 3, mem) }, { {C_MAKE,0}, {C_REMAP,0,0}, {C_REMAP,0,1}, {C_DESTROY,0} }); c.expect = EXP_FAULT; s.add(c, sl[idx & 1]); }
        if (np <= (th ? 3 : 2)) for (int tm : {0, 12000}) { idx++;
          if (!th && tm && idx % 4) continue;
          Case c = prog(np, { fft(g, idx % 4, x, y, idx % perms(dim)) }, { {C_CREATE,0,-1}, {C_TUNE,0,0,1,tm,(int)(idx & 1)}, {C_COMPUTE,0,1,0}, {C_DESTROY,0} }); c.expect = EXP_FAULT; s.add(c, sl[idx & 1]); }
      }
    }
  }
  s.bounds = "every single allocation made by the library in setup, compute, remap, tune, on every rank, fails in turn";
}

bool make_suite(const std::string &p, bool th, Suite &s) {
  if (p == "C01") suite_C01(th, s); else if (p == "C02") suite_fft(3, th, s); else if (p == "C03") suite_fft(2, th, s); else if (p == "C04") suite_C04(th, s);
  else if (p == "C05") suite_C05(th, s); else if (p == "C06") suite_C06(th, s); else if (p == "C07") suite_C07(th, s); else if (p == "C08") suite_C08(th, s);
  else if (p == "C09") suite_C09(th, s); else if (p == "C10") suite_C10(th, s); else if (p == "C11") suite_C11(th, s); else if (p == "C12") suite_C12(th, s);
  else if (p == "C13") suite_C13(th, s); else if (p == "C14") suite_C14(th, s); else return false;
  return true;
}
