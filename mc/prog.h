// Rank programs: an interpreter for command histories over fftMPI objects, with a reference model.
// Compiled both against vmpi (exploration) and against the real MPI (conformance replay).
#ifndef PROG_H
#define PROG_H
#include <mpi.h>
#include <string>
#include <vector>
#include "api.h"

enum { K_FFT = 0, K_REMAP = 1 };
// libraries
enum { L_KISS_D = 0, L_KISS_S = 1, L_FFTW_D = 2, L_FFTW_S = 3, L_N = 4 };

struct Obj {                    // static description of one object
  int kind = K_FFT, dim = 3, lib = 0, flavour = 0;
  int n[3] = {1,1,1};
  int perm = 0, coll = -1, exch = -1, pack = -1, mem = -1, scale = -1, remaponly = -1;   // -1: leave the default
  int nqty = 1;
  std::vector<int> in, out;     // np * 2*dim bounds
};
enum Cmd {
  C_MAKE = 1,       // o            create + set options + setup + setup_memory when the caller provides memory
  C_CREATE,         // o prec       (prec -1: the right one)
  C_SETOPTS,        // o
  C_SETUP,          // o
  C_SETMEM,         // o mode       (0 exact buffers, 1 null buffers)
  C_COMPUTE,        // o flag inplace
  C_ONLYREMAPS,     // o flag inplace
  C_ONEREMAP,       // o flag which inplace
  C_ONLY1D,         // o flag
  C_REMAP,          // o inplace
  C_DESTROY,        // o
  C_SETKEY,         // o key value  (key: index in set_keys)
  C_TUNE,           // o flag niter tmax_us tflag
  C_STATS,          // o            statistics and getters
  C_MUSTFAIL,       //              the next command must be refused
  C_SIZES,          // o            sizes are sufficient and agree with the layout
  C_BARRIER,
  C_REFRESH,        // o            forget the data of the object: the next operation loads a fresh field
  C_FAILRANK,       // o r          as C_SETUP, but bounds of rank r come from the object's in/out (no-op marker)
  C_GETBAD,         // o            unknown keywords
  C_RAW,            // o call flag  call without bookkeeping (0 compute 1 only_remaps 2 only_one_remap 3 only_1d_ffts 4 remap 5 setup_memory)
  C_CMPSIZE,        // o p          both objects report the same sizes
  C_MEMSUM,         // o            memory usage is that of its parts
  C_CMAX
};
extern const char *set_keys[];  // collective exchange pack memory scale remaponly
enum { NO_EXPECT = 0, EXP_REFUSED = 1, EXP_FAULT = 2 };

struct Case {
  int np = 1, comm = 0;         // np = ranks per communicator; comm: how the communicator is derived
  int expect = 0, wt = 0;       // wt: clock scenario
  std::vector<Obj> objs;
  std::vector<std::vector<int>> cmds;
  std::vector<int> flat() const;
  static bool parse(const std::vector<int> &v, Case &c);
  int job() const;              // ranks of the whole job
  std::string text() const;
};

struct Env {
  virtual const Api *api(int dim, int lib, int rank, int flavour) = 0;
  [[noreturn]] virtual void fail(const char *cls, const std::string &msg) = 0;
  virtual void *alloc(size_t n, size_t skew = 0) = 0;   // skew: bytes past a 16-byte boundary
  virtual size_t live_bytes(int rank) { return 0; }
  virtual size_t live_blocks(int rank) { return 0; }
  virtual bool virt() { return false; }
  virtual void mark(int rank, int phase) {}
  virtual void finish() { MPI_Finalize(); }
  virtual ~Env() {}
};
double fixed_clock(int wt, int rank, long n);   // what the n-th clock reading of a rank adds (wt 0, 4-7)
void run_rank(const Case &c, Env &env, int wrank);

int tile_size(const int *t, int dim);
#endif
