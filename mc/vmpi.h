// vmpi: an MPI whose every source of nondeterminism is an explicit, enumerable choice.
// Ranks are fibers of one process, run until they block in an MPI call.
#ifndef VMPI_H
#define VMPI_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include "tr.h"

namespace vmpi {
enum { MAXR = 136 };             // most ranks of a job

// kinds of choice
enum { CH_WAITANY = 0, CH_SEND = 1, CH_DELIV = 2, CH_COLL = 3, CH_SCHED = 4, CH_TEST = 5, CH_WTIME = 6, CH_ANYSRC = 7, CH_NKIND = 8 };

// how a choice is resolved when it is not being explored
struct Policy {
  uint8_t send;      // 0 = eager (buffered), 1 = rendezvous (synchronous)
  uint8_t waitany;   // 0 = first completed, 1 = last completed
  uint8_t coll;      // 0 = loose (leave as early as MPI allows), 1 = synchronising
  uint8_t order;     // 0 = lowest rank first, 1 = highest rank first
  uint8_t deliv;     // 0 = data lands when matched, 1 = data lands at completion
  uint8_t yield;     // 1 = switch rank at every MPI call
  uint8_t fill;      // byte new heap and stack memory is filled with
};

struct Choice { uint8_t kind; uint8_t rank; uint16_t n; uint16_t def; uint16_t c; };

// outcome of one rank
enum { OUT_NONE = 0, OUT_RETURN = 1, OUT_EXIT = 2, OUT_ABORTED = 3, OUT_EXCEPTION = 4, OUT_BLOCKED = 5, OUT_SIGABRT = 6 };
struct RankOut { int kind; int code; int finalized; };

struct Explore {               // input
  uint32_t mask = 0;           // bit k: kind k is explored (recorded in the trace)
  int focus = -1;              // only choices of this rank are explored (-1: all)
  std::vector<uint16_t> prefix;
};

struct Fault { int rank = -1; long nth = -1; };   // nth allocation (0-based) of a rank fails

struct Result {
  bool violation = false;
  std::string vclass, msg;     // vclass: deadlock, mpi-usage, leak, value, ...
  std::vector<Choice> trace;
  std::vector<RankOut> out;
  bool jobabort = false; int abort_code = 0; int abort_rank = -1;
  uint64_t steps = 0;          // MPI calls = transitions
  uint64_t allocs[MAXR];
  bool fault_hit = false;
  std::string output;          // what the ranks printed
};

typedef void (*RankMain)(void *arg, int rank);
void init();
void run(int np, RankMain fn, void *arg, const Policy &pol, const Explore &ex, const Fault &fault, Result &res);

extern int cur;                                    // running rank, -1 outside
[[noreturn]] void violation(const char *cls, const char *fmt, ...);
void note_violation(const char *cls, const char *fmt, ...);  // outside a rank
int choose(int kind, int n, int def);
extern double (*wtime_hook)(int rank, long ncall); // per run
extern bool wtime_data;   // the clock of a rank shows the amount of data it has sent (1 microsecond per byte)
extern uint64_t state_count();                     // distinct global states since reset
void state_reset();
void *arena(size_t bytes, size_t skew = 0);                         // freed when the run ends (exact-size heap block)
extern size_t tracked_blocks(int rank);
extern size_t tracked_bytes(int rank);             // live library heap of a rank
extern size_t tracked_peak(int rank);
void reset_peak(int rank);
extern int fftw_plans(int rank);
extern bool check_leaks;                           // heap / MPI object leaks are violations
extern bool job_over();
const char *rank_calls(int rank);                  // last MPI call of a rank, for messages
long mpi_calls(int rank);
extern bool tracing, trace_payload; Tr &call_trace(int rank);   // digest of the calls of the last run
void register_segment(void *lo, size_t len, int rank);  // writable data of a library copy
}
#endif
