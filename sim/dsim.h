// dsim: deterministic simulator runtime.
//
// Linked (or preloaded) into a process that runs Oclgrind code compiled with
// memory-access instrumentation.  While a simulation window is open, every
// thread is a real pthread that is parked on its own futex; exactly one runs
// at a time and the simulator decides, from one seed, at every memory access,
// atomic operation, mutex operation, clock read and intercepted system call,
// who runs next and which fault is injected.
#ifndef DSIM_H
#define DSIM_H
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

#define DSIM_MAXTRACE 400000
#define DSIM_MAXFAULT 4096
#define DSIM_MAXTHREADS 512
#define DSIM_OUTSZ (1 << 20)

// A recorded scheduling decision: thread `from`, at its own local step
// `step`, handed control to thread `to`.
typedef struct {
  uint16_t from, to;
  uint32_t forced; // 1: `from` could not continue
  uint64_t step;
} dsim_switch_t;

enum {
  DF_NONE = 0,
  DF_ALLOC,      // allocation returned NULL
  DF_CLOCKJUMP,  // wall clock jumped by `param` ns
  DF_EIO,        // read/write failed with EIO
  DF_SHORT,      // short read/write, `param` bytes
  DF_EINTR,      // read/write failed with EINTR
  DF_ENOSPC,     // write failed with ENOSPC
  DF_OPENFAIL,   // open failed
  DF_SIGNAL,     // asynchronous signal delivered at a step
  DF_EOF,        // premature end of file
  DF_NKINDS
};

typedef struct {
  uint32_t kind;
  uint32_t pad;
  uint64_t index; // ordinal of the interception the fault fired at
  int64_t param;
} dsim_fault_t;

typedef struct {
  // results
  volatile int status; // see DS_*
  int ended;
  uint64_t steps;      // scheduling points passed
  uint64_t switches, preemptions, hotpoints;
  uint64_t hash;       // control hash: switches + events
  uint64_t addrhash;   // hash of every accessed address
  uint64_t simtime_ns;
  uint64_t threads;    // threads created
  uint64_t maxlive;
  uint64_t allocs;
  uint64_t reads, writes, atomics, locks;
  uint64_t fault_count[DF_NKINDS];
  uint32_t ntrace;
  uint32_t nfaults;
  dsim_switch_t trace[DSIM_MAXTRACE];
  dsim_fault_t faults[DSIM_MAXFAULT];
  size_t outlen;
  char out[DSIM_OUTSZ];
} dsim_shared_t;

enum { DS_RUNNING = 1, DS_DONE = 2, DS_VIOLATION = 3, DS_INTERNAL = 4 };

enum { DSTRAT_NONE = 0, DSTRAT_RW, DSTRAT_PCT, DSTRAT_SYNC };

typedef struct {
  uint64_t seed;
  int strategy;
  double mean;        // mean steps between random decisions (RW)
  double phot;        // probability of preempting at a conflicting access
  int hold;           // after a hot preemption keep the thread parked
  int pct_changes;
  uint64_t est_steps; // PCT horizon
  uint64_t max_steps; // bound: exceeding it is a liveness violation
  int replay;         // use explicit trace/faults
  const dsim_switch_t *rtrace;
  uint32_t nrtrace;
  const dsim_fault_t *rfaults;
  uint32_t nrfaults;
  // memory faults
  uint64_t mem_budget;   // 0: unlimited; bytes of large allocations
  uint64_t mem_threshold;
  double p_alloc;
  // clock faults
  double p_clock;
  int64_t clock_max_jump_ns;
  uint64_t clock_read_ns; // clock advance per read
  // io faults, applied to descriptors opened under io_prefix
  const char *io_prefix;
  const char *io_redirect; // these are opened under this prefix instead
  double p_eio, p_short, p_eintr, p_enospc, p_openfail, p_eof;
  uint64_t max_io_faults;
  // asynchronous signal at a global step
  int signo;
  uint64_t sig_step[8];
  int nsig;
  int heapcheck;
} dsim_cfg_t;

void dsim_init(dsim_shared_t *sh);
void dsim_defaults(dsim_cfg_t *cfg);
void dsim_begin(const dsim_cfg_t *cfg);
void dsim_end(void);
int dsim_active(void);
int dsim_self(void);
uint64_t dsim_event(uint64_t a, uint64_t b); // adds to hash; returns seqno
uint64_t dsim_now_ns(void);
uint64_t dsim_steps(void);
// while the nesting count is positive nothing is a scheduling point (for the
// harness's own bookkeeping in callbacks from Oclgrind threads)
void dsim_noyield(int delta);
// explicit yield point
void dsim_yield(void);
// block the calling thread until pred() is true
void dsim_wait_until(int (*pred)(void *), void *arg, const char *what);
// enable / disable fault kinds during a window
void dsim_alloc_faults(int on);
void dsim_set_budget(uint64_t budget);
uint64_t dsim_large_in_use(void);
void dsim_set_clock_faults(double p);
// report a violation from inside the runtime and end the process
void dsim_violation(const char *cls, const char *fmt, ...)
  __attribute__((format(printf, 2, 3)));
// write to the shared output buffer
void dsim_out(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void dsim_outraw(const char *s, size_t n);
// arena query: 0 = not arena, 1 = live, 2 = freed
int dsim_heap_state(const void *p);
// live arena blocks; blocks allocated after a mark and still live
uint64_t dsim_fault_count(int kind);
uint64_t dsim_heap_live(uint64_t *bytes);
uint32_t dsim_heap_mark(void);
void dsim_heap_describe(uint32_t mark, char *buf, size_t n);

#ifdef __cplusplus
}
#endif
#endif
