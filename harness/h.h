// Common harness definitions.
#pragma once
#define CL_TARGET_OPENCL_VERSION 300
#include "CL/cl.h"
#include "../sim/dsim.h"
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

struct Rnd
{
  uint64_t s;
  // The seed is hashed first: with a start that is linear in the seed, the
  // streams of consecutive seeds would be the same one shifted.
  explicit Rnd(uint64_t seed = 1) : s(mix(mix(seed + 0x1234567) ^ 0x6a09e667f3bcc909ull)) {}
  static uint64_t mix(uint64_t z)
  {
    z = (z ^ (z >> 32)) * 0xd6e8feb86659fd93ull;
    z = (z ^ (z >> 32)) * 0xd6e8feb86659fd93ull;
    return z ^ (z >> 32);
  }
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[(*this)(v.size())]; }
};

// Observed plugin events
enum ObsKind
{
  OB_KERNEL_BEGIN, OB_KERNEL_END, OB_WG_BEGIN, OB_WG_COMPLETE, OB_WG_BARRIER,
  OB_WI_BEGIN, OB_WI_COMPLETE, OB_LOG, OB_INST, OB_LOAD, OB_STORE, OB_ALOAD,
  OB_ASTORE, OB_HLOAD, OB_HSTORE, OB_ALLOC, OB_FREE, OB_MAP, OB_UNMAP, OB_STEP
};
struct ObsEvent
{
  int kind;
  int thread;
  size_t id[3]; // group or global id
  uint64_t a, b, c;
  std::string text;
};
extern "C"
{
  struct obs_hooks_t
  {
    uint32_t mask; // 1<<ObsKind
    int threadsafe;
    void (*fn)(int kind, const size_t *id, uint64_t a, uint64_t b, uint64_t c,
               const char *text);
  };
  extern obs_hooks_t obs_hooks;
}

struct Run
{
  uint64_t seed = 0;
  bool replay = false;
  bool desc = false;
  std::set<int> drop;
  std::string mode; // workload-specific variant
  Rnd rng{1};
  int nelem = 0;
  dsim_cfg_t cfg;
  std::vector<dsim_switch_t> rtrace;
  std::vector<dsim_fault_t> rfaults;
  std::string scratch;
  void make_scratch(); // an empty folder: a killed process may have left files
  uint64_t p1 = 0, p2 = 0, sched = 0;

  bool keep() { return !drop.count(nelem++); }
  // report and end the run
  [[noreturn]] void fail(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 3, 4)));
  void d(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void stat(const char *name, uint64_t n = 1);
  void nontrivial(uint64_t key); // distinct state key
  // swarm configuration of the scheduler from the seed
  void schedule_swarm();
  void begin()
  {
    dsim_out("E %d\n", nelem);
    dsim_begin(&cfg);
  }
  void end() { dsim_end(); }
  std::map<std::string, uint64_t> stats;
  void finish();
  void require_cl(cl_int got, cl_int want, const char *what);
};

struct Workload
{
  const char *name;
  void (*setup)(const std::string &variant); // in the zygote
  void (*run)(Run &r);                       // in a forked child
};
extern std::vector<Workload> &workloads();
struct RegWorkload
{
  RegWorkload(const char *n, void (*s)(const std::string &), void (*r)(Run &))
  {
    workloads().push_back({n, s, r});
  }
};

// OpenCL helpers used outside and inside windows
extern cl_platform_id g_platform;
extern cl_device_id g_device;
void cl_setup_platform();
cl_context cl_new_context();
cl_program cl_build(cl_context c, const char *src, const char *opts);
void set_threads(int n);

// stdout/stderr capture (file descriptors redirected to memfds)
void capture_start();
std::string captured_stdout();
std::string captured_stderr();
void capture_reset();

// observation
extern std::vector<ObsEvent> g_obs;
void obs_start(uint32_t mask);
void obs_stop();
extern std::vector<std::string> g_logs;     // all messages
extern std::vector<int> g_logtypes;

uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
