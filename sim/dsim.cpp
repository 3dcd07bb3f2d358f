// dsim.cpp - see dsim.h
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "dsim.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

// ---------------------------------------------------------------- PRNG
struct Rng
{
  uint64_t s[4];
  static uint64_t sm(uint64_t &x)
  {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void seed(uint64_t v)
  {
    v = sm(v); // hashed: consecutive seeds must not share a stream
    v = sm(v) ^ 0x6a09e667f3bcc909ull;
    for (int i = 0; i < 4; i++)
      s[i] = sm(v);
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next()
  {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return p > 0 && unit() < p; }
};

// --------------------------------------------------------------- state
enum { TS_UNUSED, TS_RUNNABLE, TS_BLOCKED, TS_FINISHED };
struct Thr
{
  int state;
  int go; // futex
  uint64_t steps;
  const void *obj;
  const char *why;
  uint64_t deadline; // simulated ns, 0 = none
  int timedout;
  uint64_t prio;
  uint64_t hold; // not chosen before this global step (soft)
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  uint32_t rpos, rend; // replay cursor
  int (*pred)(void *);
  void *predarg;
};

static bool g_active = false;
static bool g_init = false;
static dsim_shared_t *SH;
static dsim_cfg_t C;
static Thr T[DSIM_MAXTHREADS];
static int g_nthr;
static int g_cur;
static int g_live; // runnable or blocked
static uint64_t g_steps;
static int64_t g_countdown;
// fairness: longest run of one thread while another could run
static uint64_t g_runlen;
#define FAIR 50000
static Rng R_sched, R_fault;
static uint64_t g_hash, g_addrhash;
static uint64_t g_clock;   // monotonic simulated ns
static int64_t g_wallskew; // added to the realtime clock
static uint64_t g_pctpoints[64];
static int g_npct;
static uint64_t g_pctlow;
static uint64_t g_ioindex, g_allocindex, g_clockindex;
static uint64_t g_iofaults;
static bool g_allocon;
static uint64_t g_large;
static int g_noyield; // nesting: inside the runtime, no scheduling
static double g_pclock;
static int g_nextsig;
static thread_local int t_self = -1;

struct Hot
{
  uint64_t a;
  uint32_t tid;
  uint32_t w;
};
#define HOTN 65536
static Hot *g_hot;

// replay lookup of faults: sorted by (kind,index) not needed; linear with
// cursor per kind would do, counts are small.

static void futex_wait(int *p, int v)
{
  syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, NULL, NULL, 0);
}
static void futex_wake(int *p)
{
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

EXPORT void dsim_outraw(const char *s, size_t n)
{
  if (!SH)
    return;
  if (SH->outlen + n >= DSIM_OUTSZ)
    n = DSIM_OUTSZ - 1 - SH->outlen;
  for (size_t i = 0; i < n; i++)
    SH->out[SH->outlen + i] = s[i];
  SH->outlen += n;
  SH->out[SH->outlen] = 0;
}
EXPORT void dsim_out(const char *fmt, ...)
{
  char buf[8192];
  g_noyield++;
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  g_noyield--;
  if (n >= (int)sizeof buf)
    n = sizeof buf - 1;
  if (n > 0)
    dsim_outraw(buf, n);
}

static void publish()
{
  if (!SH)
    return;
  SH->steps = g_steps;
  SH->hash = g_hash;
  SH->addrhash = g_addrhash;
  SH->simtime_ns = g_clock;
}

EXPORT void dsim_violation(const char *cls, const char *fmt, ...)
{
  g_noyield++;
  g_active = false;
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  for (char *p = buf; *p; p++)
    if (*p == '\n')
      *p = '|';
  dsim_out("V %s %s\n", cls, buf);
  publish();
  if (SH)
    SH->status = DS_VIOLATION;
  _exit(7);
}

static void internal_error(const char *msg)
{
  g_noyield++;
  g_active = false;
  dsim_out("I %s\n", msg);
  publish();
  if (SH)
    SH->status = DS_INTERNAL;
  _exit(8);
}

static inline void hmix(uint64_t v)
{
  g_hash = (g_hash ^ v) * 0x100000001b3ull;
  g_hash ^= g_hash >> 29;
}

EXPORT uint64_t dsim_event(uint64_t a, uint64_t b)
{
  hmix(a * 0x9e3779b97f4a7c15ull + b);
  return g_steps;
}

// ------------------------------------------------------- thread switching
static void deliver_signal()
{
  while (g_nextsig < C.nsig && g_steps >= C.sig_step[g_nextsig])
  {
    g_nextsig++;
    if (SH)
    {
      SH->fault_count[DF_SIGNAL]++;
      if (SH->nfaults < DSIM_MAXFAULT)
        SH->faults[SH->nfaults++] = {DF_SIGNAL, 0, g_steps, C.signo};
    }
    raise(C.signo);
  }
}

static void record_switch(int from, int to, uint64_t step, int forced)
{
  hmix(((uint64_t)from << 48) ^ ((uint64_t)to << 56) ^ step);
  if (!SH)
    return;
  SH->switches++;
  if (!forced)
    SH->preemptions++;
  if (SH->ntrace < DSIM_MAXTRACE)
  {
    dsim_switch_t &s = SH->trace[SH->ntrace++];
    s.from = from;
    s.to = to;
    s.step = step;
    s.forced = forced;
  }
}

static void resume(int to)
{
  __atomic_store_n(&T[to].go, 1, __ATOMIC_RELEASE);
  futex_wake(&T[to].go);
}
static void park(int me)
{
  while (!__atomic_load_n(&T[me].go, __ATOMIC_ACQUIRE))
    futex_wait(&T[me].go, 0);
  __atomic_store_n(&T[me].go, 0, __ATOMIC_RELEASE);
}

static void handoff(int me, int to)
{
  g_runlen = 0;
  if (me == to)
    return;
  g_cur = to;
  resume(to);
  park(me);
}

// evaluate predicates of predicate-blocked threads
static void poll_preds()
{
  for (int i = 0; i < g_nthr; i++)
    if (T[i].state == TS_BLOCKED && T[i].pred && T[i].pred(T[i].predarg))
    {
      T[i].state = TS_RUNNABLE;
      T[i].pred = NULL;
    }
}

static int runnable_list(int *lst, bool ignore_hold)
{
  int n = 0;
  for (int i = 0; i < g_nthr; i++)
    if (T[i].state == TS_RUNNABLE && (ignore_hold || T[i].hold <= g_steps))
      lst[n++] = i;
  return n;
}

static int choose_among(int me)
{
  int lst[DSIM_MAXTHREADS];
  int n = runnable_list(lst, false);
  if (!n)
    n = runnable_list(lst, true);
  if (!n)
    return -1;
  if (C.strategy == DSTRAT_PCT)
  {
    int best = lst[0];
    for (int i = 1; i < n; i++)
      if (T[lst[i]].prio > T[best].prio)
        best = lst[i];
    return best;
  }
  return lst[R_sched.below(n)];
}

// Look up an explicit decision for thread me at its current local step.
static int replay_choice(int me)
{
  for (; T[me].rpos < C.nrtrace; T[me].rpos++)
  {
    const dsim_switch_t &s = C.rtrace[T[me].rpos];
    if (s.from != me)
      continue;
    if (s.step > T[me].steps)
      break;
    if (s.step == T[me].steps)
    {
      T[me].rpos++;
      if (s.to < g_nthr && T[s.to].state == TS_RUNNABLE)
        return s.to;
      return -1;
    }
  }
  return -1;
}

static void new_countdown()
{
  if (C.strategy == DSTRAT_RW)
  {
    // geometric with the given mean
    double u = R_sched.unit();
    double v = -__builtin_log(1.0 - u) * C.mean;
    g_countdown = 1 + (int64_t)v;
  }
  else
    g_countdown = INT64_MAX / 2;
}

// Called when the current thread cannot continue (blocked/finished).
static void forced_switch(int me)
{
  poll_preds();
  int to = -1;
  if (C.replay)
    to = replay_choice(me);
  if (to < 0)
  {
    if (C.replay)
    {
      for (int i = 0; i < g_nthr && to < 0; i++)
        if (T[i].state == TS_RUNNABLE)
          to = i;
    }
    else
      to = choose_among(me);
  }
  if (to < 0)
  {
    // nothing runnable: advance the clock to the earliest deadline
    int best = -1;
    for (int i = 0; i < g_nthr; i++)
      if (T[i].state == TS_BLOCKED && T[i].deadline &&
          (best < 0 || T[i].deadline < T[best].deadline))
        best = i;
    if (best >= 0)
    {
      if (g_clock < T[best].deadline)
        g_clock = T[best].deadline;
      T[best].timedout = 1;
      T[best].state = TS_RUNNABLE;
      to = best;
    }
    else
    {
      char buf[1024];
      int n = 0;
      for (int i = 0; i < g_nthr; i++)
        if (T[i].state == TS_BLOCKED)
          n += snprintf(buf + n, sizeof buf - n, "thread %d waits for %s; ", i,
                        T[i].why ? T[i].why : "?");
      dsim_violation("deadlock", "no thread can run: %s", buf);
    }
  }
  T[to].hold = 0;
  if (to == me)
    return;
  record_switch(me, to, T[me].steps, 1);
  new_countdown();
  handoff(me, to);
}

static void switch_now(int me, int to)
{
  if (to < 0 || to == me)
    return;
  T[to].hold = 0;
  record_switch(me, to, T[me].steps, 0);
  handoff(me, to);
}

enum { PK_MEM, PK_SYNC, PK_ATOMIC, PK_CALL };

static void __attribute__((noinline)) overrun()
{
  dsim_violation("livelock", "step bound %llu exceeded without completing",
                 (unsigned long long)C.max_steps);
}

static void __attribute__((noinline)) decide(int me, int kind, bool hot)
{
  if (C.replay)
  {
    int to = replay_choice(me);
    if (to >= 0)
      switch_now(me, to);
    return;
  }
  switch (C.strategy)
  {
  case DSTRAT_NONE:
    return;
  case DSTRAT_RW:
  {
    if (hot)
    {
      // keep this thread away from the contended access for a while
      if (C.hold)
        T[me].hold = g_steps + 1 + R_sched.below(C.hold);
      int to = choose_among(me);
      new_countdown();
      if (to >= 0)
        switch_now(me, to);
      return;
    }
    int to = choose_among(me);
    new_countdown();
    switch_now(me, to);
    return;
  }
  case DSTRAT_PCT:
  {
    if (hot)
      T[me].prio = --g_pctlow;
    int to = choose_among(me);
    switch_now(me, to);
    return;
  }
  case DSTRAT_SYNC:
  {
    int to = choose_among(me);
    switch_now(me, to);
    return;
  }
  }
}

// A thread that has run for a long time while others could run is descheduled
// whatever the strategy, so that spinning threads cannot starve the others.
static void __attribute__((noinline)) fair_switch(int me)
{
  if (C.replay)
  {
    int to = replay_choice(me);
    if (to >= 0)
    {
      switch_now(me, to);
      return;
    }
    if (g_runlen < FAIR + 10000)
      return;
  }
  g_runlen = 0;
  T[me].prio = --g_pctlow;
  for (int k = 1; k < g_nthr; k++)
  {
    int to = (me + k) % g_nthr;
    if (T[to].state == TS_RUNNABLE)
    {
      switch_now(me, to);
      return;
    }
  }
}

static inline void point(const void *addr, unsigned size, bool write, int kind)
{
  if (g_noyield)
    return;
  int me = g_cur;
  if (UNLIKELY(t_self != me))
    return; // thread outside the simulation (exiting)
  Thr &t = T[me];
  t.steps++;
  g_steps++;
  g_clock += 2;
  if (UNLIKELY(g_steps > C.max_steps))
    overrun();
  if (UNLIKELY(g_nextsig < C.nsig) && g_steps >= C.sig_step[g_nextsig])
    deliver_signal();
  bool hot = false;
  if (g_live > 1)
  {
    if (UNLIKELY(++g_runlen > FAIR))
    {
      fair_switch(me);
      return;
    }
    if (addr && kind != PK_SYNC)
    {
      uint64_t a = (uint64_t)addr >> 3;
      Hot &h = g_hot[(a * 0x9e3779b97f4a7c15ull) >> 48];
      if (h.a == a && h.tid != (uint32_t)me && (h.w || write))
      {
        SH->hotpoints++;
        if (!C.replay && C.phot > 0 && R_sched.chance(C.phot))
          hot = true;
      }
      if (h.a == a && h.tid == (uint32_t)me)
        h.w |= write;
      else
      {
        h.a = a;
        h.tid = me;
        h.w = write;
      }
    }
    if (C.replay)
    {
      decide(me, kind, false);
    }
    else if (C.strategy == DSTRAT_RW)
    {
      if (UNLIKELY(--g_countdown <= 0) || UNLIKELY(hot))
        decide(me, kind, hot);
    }
    else if (C.strategy == DSTRAT_PCT)
    {
      bool ch = hot;
      while (g_npct && g_steps >= g_pctpoints[g_npct - 1])
      {
        g_npct--;
        ch = true;
      }
      if (UNLIKELY(ch))
        decide(me, kind, true);
    }
    else if (C.strategy == DSTRAT_SYNC && (kind != PK_MEM || hot))
      decide(me, kind, hot);
  }
}

static void yield_point(int kind)
{
  if (g_active && !g_noyield && t_self == g_cur)
    point(NULL, 0, false, kind);
}

EXPORT void dsim_noyield(int d) { g_noyield += d; }
EXPORT void dsim_yield(void)
{
  yield_point(PK_CALL);
}

static void block_on(const void *obj, const char *why, uint64_t deadline = 0)
{
  int me = g_cur;
  T[me].steps++;
  g_steps++;
  T[me].state = TS_BLOCKED;
  T[me].obj = obj;
  T[me].why = why;
  T[me].deadline = deadline;
  T[me].timedout = 0;
  T[me].pred = NULL;
  forced_switch(me);
}
static void wake_all(const void *obj)
{
  for (int i = 0; i < g_nthr; i++)
    if (T[i].state == TS_BLOCKED && T[i].obj == obj && !T[i].pred)
    {
      T[i].state = TS_RUNNABLE;
      T[i].deadline = 0;
    }
}
static bool simthread()
{
  return g_active && t_self == g_cur && !g_noyield;
}

EXPORT void dsim_wait_until(int (*pred)(void *), void *arg, const char *what)
{
  if (!simthread())
    return;
  while (!pred(arg))
  {
    int me = g_cur;
    T[me].steps++;
    g_steps++;
    T[me].state = TS_BLOCKED;
    T[me].obj = NULL;
    T[me].why = what;
    T[me].deadline = 0;
    T[me].pred = pred;
    T[me].predarg = arg;
    forced_switch(me);
  }
}

// ------------------------------------------------------------ heap arena
typedef void *(*cpy_t)(void *, const void *, size_t);
typedef void *(*set_t)(void *, int, size_t);
static cpy_t real_memcpy, real_memmove;
static set_t real_memset;
static char *const ARENA = (char *)0x600000000000ull;
static const size_t ARENA_SZ = 4ull << 30;
static char *const SHADOW = (char *)0x610000000000ull;
static size_t g_bump;
static bool g_arena_ok;
struct Hdr
{
  size_t size;
  uint32_t magic;
  uint32_t seq;
  size_t prev; // arena offset of the previous block's header
  void *pc;    // instrumented function that allocated
};
static size_t g_lasthdr;
static uint32_t g_hdrseq;
static uint64_t g_liveblocks, g_livebytes;
static __thread void *t_fn[64];
static __thread unsigned t_fnd;
#define MAGIC_LIVE 0xA110CA7E
#define MAGIC_FREE 0xDEADF4EE

static void *arena_alloc(size_t size, size_t align, bool zero)
{
  if (size > ARENA_SZ || align > ARENA_SZ)
    return NULL; // no address space has room for it

  if (align < 16)
    align = 16;
  size_t start = g_bump + sizeof(Hdr);
  start = (start + align - 1) & ~(align - 1);
  size_t end = start + ((size + 15) & ~(size_t)15) + 16;
  if (end > ARENA_SZ)
    return NULL;
  Hdr *h = (Hdr *)(ARENA + start - sizeof(Hdr));
  h->size = size;
  h->magic = MAGIC_LIVE;
  h->seq = g_hdrseq++;
  h->prev = g_lasthdr;
  h->pc = t_fnd ? t_fn[(t_fnd - 1) & 63] : NULL;
  g_lasthdr = (char *)h - ARENA;
  g_liveblocks++;
  g_livebytes += size;
  // redzones: header and tail
  size_t s0 = g_bump >> 3, s1 = start >> 3;
  for (size_t i = s0; i < s1; i++)
    SHADOW[i] = (char)0xFA;
  size_t full = size >> 3;
  if (size & 7)
    SHADOW[s1 + full] = size & 7, full++;
  size_t se = end >> 3;
  for (size_t i = s1 + full; i < se; i++)
    SHADOW[i] = (char)0xFA;
  g_bump = end;
  char *p = ARENA + start;
  if (!zero)
  {
    // recognisable garbage; bounded so that huge buffers stay lazily mapped
    size_t n = size < 65536 ? size : 65536;
    real_memset(p, 0xCD, n);
  }
  if (SH)
    SH->allocs++;
  return p;
}
static inline bool in_arena(const void *p)
{
  return (size_t)((const char *)p - ARENA) < ARENA_SZ;
}
EXPORT int dsim_heap_state(const void *p)
{
  if (!in_arena(p))
    return 0;
  char s = SHADOW[((const char *)p - ARENA) >> 3];
  return s == (char)0xFD || s == (char)0xFA ? 2 : 1;
}
static void describe_pc(void *pc, char *buf, size_t n)
{
  Dl_info di;
  g_noyield++;
  if (dladdr(pc, &di) && di.dli_fname)
  {
    const char *b = strrchr(di.dli_fname, '/');
    snprintf(buf, n, "%s+0x%lx(%s)", b ? b + 1 : di.dli_fname,
             (unsigned long)((char *)pc - (char *)di.dli_fbase),
             di.dli_sname ? di.dli_sname : "?");
  }
  else
    snprintf(buf, n, "%p", pc);
  g_noyield--;
}
static void __attribute__((noinline))
heap_bad(const void *a, size_t n, bool w, void *pc, char s)
{
  char where[512];
  describe_pc(pc, where, sizeof where);
  dsim_violation("heap", "%s of %zu bytes at %s by the simulator itself, at %s",
                 w ? "write" : "read", n,
                 s == (char)0xFD   ? "freed memory"
                 : s == (char)0xFA ? "out-of-bounds heap address"
                                   : "the end of a heap block",
                 where);
}
static inline void heap_check(const void *a, size_t n, bool w, void *pc)
{
  if (!in_arena(a) || !C.heapcheck)
    return;
  size_t o = (const char *)a - ARENA;
  if (o >= g_bump)
    heap_bad(a, n, w, pc, (char)0xFA);
  size_t e = o + n - 1;
  if (e >= g_bump)
    heap_bad(a, n, w, pc, (char)0xFA);
  for (size_t i = o >> 3; i <= e >> 3; i++)
  {
    char s = SHADOW[i];
    if (LIKELY(s == 0))
      continue;
    if (s == (char)0xFA || s == (char)0xFD)
      heap_bad(a, n, w, pc, s);
    // partial granule: only the first s bytes
    size_t last = i == e >> 3 ? (e & 7) : 7;
    if (last >= (size_t)s)
      heap_bad(a, n, w, pc, s);
  }
}

EXPORT uint64_t dsim_heap_live(uint64_t *bytes)
{
  if (bytes)
    *bytes = g_livebytes;
  return g_liveblocks;
}
EXPORT uint32_t dsim_heap_mark(void) { return g_hdrseq; }
// describes the blocks allocated since `mark` that are still live
EXPORT void dsim_heap_describe(uint32_t mark, char *buf, size_t n)
{
  size_t used = 0;
  buf[0] = 0;
  int shown = 0;
  for (size_t o = g_lasthdr; o || g_lasthdr == 0;)
  {
    Hdr *h = (Hdr *)(ARENA + o);
    if (h->seq < mark)
      break;
    if (h->magic == MAGIC_LIVE && shown++ < 8)
    {
      char where[300];
      describe_pc(h->pc, where, sizeof where);
      int k = snprintf(buf + used, n - used, "%s%zu bytes in %s", used ? "; " : "", h->size, where);
      if (k > 0 && used + k < n)
        used += k;
    }
    if (!h->seq)
      break;
    o = h->prev;
  }
}

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

static bool alloc_fault(size_t size)
{
  if (!g_allocon || size < C.mem_threshold)
    return false;
  uint64_t idx = g_allocindex++;
  bool fail = false;
  if (C.replay)
  {
    for (uint32_t i = 0; i < C.nrfaults; i++)
      if (C.rfaults[i].kind == DF_ALLOC && C.rfaults[i].index == idx)
        fail = true;
  }
  else if (R_fault.chance(C.p_alloc))
    fail = true;
  if (C.mem_budget && g_large + size > C.mem_budget)
    fail = true;
  if (fail && SH)
  {
    SH->fault_count[DF_ALLOC]++;
    if (SH->nfaults < DSIM_MAXFAULT)
      SH->faults[SH->nfaults++] = {DF_ALLOC, 0, idx, (int64_t)size};
    hmix(0xA110C ^ idx);
  }
  return fail;
}

EXPORT void *malloc(size_t n)
{
  if (g_active && t_self == g_cur && g_arena_ok)
  {
    if (UNLIKELY(g_allocon) && alloc_fault(n))
    {
      errno = ENOMEM;
      return NULL;
    }
    void *p = arena_alloc(n, 16, false);
    if (p)
    {
      if (C.mem_threshold && n >= C.mem_threshold)
        g_large += n;
      return p;
    }
    errno = ENOMEM;
    return NULL;
  }
  return __libc_malloc(n);
}
EXPORT void free(void *p)
{
  if (!p)
    return;
  if (in_arena(p))
  {
    Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
    size_t o = (char *)p - ARENA;
    if (o >= g_bump || h->magic != MAGIC_LIVE)
    {
      if (g_active && C.heapcheck)
      {
        char where[512];
        describe_pc(__builtin_return_address(0), where, sizeof where);
        dsim_violation("heap", "%s by the simulator itself, at %s",
                       o < g_bump && h->magic == MAGIC_FREE ? "double free"
                                                            : "invalid free",
                       where);
      }
      return;
    }
    h->magic = MAGIC_FREE;
    g_liveblocks--;
    g_livebytes -= h->size;
    size_t n = (h->size + 7) >> 3;
    for (size_t i = 0; i < n; i++)
      SHADOW[(o >> 3) + i] = (char)0xFD;
    size_t m = h->size < 65536 ? h->size : 65536;
    real_memset(p, 0xDD, m);
    if (C.mem_threshold && h->size >= C.mem_threshold)
      g_large -= h->size;
    if (h->size > (1 << 20))
    {
      size_t b = (o + 4095) & ~4095ull, e = (o + h->size) & ~4095ull;
      if (e > b)
        madvise(ARENA + b, e - b, MADV_DONTNEED);
    }
    return;
  }
  __libc_free(p);
}
EXPORT void *calloc(size_t a, size_t b)
{
  if (g_active && t_self == g_cur && g_arena_ok)
  {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) ||
        (UNLIKELY(g_allocon) && alloc_fault(n)))
    {
      errno = ENOMEM;
      return NULL;
    }
    void *p = arena_alloc(n, 16, true);
    if (p)
    {
      if (C.mem_threshold && n >= C.mem_threshold)
        g_large += n;
      return p; // fresh arena memory is zero
    }
    errno = ENOMEM;
    return NULL;
  }
  return __libc_calloc(a, b);
}
EXPORT void *realloc(void *p, size_t n)
{
  if (in_arena(p))
  {
    size_t old = ((Hdr *)((char *)p - sizeof(Hdr)))->size;
    void *q = malloc(n);
    if (!q)
      return NULL;
    real_memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
  }
  if (g_active && t_self == g_cur && g_arena_ok && !p)
    return malloc(n);
  return __libc_realloc(p, n);
}
EXPORT void *memalign(size_t al, size_t n)
{
  if (g_active && t_self == g_cur && g_arena_ok)
    return arena_alloc(n, al, false);
  return __libc_memalign(al, n);
}
EXPORT void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void **p, size_t al, size_t n)
{
  *p = memalign(al, n);
  return *p ? 0 : ENOMEM;
}
EXPORT size_t malloc_usable_size(void *p)
{
  if (!p)
    return 0;
  if (in_arena(p))
    return ((Hdr *)((char *)p - sizeof(Hdr)))->size;
  return ((size_t *)p)[-1] & ~(size_t)7; // glibc chunk, minus overhead
}

// ------------------------------------------------- access instrumentation
static inline void access(void *a, unsigned n, bool w, void *pc)
{
  if (LIKELY(!g_active) || t_self != g_cur || g_noyield)
    return;
  if (w)
    SH->writes++;
  else
    SH->reads++;
  g_addrhash = (g_addrhash ^ (uint64_t)a) * 0x100000001b3ull;
  point(a, n, w, PK_MEM);
  heap_check(a, n, w, pc);
}
#define RA __builtin_return_address(0)
#define ACC(n)                                                                 \
  EXPORT void __tsan_read##n(void *a) { access(a, n, false, RA); }             \
  EXPORT void __tsan_write##n(void *a) { access(a, n, true, RA); }             \
  EXPORT void __tsan_volatile_read##n(void *a) { access(a, n, false, RA); }    \
  EXPORT void __tsan_volatile_write##n(void *a) { access(a, n, true, RA); }    \
  EXPORT void __tsan_unaligned_read##n(void *a) { access(a, n, false, RA); }   \
  EXPORT void __tsan_unaligned_write##n(void *a) { access(a, n, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
EXPORT void __tsan_read_range(void *a, size_t n)
{
  if (n)
    access(a, n, false, RA);
}
EXPORT void __tsan_write_range(void *a, size_t n)
{
  if (n)
    access(a, n, true, RA);
}
EXPORT void __tsan_vptr_update(void **v, void *) { access(v, 8, true, RA); }
EXPORT void __tsan_vptr_read(void **v) { access(v, 8, false, RA); }
EXPORT void __tsan_func_entry(void *)
{
  t_fn[t_fnd++ & 63] = __builtin_return_address(0);
}
EXPORT void __tsan_func_exit() { t_fnd--; }
EXPORT void __tsan_init() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}

static inline void atom(const volatile void *a, unsigned n, bool w, void *pc)
{
  if (LIKELY(!g_active) || t_self != g_cur || g_noyield)
    return;
  SH->atomics++;
  g_addrhash = (g_addrhash ^ (uint64_t)a) * 0x100000001b3ull;
  point((const void *)a, n, w, PK_ATOMIC);
  heap_check((const void *)a, n, w, pc);
}
typedef __int128 i128;
#define ATOMS(B, TY)                                                           \
  EXPORT TY __tsan_atomic##B##_load(const volatile TY *a, int)                 \
  {                                                                            \
    atom(a, sizeof(TY), false, RA);                                            \
    return *a;                                                                 \
  }                                                                            \
  EXPORT void __tsan_atomic##B##_store(volatile TY *a, TY v, int)              \
  {                                                                            \
    atom(a, sizeof(TY), true, RA);                                             \
    *a = v;                                                                    \
  }                                                                            \
  EXPORT TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int)             \
  {                                                                            \
    atom(a, sizeof(TY), true, RA);                                             \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  EXPORT TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int)            \
  {                                                                            \
    atom(a, sizeof(TY), true, RA);                                             \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  EXPORT TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int)            \
  {                                                                            \
    atom(a, sizeof(TY), true, RA);                                             \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  EXPORT TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int)            \
  {                                                                            \
    atom(a, sizeof(TY), true, RA);                                             \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  EXPORT TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int)             \
  {                                                                            \
    atom(a, sizeof(TY), true, RA);                                             \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  EXPORT TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int)            \
  {                                                                            \
    atom(a, sizeof(TY), true, RA);                                             \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  EXPORT TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int)           \
  {                                                                            \
    atom(a, sizeof(TY), true, RA);                                             \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  EXPORT int __tsan_atomic##B##_compare_exchange_strong(                       \
    volatile TY *a, TY *c, TY v, int, int)                                     \
  {                                                                            \
    atom(a, sizeof(TY), true, RA);                                             \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  EXPORT int __tsan_atomic##B##_compare_exchange_weak(                         \
    volatile TY *a, TY *c, TY v, int, int)                                     \
  {                                                                            \
    atom(a, sizeof(TY), true, RA);                                             \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  EXPORT TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c,      \
                                                    TY v, int, int)            \
  {                                                                            \
    atom(a, sizeof(TY), true, RA);                                             \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST,             \
                                __ATOMIC_SEQ_CST);                             \
    return c;                                                                  \
  }
ATOMS(8, uint8_t)
ATOMS(16, uint16_t)
ATOMS(32, uint32_t)
ATOMS(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { yield_point(PK_ATOMIC); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// block copies: both ranges are accesses; a long copy can be torn
EXPORT void *memcpy(void *__restrict d, const void *__restrict s, size_t n)
{
  if (UNLIKELY(!real_memcpy))
  {
    char *dd = (char *)d;
    const char *ss = (const char *)s;
    for (size_t i = 0; i < n; i++)
    {
      dd[i] = ss[i];
      __asm__ volatile("" ::: "memory");
    }
    return d;
  }
  if (UNLIKELY(g_active) && t_self == g_cur && !g_noyield && n)
  {
    access((void *)s, n, false, RA);
    access(d, n, true, RA);
  }
  return real_memcpy(d, s, n);
}
EXPORT void *memmove(void *d, const void *s, size_t n)
{
  if (UNLIKELY(!real_memmove))
  {
    char *dd = (char *)d;
    const char *ss = (const char *)s;
    if (dd < ss)
      for (size_t i = 0; i < n; i++)
      {
        dd[i] = ss[i];
        __asm__ volatile("" ::: "memory");
      }
    else
      for (size_t i = n; i-- > 0;)
      {
        dd[i] = ss[i];
        __asm__ volatile("" ::: "memory");
      }
    return d;
  }
  if (UNLIKELY(g_active) && t_self == g_cur && !g_noyield && n)
  {
    access((void *)s, n, false, RA);
    access(d, n, true, RA);
  }
  return real_memmove(d, s, n);
}
EXPORT void *memset(void *d, int c, size_t n)
{
  if (UNLIKELY(!real_memset))
  {
    char *dd = (char *)d;
    for (size_t i = 0; i < n; i++)
    {
      dd[i] = c;
      __asm__ volatile("" ::: "memory");
    }
    return d;
  }
  if (UNLIKELY(g_active) && t_self == g_cur && !g_noyield && n)
    access(d, n, true, RA);
  return real_memset(d, c, n);
}

// ------------------------------------------------------------- pthreads
static void *(*dl(const char *n))(void)
{
  return (void *(*)(void))dlsym(RTLD_NEXT, n);
}
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *),
                       void *);
static int (*r_join)(pthread_t, void **);
static int (*r_detach)(pthread_t);
static int (*r_mlock)(pthread_mutex_t *);
static int (*r_munlock)(pthread_mutex_t *);
static int (*r_mtrylock)(pthread_mutex_t *);
static int (*r_cwait)(pthread_cond_t *, pthread_mutex_t *);
static int (*r_ctwait)(pthread_cond_t *, pthread_mutex_t *,
                       const struct timespec *);
static int (*r_csignal)(pthread_cond_t *);
static int (*r_cbcast)(pthread_cond_t *);
static int (*r_once)(pthread_once_t *, void (*)(void));
static int (*r_rdlock)(pthread_rwlock_t *);
static int (*r_wrlock)(pthread_rwlock_t *);
static int (*r_rwunlock)(pthread_rwlock_t *);
static int (*r_clock_gettime)(clockid_t, struct timespec *);
static int (*r_gettimeofday)(struct timeval *, void *);
static int (*r_nanosleep)(const struct timespec *, struct timespec *);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static int (*r_open)(const char *, int, ...);
static int (*r_close)(int);
static FILE *(*r_fopen)(const char *, const char *);
static size_t (*r_fwrite)(const void *, size_t, size_t, FILE *);
static int (*r_fputc)(int, FILE *);
static int (*r_fputs)(const char *, FILE *);
static int (*r_fflush)(FILE *);
static int (*r_vfprintf)(FILE *, const char *, va_list);
static pthread_key_t g_exitkey;

static void resolve()
{
#define RES(v, n) v = (decltype(v))dl(n)
  RES(r_create, "pthread_create");
  RES(r_join, "pthread_join");
  RES(r_detach, "pthread_detach");
  RES(r_mlock, "pthread_mutex_lock");
  RES(r_munlock, "pthread_mutex_unlock");
  RES(r_mtrylock, "pthread_mutex_trylock");
  RES(r_cwait, "pthread_cond_wait");
  RES(r_ctwait, "pthread_cond_timedwait");
  RES(r_csignal, "pthread_cond_signal");
  RES(r_cbcast, "pthread_cond_broadcast");
  RES(r_once, "pthread_once");
  RES(r_rdlock, "pthread_rwlock_rdlock");
  RES(r_wrlock, "pthread_rwlock_wrlock");
  RES(r_rwunlock, "pthread_rwlock_unlock");
  RES(r_clock_gettime, "clock_gettime");
  RES(r_gettimeofday, "gettimeofday");
  RES(r_nanosleep, "nanosleep");
  RES(r_read, "read");
  RES(r_pread, "pread");
  RES(r_write, "write");
  RES(r_writev, "writev");
  RES(r_open, "open");
  RES(r_close, "close");
  RES(r_fopen, "fopen");
  RES(r_fwrite, "fwrite");
  RES(r_fputc, "fputc");
  RES(r_fputs, "fputs");
  RES(r_fflush, "fflush");
  RES(r_vfprintf, "vfprintf");
  real_memmove = (cpy_t)dl("memmove");
  real_memset = (set_t)dl("memset");
  real_memcpy = (cpy_t)dl("memcpy");
}
static void __attribute__((constructor(101))) ctor()
{
  resolve();
}
#define ENSURE(f)                                                              \
  if (UNLIKELY(!f))                                                            \
  resolve()

// lock table: address -> owner/count
struct Lk
{
  const void *a;
  int owner; // -1 free
  int count;
  int readers;
};
#define NLK 4096
static Lk g_lk[NLK];
static Lk *lk(const void *a)
{
  size_t i = ((uint64_t)a * 0x9e3779b97f4a7c15ull) >> 52;
  for (int k = 0; k < NLK; k++, i = (i + 1) & (NLK - 1))
  {
    if (g_lk[i].a == a)
      return &g_lk[i];
    if (!g_lk[i].a)
    {
      g_lk[i].a = a;
      g_lk[i].owner = -1;
      g_lk[i].count = g_lk[i].readers = 0;
      return &g_lk[i];
    }
  }
  internal_error("lock table full");
  return NULL;
}

static void thread_finished(void *)
{
  int me = t_self;
  if (me < 0 || !g_active)
    return;
  T[me].state = TS_FINISHED;
  g_live--;
  wake_all(&T[me]);
  T[me].steps++;
  g_steps++;
  hmix(0xF1 ^ ((uint64_t)me << 8));
  // choose successor without parking
  poll_preds();
  int to = C.replay ? replay_choice(me) : -1;
  if (to < 0)
  {
    if (C.replay)
    {
      for (int i = 0; i < g_nthr && to < 0; i++)
        if (T[i].state == TS_RUNNABLE)
          to = i;
    }
    else
      to = choose_among(me);
  }
  if (to < 0)
  {
    // earliest deadline
    int best = -1;
    for (int i = 0; i < g_nthr; i++)
      if (T[i].state == TS_BLOCKED && T[i].deadline &&
          (best < 0 || T[i].deadline < T[best].deadline))
        best = i;
    if (best < 0)
      dsim_violation("deadlock", "last runnable thread finished; others wait");
    if (g_clock < T[best].deadline)
      g_clock = T[best].deadline;
    T[best].timedout = 1;
    T[best].state = TS_RUNNABLE;
    to = best;
  }
  T[to].hold = 0;
  record_switch(me, to, T[me].steps, 1);
  new_countdown();
  t_self = -2;
  g_cur = to;
  resume(to);
}

static void *trampoline(void *p)
{
  Thr *t = (Thr *)p;
  int me = t - T;
  park(me);
  t_self = me;
  pthread_setspecific(g_exitkey, (void *)t);
  t->ret = t->fn(t->arg);
  return t->ret;
}

EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *at,
                          void *(*fn)(void *), void *arg)
{
  ENSURE(r_create);
  if (!simthread())
    return r_create(pt, at, fn, arg);
  yield_point(PK_SYNC);
  if (g_nthr >= DSIM_MAXTHREADS)
    internal_error("too many threads");
  int id = g_nthr++;
  Thr &t = T[id];
  real_memset((void *)&t, 0, sizeof t);
  t.fn = fn;
  t.arg = arg;
  t.prio = 1000000 + R_sched.below(1000000);
  g_noyield++;
  g_active = false; // glibc-internal allocation must not come from the arena
  int r = r_create(&t.pt, at, trampoline, &t);
  g_active = true;
  g_noyield--;
  if (r)
    internal_error("pthread_create failed");
  *pt = t.pt;
  t.state = TS_RUNNABLE;
  g_live++;
  SH->threads++;
  if ((uint64_t)g_live > SH->maxlive)
    SH->maxlive = g_live;
  hmix(0xC7 ^ ((uint64_t)id << 8));
  if (C.strategy == DSTRAT_PCT && !C.replay)
    decide(g_cur, PK_SYNC, false);
  else
    yield_point(PK_SYNC);
  return 0;
}
static int find_thr(pthread_t pt)
{
  for (int i = g_nthr - 1; i >= 0; i--)
    if (pthread_equal(T[i].pt, pt) && T[i].state != TS_UNUSED)
      return i;
  return -1;
}
EXPORT int pthread_join(pthread_t pt, void **ret)
{
  ENSURE(r_join);
  if (!simthread())
    return r_join(pt, ret);
  yield_point(PK_SYNC);
  int i = find_thr(pt);
  if (i < 0)
    return r_join(pt, ret);
  while (T[i].state != TS_FINISHED)
    block_on(&T[i], "thread to finish");
  T[i].pt = 0;
  g_active = false;
  int r = r_join(pt, ret);
  g_active = true;
  return r;
}
EXPORT int pthread_detach(pthread_t pt)
{
  ENSURE(r_detach);
  return r_detach(pt);
}

static int mkind(pthread_mutex_t *m) { return m->__data.__kind & 3; }

static void sim_lock(pthread_mutex_t *m, bool pt = true)
{
  if (pt)
    point(m, 1, true, PK_SYNC);
  SH->locks++;
  Lk *l = lk(m);
  while (true)
  {
    if (l->owner < 0)
    {
      l->owner = g_cur;
      l->count = 1;
      return;
    }
    if (l->owner == g_cur)
    {
      if (mkind(m) == PTHREAD_MUTEX_RECURSIVE)
      {
        l->count++;
        return;
      }
      dsim_violation("deadlock", "thread %d relocks a mutex it holds", g_cur);
    }
    block_on(m, "mutex");
  }
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m)
{
  ENSURE(r_mlock);
  if (!simthread())
    return r_mlock(m);
  sim_lock(m);
  return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m)
{
  ENSURE(r_mtrylock);
  if (!simthread())
    return r_mtrylock(m);
  point(m, 1, true, PK_SYNC);
  Lk *l = lk(m);
  if (l->owner < 0)
  {
    l->owner = g_cur;
    l->count = 1;
    return 0;
  }
  if (l->owner == g_cur && mkind(m) == PTHREAD_MUTEX_RECURSIVE)
  {
    l->count++;
    return 0;
  }
  return EBUSY;
}
static void sim_unlock(pthread_mutex_t *m)
{
  Lk *l = lk(m);
  if (l->owner == g_cur && --l->count > 0)
    return;
  l->owner = -1;
  l->count = 0;
  wake_all(m);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m)
{
  ENSURE(r_munlock);
  if (!simthread())
    return r_munlock(m);
  sim_unlock(m);
  point(m, 1, true, PK_SYNC);
  return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  ENSURE(r_cwait);
  if (!simthread())
    return r_cwait(c, m);
  sim_unlock(m);
  block_on(c, "condition variable");
  sim_lock(m, false);
  return 0;
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                                  const struct timespec *ts)
{
  ENSURE(r_ctwait);
  if (!simthread())
    return r_ctwait(c, m, ts);
  sim_unlock(m);
  uint64_t dl = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  if (dl <= g_clock)
    dl = g_clock + 1;
  int me = g_cur;
  block_on(c, "condition variable (timed)", dl);
  int to = T[me].timedout;
  sim_lock(m, false);
  return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m,
                                  clockid_t, const struct timespec *ts)
{
  return pthread_cond_timedwait(c, m, ts);
}
EXPORT int pthread_cond_signal(pthread_cond_t *c)
{
  ENSURE(r_csignal);
  if (!simthread())
    return r_csignal(c);
  point(c, 1, true, PK_SYNC);
  // wake one waiter, chosen by the scheduler's PRNG (lowest id in replay is
  // not equivalent, so wake all: spurious wake-ups are permitted)
  wake_all(c);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c)
{
  ENSURE(r_cbcast);
  if (!simthread())
    return r_cbcast(c);
  point(c, 1, true, PK_SYNC);
  wake_all(c);
  return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
  ENSURE(r_rdlock);
  if (!simthread())
    return r_rdlock(m);
  point(m, 1, true, PK_SYNC);
  Lk *l = lk(m);
  while (l->owner >= 0)
    block_on(m, "rwlock");
  l->readers++;
  return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
  ENSURE(r_wrlock);
  if (!simthread())
    return r_wrlock(m);
  point(m, 1, true, PK_SYNC);
  Lk *l = lk(m);
  while (l->owner >= 0 || l->readers)
    block_on(m, "rwlock");
  l->owner = g_cur;
  return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
  ENSURE(r_rwunlock);
  if (!simthread())
    return r_rwunlock(m);
  Lk *l = lk(m);
  if (l->owner == g_cur)
    l->owner = -1;
  else if (l->readers)
    l->readers--;
  wake_all(m);
  point(m, 1, true, PK_SYNC);
  return 0;
}
EXPORT int pthread_once(pthread_once_t *o, void (*f)(void))
{
  ENSURE(r_once);
  if (!simthread())
    return r_once(o, f);
  point(o, 1, true, PK_SYNC);
  while (true)
  {
    if (*o == 2)
      return 0;
    if (*o == 0)
      break;
    block_on(o, "pthread_once");
  }
  *o = 1;
  f();
  *o = 2;
  wake_all(o);
  return 0;
}
// function-local statics
EXPORT int __cxa_guard_acquire(uint64_t *g)
{
  char *b = (char *)g;
  if (*(volatile char *)b)
    return 0;
  if (simthread())
  {
    point(g, 1, true, PK_SYNC);
    while (true)
    {
      if (b[0])
        return 0;
      if (!b[1])
        break;
      block_on(g, "static initialiser");
    }
    b[1] = 1;
    return 1;
  }
  while (__atomic_exchange_n(&b[1], 1, __ATOMIC_ACQUIRE))
  {
    if (*(volatile char *)b)
      return 0;
    sched_yield();
  }
  if (b[0])
  {
    b[1] = 0;
    return 0;
  }
  return 1;
}
EXPORT void __cxa_guard_release(uint64_t *g)
{
  char *b = (char *)g;
  __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
  __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
  if (simthread())
    wake_all(g);
}
EXPORT void __cxa_guard_abort(uint64_t *g)
{
  char *b = (char *)g;
  __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
  if (simthread())
    wake_all(g);
}

// ---------------------------------------------------------------- clocks
static const uint64_t WALL0 = 1700000000000000000ull;
static const uint64_t MONO0 = 100000000000ull;
static uint64_t wall_ns()
{
  // every read may jump the wall clock
  uint64_t idx = g_clockindex++;
  bool jump = false;
  int64_t d = 0;
  if (C.replay)
  {
    for (uint32_t i = 0; i < C.nrfaults; i++)
      if (C.rfaults[i].kind == DF_CLOCKJUMP && C.rfaults[i].index == idx)
      {
        jump = true;
        d = C.rfaults[i].param;
      }
  }
  else if (R_fault.chance(g_pclock))
  {
    jump = true;
    d = (int64_t)R_fault.below(2 * C.clock_max_jump_ns) - C.clock_max_jump_ns;
  }
  if (jump)
  {
    g_wallskew += d;
    SH->fault_count[DF_CLOCKJUMP]++;
    if (SH->nfaults < DSIM_MAXFAULT)
      SH->faults[SH->nfaults++] = {DF_CLOCKJUMP, 0, idx, d};
    hmix(0xC10C ^ d);
  }
  g_clock += C.clock_read_ns;
  return WALL0 + g_clock + g_wallskew;
}
EXPORT uint64_t dsim_now_ns(void) { return g_clock; }
EXPORT uint64_t dsim_steps(void) { return g_steps; }
EXPORT int clock_gettime(clockid_t id, struct timespec *ts)
{
  ENSURE(r_clock_gettime);
  if (!simthread())
    return r_clock_gettime(id, ts);
  point(NULL, 0, false, PK_CALL);
  uint64_t v;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)
    v = wall_ns();
  else
  {
    g_clock += C.clock_read_ns;
    v = MONO0 + g_clock;
  }
  ts->tv_sec = v / 1000000000ull;
  ts->tv_nsec = v % 1000000000ull;
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz)
{
  ENSURE(r_gettimeofday);
  if (!simthread())
    return r_gettimeofday(tv, tz);
  point(NULL, 0, false, PK_CALL);
  uint64_t v = wall_ns();
  tv->tv_sec = v / 1000000000ull;
  tv->tv_usec = v % 1000000000ull / 1000;
  return 0;
}
EXPORT time_t time(time_t *t)
{
  time_t r;
  if (simthread())
    r = wall_ns() / 1000000000ull;
  else
  {
    struct timespec ts;
    ENSURE(r_clock_gettime);
    r_clock_gettime(CLOCK_REALTIME, &ts);
    r = ts.tv_sec;
  }
  if (t)
    *t = r;
  return r;
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b)
{
  ENSURE(r_nanosleep);
  if (!simthread())
    return r_nanosleep(a, b);
  block_on(&g_clock, "sleep",
           g_clock + 1 + (uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t, int, const struct timespec *a,
                           struct timespec *b)
{
  return nanosleep(a, b);
}
EXPORT int usleep(useconds_t u)
{
  struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&ts, NULL);
}
EXPORT int sched_yield(void)
{
  yield_point(PK_CALL);
  return 0;
}

// --------------------------------------------------------------- file I/O
static uint8_t g_fdflag[1024];
static bool io_path(const char *p)
{
  return C.io_prefix && !strncmp(p, C.io_prefix, strlen(C.io_prefix));
}
static const char *redirect(const char *p, char *b)
{
  if (!C.io_redirect)
    return p;
  snprintf(b, 4096, "%s%s", C.io_redirect, p + strlen(C.io_prefix));
  return b;
}
static int io_fault(bool write, bool open, size_t n, int64_t *param)
{
  if (!g_active || g_noyield)
    return DF_NONE;
  uint64_t idx = g_ioindex++;
  int kind = DF_NONE;
  *param = 0;
  if (C.replay)
  {
    for (uint32_t i = 0; i < C.nrfaults; i++)
      if (C.rfaults[i].kind >= DF_EIO && C.rfaults[i].kind != DF_SIGNAL &&
          C.rfaults[i].index == idx)
      {
        kind = C.rfaults[i].kind;
        *param = C.rfaults[i].param;
      }
    if ((kind == DF_OPENFAIL) != open && kind != DF_NONE)
      kind = DF_NONE;
  }
  else if (g_iofaults < C.max_io_faults)
  {
    if (open)
    {
      if (R_fault.chance(C.p_openfail))
        kind = DF_OPENFAIL;
    }
    else if (R_fault.chance(C.p_eio))
      kind = DF_EIO;
    else if (R_fault.chance(C.p_eintr))
      kind = DF_EINTR;
    else if (write && R_fault.chance(C.p_enospc))
      kind = DF_ENOSPC;
    else if (!write && R_fault.chance(C.p_eof))
      kind = DF_EOF;
    else if (n > 1 && R_fault.chance(C.p_short))
    {
      kind = DF_SHORT;
      *param = 1 + R_fault.below(n - 1);
    }
  }
  if (kind)
  {
    g_iofaults++;
    SH->fault_count[kind]++;
    if (SH->nfaults < DSIM_MAXFAULT)
      SH->faults[SH->nfaults++] = {(uint32_t)kind, 0, idx, *param};
    hmix(0x10 ^ idx ^ ((uint64_t)kind << 32));
  }
  return kind;
}
EXPORT ssize_t read(int fd, void *b, size_t n)
{
  ENSURE(r_read);
  if (simthread() && fd >= 0 && fd < 1024 && g_fdflag[fd])
  {
    int64_t pr;
    switch (io_fault(false, false, n, &pr))
    {
    case DF_EIO:
      errno = EIO;
      return -1;
    case DF_EINTR:
      errno = EINTR;
      return -1;
    case DF_EOF:
      return 0;
    case DF_SHORT:
      if (pr > 0 && (size_t)pr < n)
        n = pr;
      break;
    }
  }
  return r_read(fd, b, n);
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o)
{
  ENSURE(r_pread);
  if (simthread() && fd >= 0 && fd < 1024 && g_fdflag[fd])
  {
    int64_t pr;
    switch (io_fault(false, false, n, &pr))
    {
    case DF_EIO:
      errno = EIO;
      return -1;
    case DF_EINTR:
      errno = EINTR;
      return -1;
    case DF_EOF:
      return 0;
    case DF_SHORT:
      if (pr > 0 && (size_t)pr < n)
        n = pr;
      break;
    }
  }
  return r_pread(fd, b, n, o);
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
// Output: each call is a point at which another thread may run.
#define OUTPOINT(f)                                                            \
  ENSURE(f);                                                                   \
  yield_point(PK_CALL)
EXPORT size_t fwrite(const void *p, size_t a, size_t n, FILE *f)
{
  OUTPOINT(r_fwrite);
  return r_fwrite(p, a, n, f);
}
EXPORT int fputc(int c, FILE *f)
{
  OUTPOINT(r_fputc);
  return r_fputc(c, f);
}
#undef putc
EXPORT int putc(int c, FILE *f) { return fputc(c, f); }
#undef putchar
EXPORT int putchar(int c) { return fputc(c, stdout); }
EXPORT int fputs(const char *s, FILE *f)
{
  OUTPOINT(r_fputs);
  return r_fputs(s, f);
}
EXPORT int puts(const char *s)
{
  OUTPOINT(r_fputs);
  int r = r_fputs(s, stdout);
  return r < 0 ? r : r_fputc('\n', stdout);
}
EXPORT int fflush(FILE *f)
{
  OUTPOINT(r_fflush);
  return r_fflush(f);
}
EXPORT int vfprintf(FILE *f, const char *fmt, va_list ap)
{
  OUTPOINT(r_vfprintf);
  return r_vfprintf(f, fmt, ap);
}
EXPORT int vprintf(const char *fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
EXPORT int printf(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  int r = vfprintf(stdout, fmt, ap);
  va_end(ap);
  return r;
}
EXPORT int fprintf(FILE *f, const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n)
{
  OUTPOINT(r_write);
  if (simthread() && fd >= 0 && fd < 1024 && g_fdflag[fd])
  {
    int64_t pr;
    switch (io_fault(true, false, n, &pr))
    {
    case DF_EIO:
      errno = EIO;
      return -1;
    case DF_EINTR:
      errno = EINTR;
      return -1;
    case DF_ENOSPC:
      errno = ENOSPC;
      return -1;
    case DF_SHORT:
      if (pr > 0 && (size_t)pr < n)
        n = pr;
      break;
    }
  }
  return r_write(fd, b, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c)
{
  OUTPOINT(r_writev);
  if (simthread() && fd >= 0 && fd < 1024 && g_fdflag[fd])
  {
    size_t n = 0;
    for (int i = 0; i < c; i++)
      n += v[i].iov_len;
    int64_t pr;
    switch (io_fault(true, false, n, &pr))
    {
    case DF_EIO:
      errno = EIO;
      return -1;
    case DF_EINTR:
      errno = EINTR;
      return -1;
    case DF_ENOSPC:
      errno = ENOSPC;
      return -1;
    case DF_SHORT:
      // write a prefix of the first non-empty element
      for (int i = 0; i < c; i++)
        if (v[i].iov_len)
        {
          size_t m = (size_t)pr < v[i].iov_len ? pr : v[i].iov_len;
          return r_write(fd, v[i].iov_base, m);
        }
      break;
    }
  }
  return r_writev(fd, v, c);
}
static int open_common(const char *p, int fl, mode_t mode)
{
  ENSURE(r_open);
  bool f = simthread() && io_path(p);
  if (f)
  {
    int64_t pr;
    if (io_fault(false, true, 0, &pr) == DF_OPENFAIL)
    {
      errno = EMFILE;
      return -1;
    }
  }
  char redirected[4096];
  int fd = r_open(f ? redirect(p, redirected) : p, fl, mode);
  if (fd >= 0 && fd < 1024)
    g_fdflag[fd] = f;
  return fd;
}
EXPORT int open(const char *p, int fl, ...)
{
  mode_t mode = 0;
  if (fl & (O_CREAT | O_TMPFILE))
  {
    va_list ap;
    va_start(ap, fl);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return open_common(p, fl, mode);
}
EXPORT int open64(const char *p, int fl, ...)
{
  mode_t mode = 0;
  if (fl & (O_CREAT | O_TMPFILE))
  {
    va_list ap;
    va_start(ap, fl);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return open_common(p, fl, mode);
}
EXPORT FILE *fopen(const char *p, const char *m)
{
  ENSURE(r_fopen);
  bool f = simthread() && io_path(p);
  if (f)
  {
    int64_t pr;
    if (io_fault(false, true, 0, &pr) == DF_OPENFAIL)
    {
      errno = EMFILE;
      return NULL;
    }
  }
  char redirected[4096];
  FILE *fp = r_fopen(f ? redirect(p, redirected) : p, m);
  if (fp && fileno(fp) < 1024)
    g_fdflag[fileno(fp)] = f;
  return fp;
}
EXPORT FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
EXPORT int close(int fd)
{
  ENSURE(r_close);
  if (fd >= 0 && fd < 1024)
    g_fdflag[fd] = 0;
  return r_close(fd);
}

// ----------------------------------------------------------------- window
EXPORT uint64_t dsim_fault_count(int kind)
{
  return SH->fault_count[kind];
}
EXPORT void dsim_init(dsim_shared_t *sh)
{
  SH = sh;
  if (!g_init)
  {
    g_init = true;
    pthread_key_create(&g_exitkey, thread_finished);
    g_hot = (Hot *)mmap(NULL, HOTN * sizeof(Hot), PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    void *a = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE,
                   -1, 0);
    void *b = mmap(SHADOW, ARENA_SZ >> 3, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE,
                   -1, 0);
    g_arena_ok = a == (void *)ARENA && b == (void *)SHADOW;
    if (!g_arena_ok)
    {
      fprintf(stderr, "dsim: cannot map arena\n");
      _exit(9);
    }
  }
}
EXPORT void dsim_defaults(dsim_cfg_t *c)
{
  __builtin_memset(c, 0, sizeof *c);
  c->strategy = DSTRAT_RW;
  c->mean = 200;
  c->phot = 0.02;
  c->hold = 2000;
  c->max_steps = 400000000ull;
  c->clock_read_ns = 1500;
  c->clock_max_jump_ns = 5000000000ll;
  c->max_io_faults = 4;
  c->heapcheck = 1;
  c->est_steps = 200000;
}
EXPORT void dsim_begin(const dsim_cfg_t *cfg)
{
  C = *cfg;
  R_sched.seed(C.seed * 0x9e3779b97f4a7c15ull + 0x5c4ed);
  R_fault.seed(C.seed * 0xd1b54a32d192ed03ull + 0xfa17);
  __builtin_memset((void *)T, 0, sizeof T);
  g_nthr = 1;
  g_cur = 0;
  g_live = 1;
  t_self = 0;
  T[0].state = TS_RUNNABLE;
  T[0].pt = pthread_self();
  T[0].prio = 1000000 + R_sched.below(1000000);
  g_steps = 0;
  g_runlen = 0;
  g_hash = 0xcbf29ce484222325ull;
  g_addrhash = 0;
  g_clock = 1000;
  g_wallskew = 0;
  g_ioindex = g_allocindex = g_clockindex = 0;
  g_iofaults = 0;
  g_large = 0;
  g_allocon = false;
  g_pclock = C.p_clock;
  g_pctlow = 1000000;
  g_nextsig = 0;
  __builtin_memset((void *)g_lk, 0, sizeof g_lk);
  g_npct = 0;
  if (C.strategy == DSTRAT_PCT)
  {
    g_npct = C.pct_changes < 64 ? C.pct_changes : 64;
    for (int i = 0; i < g_npct; i++)
      g_pctpoints[i] = 1 + R_sched.below(C.est_steps);
    // descending, so the next one is at the end
    for (int i = 0; i < g_npct; i++)
      for (int j = i + 1; j < g_npct; j++)
        if (g_pctpoints[j] > g_pctpoints[i])
        {
          uint64_t x = g_pctpoints[i];
          g_pctpoints[i] = g_pctpoints[j];
          g_pctpoints[j] = x;
        }
  }
  new_countdown();
  g_noyield = 0;
  g_active = true;
}
EXPORT void dsim_end(void)
{
  g_active = false;
  publish();
  if (SH)
    SH->ended = 1;
}
EXPORT int dsim_active(void) { return g_active; }
EXPORT int dsim_self(void) { return t_self; }
EXPORT void dsim_alloc_faults(int on) { g_allocon = on; }
EXPORT void dsim_set_budget(uint64_t b) { C.mem_budget = b; }
EXPORT uint64_t dsim_large_in_use(void) { return g_large; }
EXPORT void dsim_set_clock_faults(double p) { g_pclock = p; }
