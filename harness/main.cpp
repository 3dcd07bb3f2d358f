// Zygote process: builds everything once, then forks one child per run.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "h.h"
#include <dirent.h>
#include <sys/stat.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static dsim_shared_t *SH;
obs_hooks_t obs_hooks;
std::vector<ObsEvent> g_obs;
std::vector<std::string> g_logs;
std::vector<int> g_logtypes;
cl_platform_id g_platform;
cl_device_id g_device;
static int g_out = -1; // result channel

std::vector<Workload> &workloads()
{
  static std::vector<Workload> w;
  return w;
}

uint64_t fnv(const void *p, size_t n, uint64_t h)
{
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++)
    h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}

// -------------------------------------------------------------------- Run
void Run::fail(const char *cls, const char *fmt, ...)
{
  char buf[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  dsim_violation(cls, "%s", buf);
  abort();
}
void Run::d(const char *fmt, ...)
{
  if (!desc)
    return;
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  dsim_out("D %s\n", buf);
}
void Run::stat(const char *name, uint64_t n)
{
  stats[name] += n;
}
void Run::nontrivial(uint64_t key)
{
  dsim_out("K %016lx\n", (unsigned long)key);
}
void Run::finish()
{
  for (auto &s : stats)
    dsim_out("S %s %lu\n", s.first.c_str(), (unsigned long)s.second);
}
void Run::require_cl(cl_int got, cl_int want, const char *what)
{
  if (got != want)
    fail("api-status", "%s returned %d, expected %d", what, got, want);
}
void Run::schedule_swarm()
{
  // independent stream: scheduling choices never shift workload choices
  Rnd q(seed ^ 0x5eed5c4edull ^ (sched << 40));
  switch (q(8))
  {
  case 0:
    cfg.strategy = DSTRAT_RW;
    cfg.mean = 3 + q(20);
    cfg.phot = 0.05;
    break;
  case 1:
  case 2:
    cfg.strategy = DSTRAT_RW;
    cfg.mean = 30 + q(300);
    cfg.phot = 0.01 + 0.1 * (q(100) / 100.0);
    break;
  case 3:
    cfg.strategy = DSTRAT_RW;
    cfg.mean = 1000 + q(20000);
    cfg.phot = 0.3;
    break;
  case 4:
    cfg.strategy = DSTRAT_RW;
    cfg.mean = 2000 + q(50000);
    cfg.phot = 0.02;
    break;
  case 5:
    cfg.strategy = DSTRAT_PCT;
    cfg.pct_changes = 1 + q(8);
    cfg.phot = 0;
    cfg.est_steps = 1000ull << q(10);
    break;
  case 6:
    cfg.strategy = DSTRAT_PCT;
    cfg.pct_changes = q(4);
    cfg.phot = 0.002 + 0.05 * (q(100) / 100.0);
    cfg.est_steps = 1000ull << q(10);
    break;
  case 7:
    cfg.strategy = DSTRAT_SYNC;
    cfg.phot = q(2) ? 0.05 : 0;
    break;
  }
  cfg.hold = q(3) == 0 ? 0 : 1u << (4 + q(12));
}

// ---------------------------------------------------------------- OpenCL
static void die(const char *m)
{
  fprintf(stderr, "harness: %s\n", m);
  _exit(3);
}
void cl_setup_platform()
{
  if (clGetPlatformIDs(1, &g_platform, NULL) != CL_SUCCESS)
    die("clGetPlatformIDs");
  if (clGetDeviceIDs(g_platform, CL_DEVICE_TYPE_ALL, 1, &g_device, NULL) !=
      CL_SUCCESS)
    die("clGetDeviceIDs");
}
cl_context cl_new_context()
{
  cl_int e;
  cl_context c = clCreateContext(NULL, 1, &g_device, NULL, NULL, &e);
  if (e != CL_SUCCESS)
    die("clCreateContext");
  return c;
}
cl_program cl_build(cl_context c, const char *src, const char *opts)
{
  cl_int e;
  cl_program p = clCreateProgramWithSource(c, 1, &src, NULL, &e);
  if (e != CL_SUCCESS)
    die("clCreateProgramWithSource");
  if (clBuildProgram(p, 1, &g_device, opts, NULL, NULL) != CL_SUCCESS)
  {
    char log[20000];
    clGetProgramBuildInfo(p, g_device, CL_PROGRAM_BUILD_LOG, sizeof log, log,
                          NULL);
    fprintf(stderr, "%s\n", log);
    die("clBuildProgram");
  }
  return p;
}
void set_threads(int n)
{
  char b[16];
  snprintf(b, sizeof b, "%d", n);
  setenv("OCLGRIND_NUM_THREADS", b, 1);
}

// ------------------------------------------------------------ observation
static void obs_cb(int kind, const size_t *id, uint64_t a, uint64_t b,
                   uint64_t c, const char *text)
{
  dsim_noyield(1);
  if (kind == OB_LOG)
  {
    g_logs.push_back(text ? text : "");
    g_logtypes.push_back((int)a);
  }
  ObsEvent e;
  e.kind = kind;
  e.thread = dsim_self();
  for (int i = 0; i < 3; i++)
    e.id[i] = id ? id[i] : 0;
  e.a = a;
  e.b = b;
  e.c = c;
  if (text)
    e.text = text;
  g_obs.push_back(e);
  dsim_noyield(-1);
}
void obs_start(uint32_t mask)
{
  g_obs.clear();
  g_logs.clear();
  g_logtypes.clear();
  obs_hooks.fn = obs_cb;
  obs_hooks.mask = mask;
}
void obs_stop()
{
  obs_hooks.mask = 0;
}

// ---------------------------------------------------------------- capture
static int cap_o = -1, cap_e = -1;
void capture_start()
{
  cap_o = memfd_create("o", 0);
  cap_e = memfd_create("e", 0);
  fflush(stdout);
  fflush(stderr);
  dup2(cap_o, 1);
  dup2(cap_e, 2);
}
static std::string slurp(int fd)
{
  std::string s;
  off_t n = lseek(fd, 0, SEEK_END);
  if (n > 0)
  {
    s.resize(n);
    if (pread(fd, &s[0], n, 0) != n)
      s.clear();
  }
  return s;
}
std::string captured_stdout()
{
  fflush(stdout);
  return slurp(cap_o);
}
std::string captured_stderr()
{
  fflush(stderr);
  return slurp(cap_e);
}
void capture_reset()
{
  fflush(stdout);
  fflush(stderr);
  if (ftruncate(cap_o, 0) || ftruncate(cap_e, 0))
    die("ftruncate");
  lseek(1, 0, SEEK_SET);
  lseek(2, 0, SEEK_SET);
}

// ----------------------------------------------------------------- zygote
static void put(const char *s, size_t n)
{
  while (n)
  {
    ssize_t r = write(g_out, s, n);
    if (r <= 0)
      _exit(0);
    s += r;
    n -= r;
  }
}

static bool load_trace(const char *path, std::vector<dsim_switch_t> &tr,
                       std::vector<dsim_fault_t> &fa)
{
  FILE *f = fopen(path, "r");
  if (!f)
    return false;
  char line[256];
  while (fgets(line, sizeof line, f))
  {
    unsigned a, b, fo;
    unsigned long st;
    long pr;
    if (sscanf(line, "T %u %lu %u %u", &a, &st, &b, &fo) == 4)
      tr.push_back({(uint16_t)a, (uint16_t)b, fo, st});
    else if (sscanf(line, "F %u %lu %ld", &a, &st, &pr) == 3)
      fa.push_back({a, 0, st, pr});
  }
  fclose(f);
  return true;
}

static void child(Workload *w, char *line)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGINT, SIG_DFL);
  Run r;
  dsim_defaults(&r.cfg);
  std::string tracepath;
  for (char *tok = strtok(line, " \n"); tok; tok = strtok(NULL, " \n"))
  {
    char *eq = strchr(tok, '=');
    if (!eq)
      continue;
    std::string k(tok, eq - tok), v(eq + 1);
    if (k == "seed")
      r.seed = strtoull(v.c_str(), NULL, 10);
    else if (k == "desc")
      r.desc = atoi(v.c_str());
    else if (k == "mode")
      r.mode = v;
    else if (k == "scratch")
      r.scratch = v;
    else if (k == "sched")
      r.sched = strtoull(v.c_str(), NULL, 10);
    else if (k == "p1")
      r.p1 = strtoull(v.c_str(), NULL, 10);
    else if (k == "p2")
      r.p2 = strtoull(v.c_str(), NULL, 10);
    else if (k == "drop")
    {
      char *p = &v[0];
      while (*p)
      {
        char *e;
        long a = strtol(p, &e, 10), b = a;
        if (*e == '-')
          b = strtol(e + 1, &e, 10);
        for (long i = a; i <= b; i++)
          r.drop.insert(i);
        p = *e ? e + 1 : e;
      }
    }
    else if (k == "trace")
    {
      r.replay = true;
      if (!load_trace(v.c_str(), r.rtrace, r.rfaults))
      {
        dsim_out("I cannot read trace\n");
        SH->status = DS_INTERNAL;
        _exit(8);
      }
    }
  }
  r.rng = Rnd(r.seed);
  r.cfg.seed = r.seed ^ (r.sched << 40);
  r.schedule_swarm();
  if (r.replay)
  {
    r.cfg.replay = 1;
    r.cfg.rtrace = r.rtrace.data();
    r.cfg.nrtrace = r.rtrace.size();
    r.cfg.rfaults = r.rfaults.data();
    r.cfg.nrfaults = r.rfaults.size();
  }
  capture_start();
  w->run(r);
  dsim_end();
  r.finish();
  dsim_out("E %d\n", r.nelem);
  SH->status = DS_DONE;
  _exit(0);
}

void Run::make_scratch()
{
  mkdir(scratch.c_str(), 0700);
  if (DIR *d = opendir(scratch.c_str()))
  {
    while (dirent *x = readdir(d))
      if (x->d_name[0] != '.')
        unlink((scratch + "/" + x->d_name).c_str());
    closedir(d);
  }
}

int main(int argc, char **argv)
{
  if (argc < 3)
  {
    fprintf(stderr, "usage: harness WORKLOAD[:variant] TIMEOUT\n");
    return 2;
  }
  // fixed address space and environment
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) &&
      !getenv("DSIM_REEXEC"))
  {
    if (personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)) != -1)
    {
      setenv("DSIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  int timeout = atoi(argv[2]);
  std::string spec = argv[1], variant;
  size_t c = spec.find(':');
  if (c != std::string::npos)
  {
    variant = spec.substr(c + 1);
    spec = spec.substr(0, c);
  }
  Workload *w = NULL;
  for (auto &x : workloads())
    if (spec == x.name)
      w = &x;
  if (!w)
  {
    fprintf(stderr, "unknown workload\n");
    return 2;
  }
  SH = (dsim_shared_t *)mmap((void *)0x620000000000ull, sizeof(dsim_shared_t),
                             PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE,
                             -1, 0);
  if (SH == MAP_FAILED)
    die("mmap");
  dsim_init(SH);
  // keep the result channel away from fd 1
  g_out = fcntl(1, F_DUPFD_CLOEXEC, 100);
  int in = fcntl(0, F_DUPFD_CLOEXEC, 110);
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 0);
  dup2(nul, 1);
  w->setup(variant);
  put("READY\n", 6);

  static char buf[1 << 16];
  size_t have = 0;
  while (true)
  {
    char *nl = (char *)memchr(buf, '\n', have);
    if (!nl)
    {
      if (have == sizeof buf)
        die("command too long");
      ssize_t n = read(in, buf + have, sizeof buf - have);
      if (n <= 0)
        return 0;
      have += n;
      continue;
    }
    size_t len = nl - buf + 1;
    static char line[1 << 16];
    memcpy(line, buf, len);
    line[len] = 0;
    memmove(buf, nl + 1, have - len);
    have -= len;

    // reset the shared area header
    memset((void *)SH, 0, offsetof(dsim_shared_t, trace));
    SH->outlen = 0;
    SH->out[0] = 0;
    SH->status = DS_RUNNING;
    bool dump = strstr(line, "dump=1");
    pid_t pid = fork();
    if (pid == 0)
      child(w, line);
    int st = 0;
    bool timed = false;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    // wait with timeout, without signals
    unsigned us = 50;
    while (true)
    {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid)
        break;
      struct timespec ts = {0, (long)us * 1000};
      nanosleep(&ts, NULL);
      if (us < 2000)
        us += us / 2;
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (t1.tv_sec - t0.tv_sec > timeout)
      {
        timed = true;
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        break;
      }
    }
    char hdr[1024];
    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    int ex = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    int n = snprintf(
      hdr, sizeof hdr,
      "{\"status\":%d,\"sig\":%d,\"exit\":%d,\"timeout\":%d,\"steps\":%lu,"
      "\"switches\":%lu,\"preempt\":%lu,\"hot\":%lu,\"hash\":\"%016lx\","
      "\"ahash\":\"%016lx\",\"simns\":%lu,\"threads\":%lu,\"maxlive\":%lu,"
      "\"allocs\":%lu,\"atomics\":%lu,\"locks\":%lu,\"ntrace\":%u,"
      "\"faults\":[",
      SH->status, sig, ex, timed ? 1 : 0, SH->steps, SH->switches,
      SH->preemptions, SH->hotpoints, SH->hash, SH->addrhash, SH->simtime_ns,
      SH->threads, SH->maxlive, SH->allocs, SH->atomics, SH->locks,
      SH->ntrace);
    for (int i = 0; i < DF_NKINDS; i++)
      n += snprintf(hdr + n, sizeof hdr - n, "%s%lu", i ? "," : "",
                    SH->fault_count[i]);
    size_t dn = 0;
    static char db[DSIM_MAXFAULT * 48 + 16];
    static char *tb = NULL;
    if (dump)
    {
      if (!tb)
        tb = (char *)mmap(NULL, DSIM_MAXTRACE * 40ul, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      for (uint32_t i = 0; i < SH->ntrace; i++)
        dn += sprintf(tb + dn, "T %u %lu %u %u\n", SH->trace[i].from,
                      SH->trace[i].step, SH->trace[i].to, SH->trace[i].forced);
    }
    size_t fn = 0;
    if (dump)
      for (uint32_t i = 0; i < SH->nfaults; i++)
        fn += sprintf(db + fn, "F %u %lu %ld\n", SH->faults[i].kind,
                      SH->faults[i].index, SH->faults[i].param);
    n += snprintf(hdr + n, sizeof hdr - n, "],\"outlen\":%zu}\n",
                  SH->outlen + dn + fn);
    put(hdr, n);
    put(SH->out, SH->outlen);
    if (dn)
      put(tb, dn);
    if (fn)
      put(db, fn);
  }
}
