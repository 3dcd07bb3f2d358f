// The oclgrind command and the settings of the runtime (C30). The real main() of
// the command runs in the simulator; the system calls with which it finds its
// installation and starts the application are stand-ins that may fail. What would have
// been started is compared with a model of the command line, and in some runs the
// harness then plays the application in the environment it was given.
#include "h.h"
#include <algorithm>
#include <errno.h>
#include <limits.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>

extern "C" int oclgrind_launch_main(int argc, char **argv);
extern char **environ;

namespace
{
typedef std::map<std::string, std::string> Env;
// system calls are events of the run
static void event(int what, const void *p, size_t n) { dsim_event(0x1000 + what, fnv(p, n)); }
// exec and exit do not return, and may not throw
static jmp_buf g_left;
static int g_code;
[[noreturn]] static void leave(int code)
{
  g_code = code;
  event(4, &code, sizeof code);
  longjmp(g_left, 1);
}
struct Launched
{
  std::string file;
  std::vector<std::string> args;
  Env env;
};
static std::string g_exe;  // what /proc/self/exe refers to
static std::string g_real; // the path of the same without symbolic links
static int g_readlink_err, g_realpath_err, g_exec_err;
static std::vector<Launched> g_run;
static std::map<std::string, unsigned> g_faults;
static int fault(const char *what, int err)
{
  g_faults[what]++;
  event(9, what, strlen(what));
  errno = err;
  return -1;
}

static Env env_now(char *const *e)
{
  Env m;
  for (; e && *e; e++)
  {
    std::string s = *e;
    size_t p = s.find('=');
    m[s.substr(0, p)] = p == std::string::npos ? "" : s.substr(p + 1);
  }
  return m;
}
static int launch(const char *file, char *const *argv, char *const *envp)
{
  if (g_exec_err)
    return fault("exec_failure", g_exec_err);
  Launched l;
  l.file = file;
  for (; *argv; argv++)
    l.args.push_back(*argv);
  l.env = env_now(envp);
  for (auto &a : l.args)
    event(1, a.data(), a.size());
  for (auto &v : l.env)
    event(2, v.second.data(), v.second.size());
  g_run.push_back(l);
  leave(-1);
}
} // namespace

extern "C"
{
  int la_execvp(const char *f, char *const *a) { return launch(f, a, environ); }
  int la_execv(const char *f, char *const *a) { return launch(f, a, environ); }
  int la_execve(const char *f, char *const *a, char *const *e) { return launch(f, a, e); }
  int la_execvpe(const char *f, char *const *a, char *const *e) { return launch(f, a, e); }
  void la_exit(int c) { leave(c); }
  ssize_t la_readlink(const char *path, char *buf, size_t n)
  {
    if (strcmp(path, "/proc/self/exe"))
      return readlink(path, buf, n);
    if (g_readlink_err)
      return fault("readlink_failure", g_readlink_err);
    n = std::min(n, g_exe.size());
    event(3, g_exe.data(), n);
    memcpy(buf, g_exe.data(), n); // not terminated
    return n;
  }
  ssize_t la_readlink_chk(const char *path, char *buf, size_t n, size_t) { return la_readlink(path, buf, n); }
  char *la_realpath(const char *path, char *buf)
  {
    std::string p = path;
    if (p == "/proc/self/exe" || p == g_exe || p == g_real)
    {
      if (g_realpath_err)
      {
        fault("realpath_failure", g_realpath_err);
        return NULL;
      }
      if (!buf)
        buf = (char *)malloc(PATH_MAX);
      return strcpy(buf, g_real.c_str());
    }
    errno = ENOENT;
    return NULL;
  }
  char *la_realpath_chk(const char *path, char *buf, size_t) { return la_realpath(path, buf); }
}

namespace
{
static sigjmp_buf g_jmp;
static volatile sig_atomic_t g_armed;
static void on_abort(int)
{
  if (g_armed)
    siglongjmp(g_jmp, 1);
}

static void setup(const std::string &)
{
  unsetenv("OCLGRIND_PLUGINS");
  obs_hooks.threadsafe = 1;
}

// what the options ask for
enum Kind { FLAG, TEXT, NUMBER };
static const struct Option
{
  const char *name, *alias, *var;
  int kind;
} OPT[] = {
  {"--build-options", NULL, "OCLGRIND_BUILD_OPTIONS", TEXT},
  {"--check-api", NULL, "OCLGRIND_CHECK_API", FLAG},
  {"--compute-units", NULL, "OCLGRIND_COMPUTE_UNITS", NUMBER},
  {"--constant-mem-size", NULL, "OCLGRIND_CONSTANT_MEM_SIZE", NUMBER},
  {"--data-races", NULL, "OCLGRIND_DATA_RACES", FLAG},
  {"--global-mem-size", NULL, "OCLGRIND_GLOBAL_MEM_SIZE", NUMBER},
  {"--inst-counts", NULL, "OCLGRIND_INST_COUNTS", FLAG},
  {"--local-mem-size", NULL, "OCLGRIND_LOCAL_MEM_SIZE", NUMBER},
  {"--log", NULL, "OCLGRIND_LOG", TEXT},
  {"--max-errors", NULL, "OCLGRIND_MAX_ERRORS", NUMBER},
  {"--max-wgsize", NULL, "OCLGRIND_MAX_WGSIZE", NUMBER},
  {"--num-threads", NULL, "OCLGRIND_NUM_THREADS", NUMBER},
  {"--plugins", NULL, "OCLGRIND_PLUGINS", TEXT},
  {"--quick", "-q", "OCLGRIND_QUICK", FLAG},
  {"--uniform-writes", NULL, "OCLGRIND_UNIFORM_WRITES", FLAG},
  {"--uninitialized", NULL, "OCLGRIND_UNINITIALIZED", FLAG},
  // these are not used by the application part
  {"--disable-pch", NULL, "OCLGRIND_DISABLE_PCH", FLAG},
  {"--dump-spir", NULL, "OCLGRIND_DUMP_SPIR", FLAG},
  {"--interactive", "-i", "OCLGRIND_INTERACTIVE", FLAG},
  {"--pch-dir", NULL, "OCLGRIND_PCH_DIR", TEXT},
};
static const int NOPT = sizeof OPT / sizeof *OPT, NAPP = 16;

static std::string word(Rnd &q)
{
  static const char *W[] = {"", "x", "-g", "a b", "--log", "0", "/usr/bin/env", "-", "=", "a=b", "--", "\"q\"", "$HOME", "-h", "\n", "\xc3\xa4", "*"};
  std::string s;
  if (q(3) == 0)
    return W[q(17)];
  if (q(60) == 0)
    return std::string(1 + q(9000), 'z');
  for (int n = 1 + q(10); n--;)
    s += (char)(33 + q(94));
  return s;
}
// fills the stack below with rubbish
static __attribute__((noinline)) void dirty_stack(unsigned char c)
{
  volatile unsigned char b[65536];
  for (size_t i = 0; i < sizeof b; i++)
    b[i] = c;
}

struct Cmd
{
  std::vector<std::string> argv;
  Env set; // what the options change
  int exit = -1;
  std::string say; // expected on standard error (or output, for status 0)
  std::vector<std::string> app;
};

static std::string number(Rnd &q, const std::string &var)
{
  if (var == "OCLGRIND_GLOBAL_MEM_SIZE")
    switch (q(4))
    {
    case 0: return std::to_string(1 + q(1 << 20));
    case 1: return std::to_string(0xffffffffull - 2 + q(5));
    default: return std::to_string(1 + (q.next() >> (1 + q(62))));
    }
  if (var == "OCLGRIND_CONSTANT_MEM_SIZE" || var == "OCLGRIND_LOCAL_MEM_SIZE")
    return std::to_string(q(8) ? 1 + q(5000) : (1ull << 32) + q(5000));
  if (var == "OCLGRIND_MAX_WGSIZE")
    return std::to_string(1 + q(q(2) ? 40 : 3000));
  if (var == "OCLGRIND_NUM_THREADS")
    return std::to_string(1 + q(5));
  if (var == "OCLGRIND_MAX_ERRORS")
    return std::to_string(1 + q(12));
  return std::to_string(1 + q(q(2) ? 100 : 0x7fffffff));
}
static std::string bad_number(Rnd &q, const std::string &var)
{
  static const char *B[] = {"x", "12x", "1 2", "-5", "99999999999999999999999", "1.5", "0x10", "-", "1e3"};
  size_t k = q(var == "OCLGRIND_MAX_ERRORS" ? 9 : 10);
  return k < 9 ? B[k] : "0";
}

static void usage_mentions(Run &r, const std::string &out)
{
  for (auto &o : OPT)
    if (out.find(o.name) == std::string::npos)
      r.fail("launch", "the usage does not mention %s: %.500s", o.name, out.c_str());
}

// ------------------------------------------------------------ the application
static const char *SRC =
  "#ifndef VAL\n"
  "#define VAL 0\n"
  "#endif\n"
  "kernel void k(global int *out, local int *l, constant int *c, global ulong *addr, global int *race, global int *uni,\n"
  "              global int *undef, int mode, int bad)\n"
  "{\n"
  "  size_t i = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));\n"
  "  size_t g = get_group_id(0) + get_num_groups(0) * (get_group_id(1) + get_num_groups(1) * get_group_id(2));\n"
  "  if (i == 0)\n"
  "  {\n"
  "    out[g] = 1000 + VAL;\n"
  "    addr[g * 2] = (ulong)race;\n"
  "    addr[g * 2 + 1] = (ulong)uni;\n"
  "    if (mode & 1)\n"
  "      race[0] = g;\n"
  "    if (mode & 2)\n"
  "      uni[0] = 7;\n"
  "    if (mode & 4)\n"
  "      if (undef[g] > 5)\n"
  "        undef[g] = 1;\n"
  "    if (g == 0)\n"
  "      for (int j = 0; j < bad; j++)\n"
  "        out[1000000 + j] = 1;\n"
  "  }\n"
  "}\n";

static size_t count(const std::string &s, const std::string &t)
{
  size_t n = 0;
  for (size_t p = 0; (p = s.find(t, p)) != std::string::npos; p += t.size())
    n++;
  return n;
}
static bool on(const Env &e, const char *v)
{
  auto i = e.find(v);
  return i != e.end() && i->second == "1";
}
static uint64_t num(const Env &e, const char *v, uint64_t def)
{
  auto i = e.find(v);
  return i == e.end() ? def : strtoull(i->second.c_str(), NULL, 10);
}

static void application(Run &r, Rnd q, const Env &env, const std::string &badvar, const std::string &scratch, bool hasplug)
{
  std::string log = scratch + "/log";
  r.make_scratch();
  capture_reset();
  clearenv();
  for (auto &v : env)
    setenv(v.first.c_str(), v.second.c_str(), 1);
  struct sigaction sa, old;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_abort;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &sa, &old);
  std::set<int> threads;
  bool ran = false;
  // everything that is used after an abort
  static std::string problem;
  problem.clear();
  uint64_t maxwg = num(env, "OCLGRIND_MAX_WGSIZE", 1024), maxloc = num(env, "OCLGRIND_LOCAL_MEM_SIZE", 32768),
           maxcon = num(env, "OCLGRIND_CONSTANT_MEM_SIZE", 65536);
  int mode = 0, bad = 0;
  size_t groups = 0;
  std::vector<cl_ulong> addr;
  std::vector<cl_int> out;
  std::string stage_err;
  bool rejected = false;
  bool want_reject_size = false, want_reject_res = false;
  auto P = [&](const char *f, auto... a) {
    char b[400];
    snprintf(b, sizeof b, f, a...);
    if (problem.empty())
      problem = b;
  };
  if (sigsetjmp(g_jmp, 1) == 0)
  {
    g_armed = 1;
    cl_setup_platform();
    cl_ulong u;
    size_t s, s3[3];
    cl_uint ui;
#define INFO(what, v) r.require_cl(clGetDeviceInfo(g_device, what, sizeof v, &v, NULL), CL_SUCCESS, #what)
    INFO(CL_DEVICE_GLOBAL_MEM_SIZE, u);
    if (u != num(env, "OCLGRIND_GLOBAL_MEM_SIZE", 128 << 20))
      P("global memory of %lu bytes", (unsigned long)u);
    INFO(CL_DEVICE_MAX_CONSTANT_BUFFER_SIZE, u);
    if (u != maxcon)
      P("constant memory of %lu bytes", (unsigned long)u);
    INFO(CL_DEVICE_LOCAL_MEM_SIZE, u);
    if (u != maxloc)
      P("local memory of %lu bytes", (unsigned long)u);
    INFO(CL_DEVICE_MAX_WORK_GROUP_SIZE, s);
    if (s != maxwg)
      P("work-groups of %zu", s);
    INFO(CL_DEVICE_MAX_WORK_ITEM_SIZES, s3);
    for (size_t x : s3)
      if (x != maxwg)
        P("work-groups of %zu in one dimension", x);
    INFO(CL_DEVICE_MAX_COMPUTE_UNITS, ui);
    if (ui != num(env, "OCLGRIND_COMPUTE_UNITS", 1))
      P("%u compute units", ui);
    cl_context c = cl_new_context();
    cl_int e;
    const char *src = SRC;
    cl_program p = clCreateProgramWithSource(c, 1, &src, NULL, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateProgramWithSource");
    r.require_cl(clBuildProgram(p, 1, &g_device, "", NULL, NULL), CL_SUCCESS, "clBuildProgram");
    cl_kernel k = clCreateKernel(p, "k", &e);
    r.require_cl(e, CL_SUCCESS, "clCreateKernel");
    cl_command_queue cq = clCreateCommandQueue(c, g_device, 0, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateCommandQueue");
    r.require_cl(clGetKernelWorkGroupInfo(k, g_device, CL_KERNEL_WORK_GROUP_SIZE, sizeof s, &s, NULL), CL_SUCCESS, "kernel info");
    if (s != maxwg)
      P("kernel work-groups of %zu", s);
    // the launch
    cl_uint dims = 1 + q(3);
    size_t ls[3] = {1, 1, 1}, gs[3], items = 1;
    groups = 1;
    bool over = false;
    for (cl_uint d = 0; d < dims; d++)
    {
      uint64_t left = std::max<uint64_t>(1, maxwg / items);
      ls[d] = q(4) == 0 ? left : 1 + q(std::min<uint64_t>(left, 12));
      if (q(8) == 0)
        ls[d] += 1 + q(3);
      if (ls[d] > maxwg)
        over = true;
      items *= ls[d];
      size_t n = 1 + q(d ? 3 : 5);
      if (items * groups * n > 1500)
        n = 1;
      gs[d] = ls[d] * n;
      groups *= n;
    }
    want_reject_size = over || items > maxwg;
    if (!want_reject_size && items * groups > 4000)
      groups = 0; // too long
    size_t lsize = q(4) == 0 ? maxloc + q(3) : 1 + q(std::min<uint64_t>(maxloc, 3000)) + (q(8) == 0 ? maxloc : 0);
    size_t csize = q(4) == 0 ? maxcon + q(3) : 1 + q(std::min<uint64_t>(maxcon, 3000)) + (q(8) == 0 ? maxcon : 0);
    if (lsize > 1 << 20)
      lsize = 1 << 20;
    if (csize > 1 << 20)
      csize = 1 << 20;
    want_reject_res = lsize > maxloc || csize > maxcon;
    mode = q(8);
    bad = q(3) ? 0 : 1 + q(12);
    if (env.count("OCLGRIND_MAX_ERRORS")) // count one kind only
    {
      mode = 0;
      bad = q(20);
    }
    if (groups)
    {
      out.assign(groups, 0);
      addr.assign(groups * 2, 0);
      auto mk = [&](size_t n, const void *init) {
        cl_mem m = clCreateBuffer(c, init ? CL_MEM_COPY_HOST_PTR : 0, n, (void *)init, &e);
        r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
        return m;
      };
      std::vector<char> zero(std::max<size_t>(csize, 4), 0);
      cl_mem o = mk(groups * 4, out.data()), cc = mk(csize, zero.data()), a = mk(groups * 16, addr.data()), ra = mk(4, zero.data()),
             un = mk(4, zero.data()), ud = mk(groups * 4, NULL);
      cl_mem ms[] = {o, NULL, cc, a, ra, un, ud};
      for (int i = 0; i < 7; i++)
        r.require_cl(i == 1 ? clSetKernelArg(k, i, lsize, NULL) : clSetKernelArg(k, i, sizeof(cl_mem), &ms[i]), CL_SUCCESS, "clSetKernelArg");
      r.require_cl(clSetKernelArg(k, 7, 4, &mode), CL_SUCCESS, "clSetKernelArg");
      r.require_cl(clSetKernelArg(k, 8, 4, &bad), CL_SUCCESS, "clSetKernelArg");
      if (hasplug)
        obs_start(1 << OB_WG_BEGIN);
      e = clEnqueueNDRangeKernel(cq, k, dims, NULL, gs, ls, 0, NULL, NULL);
      rejected = e != CL_SUCCESS;
      if (want_reject_size ? e != CL_INVALID_WORK_GROUP_SIZE && e != CL_INVALID_WORK_ITEM_SIZE
                           : want_reject_res ? e != CL_OUT_OF_RESOURCES : e != CL_SUCCESS)
        P("launch of %zu,%zu,%zu with %zu bytes of local and %zu of constant memory returned %d", ls[0], ls[1], ls[2], lsize, csize, e);
      r.require_cl(clFinish(cq), CL_SUCCESS, "clFinish");
      if (hasplug)
        obs_stop();
      for (auto &ev : g_obs)
        if (ev.kind == OB_WG_BEGIN)
          threads.insert(ev.thread);
      g_obs.clear();
      r.require_cl(clEnqueueReadBuffer(cq, o, CL_TRUE, 0, groups * 4, out.data(), 0, NULL, NULL), CL_SUCCESS, "read");
      r.require_cl(clEnqueueReadBuffer(cq, a, CL_TRUE, 0, groups * 16, addr.data(), 0, NULL, NULL), CL_SUCCESS, "read");
      for (cl_mem m : ms)
        if (m)
          r.require_cl(clReleaseMemObject(m), CL_SUCCESS, "clReleaseMemObject");
    }
    else
    {
      // still takes every setting into account
      size_t one = 1;
      (void)one;
      rejected = true;
    }
    r.require_cl(clReleaseKernel(k), CL_SUCCESS, "clReleaseKernel");
    r.require_cl(clReleaseProgram(p), CL_SUCCESS, "clReleaseProgram");
    r.require_cl(clReleaseCommandQueue(cq), CL_SUCCESS, "clReleaseCommandQueue");
    r.require_cl(clReleaseContext(c), CL_SUCCESS, "clReleaseContext");
    ran = true;
  }
  g_armed = 0;
  sigaction(SIGABRT, &old, NULL);
  std::string so = captured_stdout(), se = captured_stderr(), file;
  if (FILE *f = fopen(log.c_str(), "r"))
  {
    char b[4096];
    for (size_t n; (n = fread(b, 1, sizeof b, f));)
      file.append(b, n);
    fclose(f);
  }
  unlink(log.c_str());
  rmdir(scratch.c_str());
  dsim_noyield(1);
  if (!badvar.empty())
  {
    bool late = badvar == "OCLGRIND_NUM_THREADS"; // read by a launch
    if (ran && !(late && rejected))
      r.fail("settings", "%s=%s was accepted", badvar.c_str(), env.at(badvar).c_str());
    if (!ran && se.find("Oclgrind: Invalid value for " + badvar + "\n") == std::string::npos)
      r.fail("settings", "no message that %s=%s is not valid: %.300s", badvar.c_str(), env.at(badvar).c_str(), se.c_str());
    r.stat("invalid_settings");
    dsim_noyield(-1);
    return;
  }
  if (!ran)
    r.fail("settings", "aborted: %.300s", se.c_str());
  if (!problem.empty())
    r.fail("settings", "%s", problem.c_str());
  bool api = on(env, "OCLGRIND_CHECK_API");
  bool real_reject = groups && rejected;
  if (real_reject)
  {
    if (api != (se.find("Oclgrind - OpenCL runtime error detected") != std::string::npos))
      r.fail("settings", "a rejected call with%s --check-api: %.300s", api ? "" : "out", se.c_str());
    if (count(se, "Oclgrind - OpenCL runtime error detected") > 1)
      r.fail("settings", "a rejected call is reported twice: %.300s", se.c_str());
    r.stat("rejected_launches");
  }
  else if (se.find("Oclgrind - OpenCL runtime error detected") != std::string::npos)
    r.fail("settings", "an API error is reported, but there was none: %.300s", se.c_str());
  if (!groups || real_reject)
  {
    for (cl_int x : out)
      if (x)
        r.fail("settings", "a rejected kernel ran");
    dsim_noyield(-1);
    return;
  }
  // which groups ran
  int val = 0;
  auto bo = env.find("OCLGRIND_BUILD_OPTIONS");
  if (bo != env.end() && bo->second.find("VAL=") != std::string::npos)
    val = atoi(bo->second.c_str() + bo->second.find("VAL=") + 4);
  bool quick = on(env, "OCLGRIND_QUICK");
  for (size_t g = 0; g < groups; g++)
  {
    cl_int w = quick && g && g + 1 != groups ? 0 : 1000 + val;
    if (out[g] != w)
      r.fail("settings", "work-group %zu of %zu wrote %d instead of %d", g, groups, out[g], w);
  }
  uint64_t nt = num(env, "OCLGRIND_NUM_THREADS", 1 << 30);
  if (threads.size() > nt)
    r.fail("settings", "%zu threads ran work-groups instead of %lu", threads.size(), (unsigned long)nt);
  // what is reported, and where
  bool tofile = env.count("OCLGRIND_LOG");
  if (tofile && se.find("race") != std::string::npos)
    r.fail("settings", "messages on stderr despite --log: %.300s", se.c_str());
  const std::string &text = tofile ? file : se;
  if (tofile && file.empty() && se.find("Invalid ") != std::string::npos)
    r.fail("settings", "the log file is empty: %.300s", se.c_str());
  size_t ngroups = quick ? std::min<size_t>(groups, 2) : groups;
  char ad[2][64];
  for (int i = 0; i < 2; i++)
    snprintf(ad[i], sizeof ad[i], "data race at global memory address 0x%lx\n", (unsigned long)addr[i]);
  bool races = on(env, "OCLGRIND_DATA_RACES"), uniform = on(env, "OCLGRIND_UNIFORM_WRITES");
  bool wr = races && (mode & 1) && ngroups > 1, wu = races && uniform && (mode & 2) && ngroups > 1;
  bool gr = text.find(ad[0]) != std::string::npos, gu = text.find(ad[1]) != std::string::npos;
  if (gr != wr || gu != wu)
    r.fail("settings", "races%s%s reported%s, expected%s%s: %.400s", gr ? ", different values" : "", gu ? ", equal values" : "",
           gr || gu ? "" : " none", wr ? ", different values" : "", wu ? ", equal values" : "", text.c_str());
  bool wn = on(env, "OCLGRIND_UNINITIALIZED") && (mode & 4), gn = text.find("ninitialized") != std::string::npos;
  if (wn != gn)
    r.fail("settings", "undefined data is%s reported: %.300s", gn ? "" : " not", text.c_str());
  size_t lim = num(env, "OCLGRIND_MAX_ERRORS", 1000), nb = count(text, "Invalid write of size 4 at global");
  if (nb != std::min<size_t>(bad, lim))
    r.fail("settings", "%zu invalid writes are reported, limit %zu, but there are %d: %.300s", nb, lim, bad, text.c_str());
  bool ic = so.find("Instructions executed for kernel 'k'") != std::string::npos;
  if (ic != on(env, "OCLGRIND_INST_COUNTS"))
    r.fail("settings", "instruction counts are%s printed", ic ? "" : " not");
  auto pl = env.find("OCLGRIND_PLUGINS");
  size_t missing = pl == env.end() ? 0 : count(pl->second, "/none");
  if (count(se, "Loading Oclgrind plugin failed") != missing)
    r.fail("settings", "%zu plugins are missing: %.300s", missing, se.c_str());
  if (hasplug && threads.empty())
    r.fail("settings", "the plugin was not loaded: %s", pl->second.c_str());
  r.stat("applications");
  dsim_noyield(-1);
}

static void run(Run &r)
{
  Rnd &q = r.rng;
  // installation
  Cmd c;
  auto comp = [&] {
    std::string s = "/";
    for (int n = 1 + q(12); n--;)
      s += "abcdefgh .-_0123"[q(16)];
    return s == "/." || s == "/.." ? std::string("/d") : s;
  };
  std::string dir;
  for (int n = q(5); n--;)
    dir += comp();
  if (q(30) == 0)
    while (dir.size() < 3900)
      dir += comp();
  std::string bin = q(3) ? "/bin" : comp();
  if (q(10) == 0)
    bin = "";
  g_real = dir + bin + (q(2) ? "/oclgrind" : comp());
  g_exe = q(4) ? g_real : comp() + "/link";
  bool testing = q(2);
  std::string lib;
  bool nolib = false;
  if (testing)
    lib = dir + bin;
  else
  {
    // the directory beside the one of the command
    std::string d = dir + bin;
    size_t s = d.rfind('/');
    if (s == std::string::npos)
      nolib = true;
    else
      lib = d.substr(0, s) + "/lib";
  }
  // environment
  Env env;
  env["HOME"] = "/root";
  for (int n = q(5); n--;)
    env["V" + std::to_string(q(9))] = word(q);
  if (testing)
    env["OCLGRIND_TESTING"] = q(4) ? "1" : "";
  if (q(3) == 0)
    env["LD_LIBRARY_PATH"] = q(4) ? word(q) : "/a:/b";
  if (q(3) == 0)
    env["LD_PRELOAD"] = q(4) ? word(q) : "/x.so:/y.so";
  bool app = r.mode == "app";
  if (r.scratch.empty())
  {
    char b[64];
    snprintf(b, sizeof b, "/tmp/dsim-launch-%010d", (int)getpid());
    r.scratch = b;
  }
  // settings that are inherited
  auto value = [&](const Option &o) -> std::string {
    std::string v = o.var;
    if (o.kind == FLAG)
      return "1";
    if (o.kind == NUMBER)
      return app || q(3) ? number(q, v) : word(q);
    if (!app)
      return word(q);
    if (v == "OCLGRIND_LOG")
      return r.scratch + "/log";
    if (v == "OCLGRIND_PLUGINS")
    {
      static const char *P[] = {BUILD_DIR "/libobs.so", "/none:" BUILD_DIR "/libobs.so", BUILD_DIR "/libobs.so:/none.so", "/none:/none2:" BUILD_DIR "/libobs.so"};
      return P[q(4)];
    }
    return "-DVAL=" + std::to_string(q(900));
  };
  int lim = app ? NAPP : NOPT;
  for (int n = q(4) ? 0 : 1 + q(3); n--;)
  {
    const Option &o = OPT[q(lim)];
    if (!(app && o.kind == FLAG && q(4) == 0))
      env[o.var] = value(o);
    else
      env[o.var] = q(2) ? "0" : "";
  }
  if (app)
    env["OCLGRIND_PCH_DIR"] = BUILD_DIR "/repo/include/oclgrind";
  // command line
  c.argv.push_back(q(5) ? "oclgrind" : word(q));
  for (int n = q(2) ? q(3) : q(app ? 9 : 14); n--;)
  {
    const Option &o = OPT[q(lim)];
    std::string v = value(o), name = o.alias && q(2) ? o.alias : o.name;
    if (!r.keep() || c.exit >= 0)
      continue;
    c.argv.push_back(name);
    if (o.kind != FLAG)
      c.argv.push_back(v);
    c.set[o.var] = v;
  }
  std::string badvar;
  if (app && q(6) == 0)
  {
    std::vector<const Option *> N;
    for (int i = 0; i < NAPP; i++)
      if (OPT[i].kind == NUMBER)
        N.push_back(&OPT[i]);
    const Option &o = *N[q(N.size())];
    std::string v = bad_number(q, o.var);
    c.argv.push_back(o.name);
    c.argv.push_back(v);
    c.set[badvar = o.var] = v;
  }
  switch (app ? 99 : q(14))
  {
  case 0:
    c.argv.push_back(q(2) ? "-h" : "--help");
    c.exit = 0;
    c.say = "Usage: oclgrind";
    break;
  case 1:
    c.argv.push_back(q(2) ? "-v" : "--version");
    c.exit = 0;
    c.say = "Oclgrind ";
    break;
  case 2:
  {
    static const char *B[] = {"-", "--", "--Quick", "-Q", "--quick=1", "--data-race", "-qi", "--log=x", "--num_threads", "-quick", "--helpme"};
    c.argv.push_back(B[q(11)]);
    c.exit = 1;
    c.say = "Unrecognised option '" + c.argv.back() + "'";
    break;
  }
  case 3:
    for (;;)
    {
      const Option &o = OPT[q(NOPT)];
      if (o.kind == FLAG)
        continue;
      c.argv.push_back(o.name);
      c.exit = 1;
      c.say = std::string("Missing argument to ") + o.name;
      break;
    }
    break;
  case 4:
    c.exit = 1;
    c.say = "Usage: oclgrind";
    break;
  }
  bool last = c.exit == 1 && c.say[0] != 'U' && c.say[0] == 'M';
  if (!last && c.say != "Usage: oclgrind")
  {
    std::string prog = word(q);
    if (!prog.empty() && prog[0] == '-')
      prog = "./app";
    c.app.push_back(prog);
    for (int n = q(6); n--;)
    {
      std::string w = q(3) ? word(q) : OPT[q(NOPT)].name;
      if (r.keep())
        c.app.push_back(w);
    }
    c.argv.insert(c.argv.end(), c.app.begin(), c.app.end());
  }
  else if (c.exit == 0)
    c.argv.push_back("app");
  // failures
  g_readlink_err = g_realpath_err = g_exec_err = 0;
  static const int RE[] = {EACCES, ENOMEM, ENOENT, EIO}, XE[] = {ENOENT, EACCES, ENOEXEC, E2BIG, ENOMEM};
  if (!app)
    switch (q(20))
    {
    case 0: g_readlink_err = RE[q(4)]; break;
    case 1: g_realpath_err = RE[q(4)]; break;
    case 2: g_exec_err = XE[q(5)]; break;
    }
  if (app)
    nolib = false, g_real = "/opt/o/bin/oclgrind", g_exe = g_real, lib = testing ? "/opt/o/bin" : "/opt/o/lib";
  for (auto &v : env)
    r.d("environment %s=%.200s", v.first.c_str(), v.second.c_str());
  for (auto &a : c.argv)
    r.d("argument '%.200s'", a.c_str());
  r.d("installed as %.300s (%.300s)%s%s%s", g_exe.c_str(), g_real.c_str(), g_readlink_err ? ", readlink fails" : "",
      g_realpath_err ? ", realpath fails" : "", g_exec_err ? ", exec fails" : "");
  capture_reset();
  Env before = env_now(environ);
  clearenv();
  for (auto &v : env)
    setenv(v.first.c_str(), v.second.c_str(), 1);
  std::vector<char *> av;
  for (auto &s : c.argv)
    av.push_back(&s[0]);
  av.push_back(NULL);
  g_code = -2;
  g_run.clear();
  g_faults.clear();
  unsigned char dirt = 1 + q(255);
  r.begin();
  dirty_stack(dirt);
  if (!setjmp(g_left))
    leave(oclgrind_launch_main(c.argv.size(), av.data()));
  int code = g_code;
  for (auto &f : g_faults)
    r.stat(("fault:" + f.first).c_str(), f.second);
  dsim_noyield(1);
  clearenv();
  for (auto &v : before)
    setenv(v.first.c_str(), v.second.c_str(), 1);
  std::string so = captured_stdout(), se = captured_stderr();
  bool inst = g_readlink_err || g_realpath_err || nolib;
  if (c.exit >= 0 || inst || g_exec_err)
  {
    if (!g_run.empty())
      r.fail("launch", "'%s' was started, but must not be", g_run[0].file.c_str());
    int want = c.exit >= 0 ? c.exit : 1;
    if (code != want)
      r.fail("launch", "exit status %d instead of %d: %.300s", code, want, se.c_str());
    if (c.exit >= 0)
    {
      const std::string &o = c.exit == 0 || c.say[0] == 'U' ? (c.say.compare(0, 12, "Unrecognised") ? so : se) : se;
      if (o.find(c.say) == std::string::npos)
        r.fail("launch", "expected '%s' in '%.200s' '%.200s'", c.say.c_str(), so.c_str(), se.c_str());
      if (c.say == "Usage: oclgrind")
        usage_mentions(r, so);
      if (c.exit == 0 && !se.empty())
        r.fail("launch", "message: %.300s", se.c_str());
      r.stat(c.exit ? "bad_command_lines" : "help_or_version");
    }
    else if (se.find("[Oclgrind] ") == std::string::npos)
      r.fail("launch", "no message about the failure: %.300s", se.c_str());
    else
      r.stat(g_exec_err ? "exec_failed" : "installation_not_found");
    dsim_noyield(-1);
    r.end();
    r.nontrivial(fnv(se.data(), se.size(), fnv(so.data(), so.size())));
    return;
  }
  if (g_run.size() != 1)
    r.fail("launch", "nothing was started, status %d: %.300s", code, se.c_str());
  Launched &l = g_run[0];
  if (!so.empty() || !se.empty())
    r.fail("launch", "output: %.200s %.200s", so.c_str(), se.c_str());
  if (l.file != c.app[0])
    r.fail("launch", "'%s' was started instead of '%s'", l.file.c_str(), c.app[0].c_str());
  if (l.args != c.app)
  {
    size_t i = 0;
    while (i < l.args.size() && i < c.app.size() && l.args[i] == c.app[i])
      i++;
    r.fail("launch", "%zu arguments instead of %zu; argument %zu is '%s' instead of '%s'", l.args.size(), c.app.size(), i,
           i < l.args.size() ? l.args[i].c_str() : "", i < c.app.size() ? c.app[i].c_str() : "");
  }
  Env want = env;
  for (auto &v : c.set)
    want[v.first] = v.second;
  auto front = [&](const char *v, const std::string &s) {
    auto i = env.find(v);
    want[v] = i == env.end() ? s : i->second.empty() && l.env.count(v) && l.env[v] == s ? s : s + ":" + i->second;
  };
  front("LD_LIBRARY_PATH", lib);
  front("LD_PRELOAD", lib + "/liboclgrind-rt.so");
  for (auto &v : want)
    if (!l.env.count(v.first) || l.env[v.first] != v.second)
      r.fail("launch", "%s is '%s' instead of '%s'", v.first.c_str(), l.env.count(v.first) ? l.env[v.first].c_str() : "(not set)",
             v.second.c_str());
  for (auto &v : l.env)
    if (!want.count(v.first))
      r.fail("launch", "%s is set to '%s'", v.first.c_str(), v.second.c_str());
  r.stat("started");
  dsim_noyield(-1);
  if (app)
  {
    Env e = l.env;
    e.erase("LD_PRELOAD");
    e.erase("LD_LIBRARY_PATH");
    bool plug = e.count("OCLGRIND_PLUGINS");
    application(r, Rnd(q.next()), e, badvar, r.scratch, plug);
  }
  r.end();
  r.nontrivial(fnv(l.file.data(), l.file.size(), l.args.size() * 77 + c.set.size()));
}
static RegWorkload reg("launch", setup, run);
} // namespace
