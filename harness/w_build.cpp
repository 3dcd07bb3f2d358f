// Programs, however they are made (C26). Random translation units and headers; executables
// made of them by building all at once or by compiling and linking in any order, through
// libraries and through binaries saved and loaded again (in another context, too, and
// after everything they came from is gone); options in every spelling; failures of every
// kind, of the program and of the file system, in between. An evaluator of the units says
// what each kernel computes.
#include "h.h"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace
{
static bool FAULTS;
static cl_context CTXS[2];
static cl_command_queue QS[2];

enum OpK { O_MULADD, O_TAB, O_CALL, O_HF, O_HC, O_MAC, O_LOC, O_LOOP, O_ENV };
struct Op
{
  int k;
  uint32_t c = 0, d = 0;
  int ref = 0;
};
struct Fn
{
  int unit;
  std::string name;
  std::vector<Op> ops;
};
struct Head
{
  std::string name; // as it is included
  uint32_t c, d;
  int inc; // includes this one, or -1
};
struct Unit
{
  std::vector<int> heads; // as written
  std::vector<bool> sees;
  std::vector<int> fns;
  uint32_t tab[4], loc;
  bool cnt;
  uint32_t cnt0;
};
static const int NM = 4;
struct Macros
{
  uint32_t m[NM] = {1, 2, 3, 4};
  uint32_t env = 0;
};

struct World
{
  std::vector<Head> heads;
  std::vector<Unit> units;
  std::vector<Fn> fns;
  bool cl2;
  uint32_t env = 0;

  uint32_t hc(int h) const { return heads[h].c + (heads[h].inc >= 0 ? hc(heads[h].inc) : 0); }
  uint32_t hf(int h, uint32_t x) const { return (x ^ (x >> 7)) * 9 + hc(h) + heads[h].d; }
  uint32_t fn(int f, uint32_t x, const std::vector<Macros> &m) const
  {
    const Fn &F = fns[f];
    const Unit &u = units[F.unit];
    uint32_t r = x;
    for (auto &o : F.ops)
      switch (o.k)
      {
      case O_MULADD: r = r * o.c + o.d; break;
      case O_TAB: r ^= units[o.ref].tab[(r + o.c) & 3]; break;
      case O_CALL: r += fn(o.ref, r ^ o.c, m); break;
      case O_HF: r = hf(o.ref, r); break;
      case O_HC: r += hc(o.ref) * o.c; break;
      case O_MAC: r = r * 3 + m[F.unit].m[o.ref]; break;
      case O_LOC: r = (r + u.loc) ^ (r >> 3); break;
      case O_LOOP:
        for (uint32_t i = 0; i < o.c; i++)
          r = r * 5 + i;
        break;
      case O_ENV: r += m[F.unit].env; break;
      }
    return r;
  }

  // ---- source
  std::string header(int h) const
  {
    const Head &H = heads[h];
    char b[600];
    snprintf(b, sizeof b, "#ifndef G%d\n#define G%d\n%s%s%s#define HC%d (%uu + %s)\n"
             "static uint hf%d(uint x) { return (x ^ (x >> 7)) * 9 + HC%d + %uu; }\n#endif\n",
             h, h, H.inc >= 0 ? "#include \"" : "", H.inc >= 0 ? heads[H.inc].name.c_str() : "", H.inc >= 0 ? "\"\n" : "", h, H.c,
             H.inc >= 0 ? ("HC" + std::to_string(H.inc)).c_str() : "0u", h, h, H.d);
    return b;
  }
  void inline_header(int h, std::string &s, std::set<int> &done) const
  {
    if (!done.insert(h).second)
      return;
    if (heads[h].inc >= 0)
      inline_header(heads[h].inc, s, done);
    std::string t = header(h);
    size_t p = t.find("#include");
    if (p != std::string::npos)
      t.erase(p, t.find('\n', p) + 1 - p);
    s += t;
  }
  std::string unit(int u, bool mono, std::set<int> &done) const
  {
    const Unit &U = units[u];
    std::string s;
    for (int h : U.heads)
      if (mono)
        inline_header(h, s, done);
      else
        s += "#include \"" + heads[h].name + "\"\n";
    if (u == 0 || !mono)
      s += "#ifdef WARN\n#warning take care of this\n#endif\n";
    s += "#ifdef BROKEN\nuint broken(uint x) { return x + undeclared_thing; }\n#endif\n";
    std::string loc = mono ? "loc_" + std::to_string(u) : "loc";
    s += "static uint " + loc + "(uint x) { return (x + " + std::to_string(U.loc) + "u) ^ (x >> 3); }\n";
    s += "constant uint tab" + std::to_string(u) + "[4] = {";
    for (int i = 0; i < 4; i++)
      s += (i ? ", " : "") + std::to_string(U.tab[i]) + "u";
    s += "};\n";
    if (U.cnt)
      s += "global uint cnt" + std::to_string(u) + " = " + std::to_string(U.cnt0) + "u;\n";
    std::set<std::string> decl;
    for (int f : U.fns)
      for (auto &o : fns[f].ops)
      {
        if (o.k == O_CALL && fns[o.ref].unit != u)
          decl.insert("uint " + fns[o.ref].name + "(uint x);\n");
        if (o.k == O_TAB && o.ref != u)
          decl.insert("extern constant uint tab" + std::to_string(o.ref) + "[4];\n");
      }
    for (auto &d : decl)
      s += d;
    for (int f : U.fns)
    {
      s += "uint " + fns[f].name + "(uint x)\n{\n  uint r = x;\n";
      for (auto &o : fns[f].ops)
      {
        char b[200];
        switch (o.k)
        {
        case O_MULADD: snprintf(b, sizeof b, "r = r * %uu + %uu;", o.c, o.d); break;
        case O_TAB: snprintf(b, sizeof b, "r ^= tab%d[(r + %uu) & 3];", o.ref, o.c); break;
        case O_CALL: snprintf(b, sizeof b, "r += %s(r ^ %uu);", fns[o.ref].name.c_str(), o.c); break;
        case O_HF: snprintf(b, sizeof b, "r = hf%d(r);", o.ref); break;
        case O_HC: snprintf(b, sizeof b, "r += HC%d * %uu;", o.ref, o.c); break;
        case O_MAC: snprintf(b, sizeof b, "r = r * 3 + (M%d);", o.ref); break;
        case O_LOC: snprintf(b, sizeof b, "r = %s(r);", loc.c_str()); break;
        case O_LOOP: snprintf(b, sizeof b, "for (uint i = 0; i < %uu; i++) r = r * 5 + i;", o.c); break;
        case O_ENV: snprintf(b, sizeof b, "r += EV;"); break;
        }
        s += std::string("  ") + b + "\n";
      }
      s += "  return r;\n}\n";
    }
    s += "kernel void k" + std::to_string(u) + "(global uint *out, uint x)\n{\n  size_t i = get_global_id(0);\n  out[i] = " + fns[U.fns.back()].name +
         "(x + i);\n}\n";
    if (U.cnt)
      s += "kernel void c" + std::to_string(u) + "(global uint *out, uint x)\n{\n  cnt" + std::to_string(u) + " = cnt" + std::to_string(u) +
           " * 3 + x;\n  out[0] = cnt" + std::to_string(u) + ";\n}\n";
    return s;
  }
};

struct Prog // a program object
{
  cl_program p = NULL;
  int ctx = 0;
  cl_program_binary_type type = CL_PROGRAM_BINARY_TYPE_NONE;
  std::set<int> units;      // it defines
  std::vector<Macros> m;    // per unit
  std::map<int, uint32_t> cnt;
  bool source = false, mono = false;
  std::string src, name;
};

static void setup(const std::string &variant)
{
  FAULTS = variant == "faults";
  unsetenv("OCLGRIND_PLUGINS");
  obs_hooks.threadsafe = 1;
  cl_setup_platform();
  cl_int e;
  for (int i = 0; i < 2; i++)
  {
    CTXS[i] = cl_new_context();
    QS[i] = clCreateCommandQueue(CTXS[i], g_device, 0, &e);
  }
  cl_build(CTXS[0], "kernel void warm(global int *a) { a[0] = 1; }", "");
  cl_build(CTXS[1], "kernel void warm(global int *a) { a[0] = 1; }", "");
}
#define CK(x) r.require_cl((x), CL_SUCCESS, #x)

static std::string slurp(const std::string &f)
{
  std::string s;
  int fd = open(f.c_str(), O_RDONLY);
  char b[65536];
  ssize_t n;
  while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0)
    s.append(b, n);
  if (fd >= 0)
    close(fd);
  return s;
}
static cl_program g_called;
static void CL_CALLBACK notify(cl_program p, void *u)
{
  (*(int *)u)++;
  g_called = p;
}

struct Sim
{
  Run &r;
  Rnd &q;
  World w;
  std::vector<cl_program> heads;
  std::vector<Prog> exes;
  std::set<std::string> sources; // that were compiled
  int serial = 0;
  enum { NOFAULT, PCH, DUMP } mode = NOFAULT;

  Sim(Run &r_) : r(r_), q(r_.rng) {}

  void world()
  {
    w.cl2 = q(2);
    int nh = q(4), nu = 1 + q(4);
    for (int h = 0; h < nh; h++)
    {
      Head H;
      H.name = (q(3) ? "h" : "inc/h") + std::to_string(h) + ".h";
      H.c = q(1000);
      H.d = q(1000);
      H.inc = h && q(2) ? (int)q(h) : -1;
      w.heads.push_back(H);
    }
    for (int u = 0; u < nu; u++)
    {
      Unit U;
      U.sees.assign(nh, false);
      for (int h = 0; h < nh; h++)
        if (q(2))
        {
          U.heads.push_back(h);
          for (int i = h; i >= 0; i = w.heads[i].inc)
            U.sees[i] = true;
        }
      for (auto &t : U.tab)
        t = q.next();
      U.loc = q(1000);
      U.cnt = w.cl2 && q(2);
      U.cnt0 = q(1000);
      w.units.push_back(U);
    }
    int nf = nu + q(5);
    for (int f = 0; f < nf; f++)
    {
      Fn F;
      F.unit = f < nu ? f : q(nu);
      F.name = "f" + std::to_string(f);
      Unit &U = w.units[F.unit];
      int no = 1 + q(5), ncalls = 0;
      for (int i = 0; i < no; i++)
      {
        Op o;
        o.k = q(9);
        o.c = q(3) ? q(100) : q.next();
        o.d = q(1000);
        if (o.k == O_TAB)
          o.ref = q(nu);
        if (o.k == O_CALL)
        {
          if (!f || ncalls++ > 1)
            continue;
          o.ref = q(f);
        }
        if (o.k == O_HF || o.k == O_HC)
        {
          std::vector<int> hs;
          for (int h = 0; h < nh; h++)
            if (U.sees[h])
              hs.push_back(h);
          if (hs.empty())
            continue;
          o.ref = hs[q(hs.size())];
        }
        if (o.k == O_MAC)
          o.ref = q(NM);
        if (o.k == O_LOOP)
          o.c = q(5);
        if (o.k == O_ENV && !w.env)
          continue;
        F.ops.push_back(o);
      }
      U.fns.push_back(f);
      w.fns.push_back(F);
    }
  }

  // options, in any spelling
  std::string options(Macros &m)
  {
    std::string s;
    auto space = [&] { s += std::string(1 + q(2), ' '); };
    if (q(5) == 0)
      s += " ";
    if (w.cl2)
    {
      s += "-cl-std=CL2.0";
      space();
    }
    std::vector<int> order = {0, 1, 2, 3};
    for (int i = 3; i > 0; i--)
      std::swap(order[i], order[q(i + 1)]);
    for (int k : order)
    {
      uint32_t a = q(100), b = q(100);
      std::string n = "M" + std::to_string(k), A = std::to_string(a), B = std::to_string(b);
      m.m[k] = a + b;
      switch (q(9))
      {
      case 0: s += "-D" + n + "=" + std::to_string(a + b); break;
      case 1: s += "-D " + n + "=" + std::to_string(a + b); break;
      case 2: s += "-D" + n + "=\"" + A + " + " + B + "\""; break;
      case 3: s += "\"-D" + n + "=" + A + " + " + B + "\""; break;
      case 4: s += "-D" + n + "=" + A + "\\ +\\ " + B; break;
      case 5: s += "-D \"" + n + "=" + A + " + " + B + "\""; break;
      case 6: s += "-D" + n + "=7 -U" + n + " -D" + n + "=" + std::to_string(a + b); break;
      case 7: s += "-D" + n + "=\"" + A + "\"+" + B; break;
      case 8:
        s += "-D" + n;
        m.m[k] = 1;
        break;
      }
      space();
      if (q(6) == 0)
      {
        static const char *X[] = {"-O0", "-O2", "-O3", "-Os", "-cl-opt-disable", "-cl-mad-enable", "-w", "-cl-fast-relaxed-math", "-cl-denorms-are-zero",
                                  "-cl-kernel-arg-info", "-cl-no-signed-zeros", "-cl-finite-math-only", "-cl-unsafe-math-optimizations"};
        s += X[q(13)];
        space();
      }
    }
    if (q(2))
      while (s.size() && s.back() == ' ')
        s.pop_back();
    m.env = w.env;
    return s;
  }
  std::string log(cl_program p)
  {
    size_t n = 0;
    CK(clGetProgramBuildInfo(p, g_device, CL_PROGRAM_BUILD_LOG, 0, NULL, &n));
    std::string s(n, 0);
    CK(clGetProgramBuildInfo(p, g_device, CL_PROGRAM_BUILD_LOG, n, &s[0], NULL));
    s.resize(strlen(s.c_str()));
    return s;
  }
  void state(Prog &P, cl_build_status st)
  {
    cl_build_status s;
    cl_program_binary_type t;
    CK(clGetProgramBuildInfo(P.p, g_device, CL_PROGRAM_BUILD_STATUS, sizeof s, &s, NULL));
    CK(clGetProgramBuildInfo(P.p, g_device, CL_PROGRAM_BINARY_TYPE, sizeof t, &t, NULL));
    if (s != st)
      r.fail("build", "%s: build status %d instead of %d", P.name.c_str(), s, st);
    if (t != P.type)
      r.fail("build", "%s: binary type %u instead of %u", P.name.c_str(), t, P.type);
    if (st != CL_BUILD_SUCCESS)
      return;
    size_t nk, n;
    CK(clGetProgramInfo(P.p, CL_PROGRAM_NUM_KERNELS, sizeof nk, &nk, NULL));
    CK(clGetProgramInfo(P.p, CL_PROGRAM_KERNEL_NAMES, 0, NULL, &n));
    std::string s_(n, 0);
    CK(clGetProgramInfo(P.p, CL_PROGRAM_KERNEL_NAMES, n, &s_[0], NULL));
    std::multiset<std::string> got, want;
    for (size_t at = 0; at < s_.size();)
    {
      size_t e = s_.find_first_of(std::string(";\0", 2), at);
      if (e == std::string::npos)
        e = s_.size();
      if (e > at)
        got.insert(s_.substr(at, e - at));
      at = e + 1;
    }
    for (int u : P.units)
    {
      want.insert("k" + std::to_string(u));
      if (w.units[u].cnt)
        want.insert("c" + std::to_string(u));
    }
    if (nk != want.size() || got != want)
      r.fail("build", "%s: %zu kernels \"%s\" instead of %zu", P.name.c_str(), nk, s_.c_str(), want.size());
  }
  // compile or build, with failures first perhaps
  void make(Prog &P, bool link, bool keep)
  {
    Macros m;
    std::string o = options(m);
    int trouble = q(6), count;
    bool warn = q(6) == 0;
    const cl_int FAILED = link ? CL_BUILD_PROGRAM_FAILURE : CL_COMPILE_PROGRAM_FAILURE;
    cl_int e;
    std::vector<const char *> names;
    std::vector<cl_program> hp;
    std::vector<int> order;
    for (size_t h = 0; h < heads.size(); h++)
      order.push_back(h);
    for (int i = (int)order.size() - 1; i > 0; i--)
      std::swap(order[i], order[q(i + 1)]);
    for (int h : order)
    {
      hp.push_back(heads[h]);
      names.push_back(w.heads[h].name.c_str());
    }
    auto go = [&](const std::string &opt, size_t nh) {
      count = 0;
      g_called = NULL;
      bool cb = q(2), dl = q(2);
      uint64_t was = dsim_fault_count(DF_OPENFAIL) + dsim_fault_count(DF_EIO) + dsim_fault_count(DF_EOF);
      if (link)
        e = clBuildProgram(P.p, dl, dl ? &g_device : NULL, opt.c_str(), cb ? notify : NULL, cb ? &count : NULL);
      else
        e = clCompileProgram(P.p, dl, dl ? &g_device : NULL, opt.c_str(), nh, nh ? hp.data() : NULL, nh ? names.data() : NULL, cb ? notify : NULL,
                             cb ? &count : NULL);
      if (count != cb || (cb && g_called != P.p))
        r.fail("build-callback", "%s: %s with \"%s\" returned %d and called the callback %d times", P.name.c_str(), link ? "building" : "compiling",
               opt.c_str(), e, count);
      size_t n;
      CK(clGetProgramBuildInfo(P.p, g_device, CL_PROGRAM_BUILD_OPTIONS, 0, NULL, &n));
      std::string s(n, 0);
      CK(clGetProgramBuildInfo(P.p, g_device, CL_PROGRAM_BUILD_OPTIONS, n, &s[0], NULL));
      if (strcmp(s.c_str(), opt.c_str()))
        r.fail("build", "%s: options are \"%s\" instead of \"%s\"", P.name.c_str(), s.c_str(), opt.c_str());
      return dsim_fault_count(DF_OPENFAIL) + dsim_fault_count(DF_EIO) + dsim_fault_count(DF_EOF) != was;
    };
    auto failed = [&](const std::string &opt, const char *want, const char *what) {
      if (e != FAILED)
        r.fail("build-failure", "%s: %s returned %d", P.name.c_str(), what, e);
      std::string l = log(P.p);
      if (l.find("error") == std::string::npos || l.find(want) == std::string::npos)
        r.fail("build-failure", "%s: %s, and the log does not say so: %.500s", P.name.c_str(), what, l.c_str());
      P.type = CL_PROGRAM_BINARY_TYPE_NONE;
      state(P, CL_BUILD_ERROR);
      size_t n = 0;
      if (clGetProgramInfo(P.p, CL_PROGRAM_NUM_KERNELS, sizeof n, &n, NULL) != CL_INVALID_PROGRAM_EXECUTABLE)
        r.fail("build-failure", "%s: %s, and it has kernels", P.name.c_str(), what);
      r.stat("failed_builds");
    };
    if (keep)
    {
      if (trouble == 0)
      {
        std::string t = q(2) ? "-DBROKEN " + o : o + " -DBROKEN=1";
        bool hurt = go(t, hp.size());
        if (!hurt)
          failed(t, "undeclared_thing", "a build of an erroneous program");
        r.d("  (failed build)");
      }
      if (trouble == 1 && !link && !w.units[*P.units.begin()].heads.empty())
      {
        bool hurt = go(o, 0);
        if (!hurt)
          failed(o, ".h", "a build without headers");
        r.d("  (build without headers)");
      }
      if (trouble == 2)
      {
        std::string t = o + " -DWARN -Werror";
        if (o.find("-w") == std::string::npos)
        {
          bool hurt = go(t, hp.size());
          if (!hurt)
            failed(t, "take care of this", "a build of a program with warnings that are errors");
        }
        r.d("  (warnings are errors)");
      }
      if (trouble == 3)
      {
        bool hurt = go(o + " -cl-no-such-option", hp.size());
        (void)hurt; // unknown options need not be rejected, but the next build must work
        r.d("  (unknown option)");
      }
    }
    if (warn)
      o += " -DWARN";
    for (int tries = 0;; tries++)
    {
      bool hurt = go(o, hp.size());
      if (e == CL_SUCCESS)
        break;
      if (!hurt || e != FAILED || tries > 20)
        r.fail("build", "%s: %s with \"%s\" returned %d: %.500s", P.name.c_str(), link ? "building" : "compiling", o.c_str(), e, log(P.p).c_str());
      if (log(P.p).empty())
        r.fail("build-failure", "%s: failed because of a file, and the log is empty", P.name.c_str());
      P.type = CL_PROGRAM_BINARY_TYPE_NONE;
      state(P, CL_BUILD_ERROR);
      r.stat("builds_failed_by_faults");
    }
    std::string l = log(P.p);
    if (l.find("error:") != std::string::npos)
      r.fail("build", "%s: a successful build with errors in the log: %.500s", P.name.c_str(), l.c_str());
    if (warn && (o + " ").find("-w ") == std::string::npos && l.find("take care of this") == std::string::npos)
      r.fail("build", "%s: the warning is not in the log: %.500s", P.name.c_str(), l.c_str());
    sources.insert(P.src);
    P.type = link ? CL_PROGRAM_BINARY_TYPE_EXECUTABLE : CL_PROGRAM_BINARY_TYPE_COMPILED_OBJECT;
    for (int u : P.units)
    {
      P.m[u] = m;
      if (w.units[u].cnt)
        P.cnt[u] = w.units[u].cnt0;
    }
    state(P, CL_BUILD_SUCCESS);
    r.d("%s: %s with \"%s\"", P.name.c_str(), link ? "built" : "compiled", o.c_str());
    r.stat(link ? "builds" : "compilations");
  }
  Prog source(const std::set<int> &units, bool mono)
  {
    Prog P;
    P.name = "p" + std::to_string(serial++);
    P.source = true;
    P.mono = mono;
    P.units = units;
    P.m.resize(w.units.size());
    std::set<int> done;
    std::vector<std::string> parts;
    for (int u : units)
      parts.push_back(w.unit(u, mono, done));
    std::string all;
    for (auto &s : parts)
      all += s;
    // cut anywhere
    std::vector<const char *> sp;
    std::vector<size_t> ln;
    bool lens = q(2);
    std::vector<std::string> cut;
    for (size_t at = 0; at < all.size();)
    {
      size_t n = q(2) ? all.size() - at : 1 + q(all.size() - at);
      cut.push_back(all.substr(at, n));
      at += n;
    }
    for (auto &s : cut)
    {
      if (lens && q(2))
      {
        ln.push_back(s.size());
        s += "@#!"; // not part of it
      }
      else
        ln.push_back(0);
    }
    for (auto &s : cut)
      sp.push_back(s.c_str());
    cl_int e;
    P.p = clCreateProgramWithSource(CTXS[P.ctx], sp.size(), sp.data(), lens ? ln.data() : NULL, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateProgramWithSource");
    P.src = all;
    size_t n;
    CK(clGetProgramInfo(P.p, CL_PROGRAM_SOURCE, 0, NULL, &n));
    std::string s(n, 0);
    CK(clGetProgramInfo(P.p, CL_PROGRAM_SOURCE, n, &s[0], NULL));
    if (strcmp(s.c_str(), all.c_str()))
      r.fail("build", "%s: the source is not that given", P.name.c_str());
    cl_build_status st;
    CK(clGetProgramBuildInfo(P.p, g_device, CL_PROGRAM_BUILD_STATUS, sizeof st, &st, NULL));
    if (st != CL_BUILD_NONE)
      r.fail("build", "%s: build status %d before any build", P.name.c_str(), st);
    return P;
  }
  std::string binary(Prog &P)
  {
    size_t n, n2;
    CK(clGetProgramInfo(P.p, CL_PROGRAM_BINARY_SIZES, sizeof n, &n, NULL));
    if (!n)
      r.fail("build-binary", "%s: no binary", P.name.c_str());
    std::vector<uint8_t> b(n + 16, 0xa5);
    unsigned char *bp = b.data();
    CK(clGetProgramInfo(P.p, CL_PROGRAM_BINARIES, sizeof bp, &bp, &n2));
    for (int i = 0; i < 16; i++)
      if (b[n + i] != 0xa5)
        r.fail("build-binary", "%s: the binary is longer than its size", P.name.c_str());
    bp = NULL; // to be skipped
    if (q(4) == 0)
      CK(clGetProgramInfo(P.p, CL_PROGRAM_BINARIES, sizeof bp, &bp, NULL));
    return std::string((char *)b.data(), n);
  }
  // save and load again
  void roundtrip(Prog &P, bool other)
  {
    std::string b = binary(P);
    const unsigned char *bp;
    cl_int e, st;
    if (q(2))
    { // what a crash leaves of a file
      std::string t = b;
      int k = q(4);
      if (k < 2)
        t.resize(q(3) == 0 ? b.size() - 1 - q(4) : q(b.size()));
      else if (k == 2)
        t.assign(b.size(), 0);
      else
        t = std::string(b.rbegin(), b.rend());
      std::vector<unsigned char> ex(t.begin(), t.end()); // of exactly this size
      if (ex.empty())
        ex.reserve(1);
      bp = ex.data();
      size_t len = t.size();
      st = 12345;
      e = 12345;
      bool ws = q(2);
      cl_program x = clCreateProgramWithBinary(CTXS[P.ctx], 1, &g_device, &len, &bp, ws ? &st : NULL, &e);
      if (x || e != CL_INVALID_BINARY || (ws && st != CL_INVALID_BINARY))
        r.fail("build-binary", "%s: a damaged binary (%d, %zu of %zu bytes) gives %s, error %d, status %d", P.name.c_str(), k, len, b.size(),
               x ? "a program" : "NULL", e, st);
      r.stat("damaged_binaries");
    }
    if (q(2))
      CK(clReleaseProgram(P.p)), P.p = NULL;
    if (other)
      P.ctx ^= 1;
    std::vector<unsigned char> ex(b.begin(), b.end());
    bp = ex.data();
    size_t len = b.size();
    st = 12345;
    cl_program x = clCreateProgramWithBinary(CTXS[P.ctx], 1, &g_device, &len, &bp, &st, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateProgramWithBinary");
    if (st != CL_SUCCESS)
      r.fail("build-binary", "%s: status %d of a good binary", P.name.c_str(), st);
    std::fill(ex.begin(), ex.end(), 0x5a); // the program has its own
    if (P.p)
      CK(clReleaseProgram(P.p));
    P.p = x;
    P.source = P.mono = false;
    P.name += "'";
    if (P.type == CL_PROGRAM_BINARY_TYPE_EXECUTABLE && q(2))
    {
      std::string o = q(2) ? "" : "-O2";
      CK(clBuildProgram(P.p, 1, &g_device, o.c_str(), NULL, NULL));
    }
    for (auto &c : P.cnt)
      c.second = w.units[c.first].cnt0;
    state(P, CL_BUILD_SUCCESS);
    r.d("%s: from a binary%s", P.name.c_str(), other ? ", in another context" : "");
    r.stat("binaries");
  }
  Prog link(std::vector<Prog> &in, bool lib)
  {
    Prog P;
    P.name = "p" + std::to_string(serial++);
    P.m.resize(w.units.size());
    std::string s = P.name + ": linked of";
    std::vector<cl_program> ps;
    for (int i = (int)in.size() - 1; i > 0; i--)
      std::swap(in[i], in[q(i + 1)]);
    for (auto &x : in)
    {
      ps.push_back(x.p);
      for (int u : x.units)
      {
        P.units.insert(u);
        P.m[u] = x.m[u];
        if (w.units[u].cnt)
          P.cnt[u] = w.units[u].cnt0;
      }
      s += " " + x.name;
    }
    int count = 0;
    bool cb = q(2);
    cl_int e;
    static const char *LO[] = {"-create-library", "-create-library -enable-link-options", " -create-library "};
    if (q(4) == 0)
    { // a symbol twice
      std::vector<cl_program> two = ps;
      two.insert(two.begin() + q(two.size() + 1), ps[q(ps.size())]);
      cl_program x = clLinkProgram(CTXS[0], 1, &g_device, "", two.size(), two.data(), NULL, NULL, &e);
      if (e != CL_LINK_PROGRAM_FAILURE)
        r.fail("build-link", "linking the same unit twice returned %d", e);
      if (x)
        CK(clReleaseProgram(x));
      r.stat("failed_links");
    }
    P.p = clLinkProgram(CTXS[0], 1, &g_device, lib ? LO[q(3)] : "", ps.size(), ps.data(), cb ? notify : NULL, cb ? &count : NULL, &e);
    r.require_cl(e, CL_SUCCESS, "clLinkProgram");
    if (count != cb || (cb && g_called != P.p))
      r.fail("build-callback", "linking called the callback %d times", count);
    P.type = lib ? CL_PROGRAM_BINARY_TYPE_LIBRARY : CL_PROGRAM_BINARY_TYPE_EXECUTABLE;
    state(P, CL_BUILD_SUCCESS);
    r.d("%s%s", s.c_str(), lib ? " (library)" : "");
    r.stat(lib ? "libraries" : "links");
    for (auto &x : in)
      CK(clReleaseProgram(x.p));
    in.clear();
    return P;
  }
  Prog executable()
  {
    std::set<int> all;
    for (size_t u = 0; u < w.units.size(); u++)
      all.insert(u);
    if (q(3) == 0)
    {
      Prog P = source(all, true);
      make(P, true, true);
      if (q(3) == 0)
        roundtrip(P, q(2));
      return P;
    }
    std::vector<Prog> parts;
    for (int u : all)
    {
      Prog P = source({u}, false);
      make(P, false, q(2));
      if (q(6) == 0) // again, with other options
        make(P, false, false);
      if (q(4) == 0)
        roundtrip(P, false);
      parts.push_back(P);
    }
    while (parts.size() > 1 && q(3) == 0)
    {
      std::vector<Prog> in;
      for (int n = 1 + q(parts.size()); n--;)
      {
        int i = q(parts.size());
        in.push_back(parts[i]);
        parts.erase(parts.begin() + i);
      }
      Prog L = link(in, true);
      if (q(3) == 0)
        roundtrip(L, false);
      parts.push_back(L);
    }
    Prog P = link(parts, false);
    if (q(3) == 0)
      roundtrip(P, q(2));
    return P;
  }
  void exec(Prog &P)
  {
    std::vector<int> us(P.units.begin(), P.units.end());
    int u = us[q(us.size())];
    bool c = w.units[u].cnt && q(2);
    std::string kn = (c ? "c" : "k") + std::to_string(u);
    cl_int e;
    cl_kernel k = clCreateKernel(P.p, kn.c_str(), &e);
    r.require_cl(e, CL_SUCCESS, ("clCreateKernel of " + P.name).c_str());
    size_t n = c ? 1 : 1 + q(6);
    std::vector<uint32_t> out(n, 0xdeadbeef);
    cl_mem m = clCreateBuffer(CTXS[P.ctx], CL_MEM_COPY_HOST_PTR, n * 4, out.data(), &e);
    r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
    uint32_t x = q(2) ? q(10) : q.next();
    CK(clSetKernelArg(k, 0, sizeof m, &m));
    CK(clSetKernelArg(k, 1, 4, &x));
    CK(clEnqueueNDRangeKernel(QS[P.ctx], k, 1, NULL, &n, NULL, 0, NULL, NULL));
    CK(clEnqueueReadBuffer(QS[P.ctx], m, CL_TRUE, 0, n * 4, out.data(), 0, NULL, NULL));
    for (size_t i = 0; i < n; i++)
    {
      uint32_t want = c ? (P.cnt[u] = P.cnt[u] * 3 + x) : w.fn(w.units[u].fns.back(), x + i, P.m);
      if (out[i] != want)
        r.fail("build-result", "%s: kernel %s with x = %u: item %zu computed %u instead of %u", P.name.c_str(), kn.c_str(), x, i, out[i], want);
    }
    CK(clReleaseMemObject(m));
    CK(clReleaseKernel(k));
    r.d("%s: %s ran", P.name.c_str(), kn.c_str());
    r.stat("launches");
  }
  void go()
  {
    if (FAULTS)
      mode = q(4) ? DUMP : PCH;
    if (mode == NOFAULT && q(4) == 0)
      mode = DUMP;
    if (q(3) == 0)
    {
      w.env = 1 + q(1000);
      std::string a = std::to_string(w.env / 2), b = std::to_string(w.env - w.env / 2);
      static char buf[100];
      switch (q(3))
      {
      case 0: snprintf(buf, sizeof buf, "-DEV=%u", w.env); break;
      case 1: snprintf(buf, sizeof buf, "-DEV=\"(%s + %s)\"", a.c_str(), b.c_str()); break;
      case 2: snprintf(buf, sizeof buf, " -D EV=(%s\\ +\\ %s) ", a.c_str(), b.c_str()); break;
      }
      setenv("OCLGRIND_BUILD_OPTIONS", buf, 1);
      r.d("OCLGRIND_BUILD_OPTIONS=%s", buf);
    }
    world();
    std::set<int> none;
    for (size_t h = 0; h < w.heads.size(); h++)
      r.d("%s:\n%s", w.heads[h].name.c_str(), w.header(h).c_str());
    for (size_t u = 0; u < w.units.size(); u++)
      r.d("unit %zu:\n%s", u, w.unit(u, false, none).c_str());
    static std::string pre;
    if (mode == DUMP)
    {
      if (r.scratch.empty())
      {
        char b[64];
        snprintf(b, sizeof b, "/tmp/dsim-build-%010d", (int)getpid());
        r.scratch = b;
      }
      r.make_scratch();
      setenv("OCLGRIND_DUMP_SPIR", "1", 1);
      pre = r.scratch + "/";
      r.cfg.io_prefix = "/tmp/oclgrind_";
      r.cfg.io_redirect = pre.c_str();
    }
    else if (mode == PCH)
    {
      pre = getenv("OCLGRIND_PCH_DIR") ? getenv("OCLGRIND_PCH_DIR") : "/none";
      r.cfg.io_prefix = pre.c_str();
    }
    if (FAULTS)
    {
      r.cfg.p_openfail = mode == PCH ? 0.2 : 0.1;
      r.cfg.max_io_faults = 1 + q(mode == PCH ? 3 : 10);
      if (mode == DUMP)
      {
        r.cfg.p_enospc = 0.05;
        r.cfg.p_eio = 0.05;
      }
      r.cfg.p_short = 0.1;
      r.cfg.p_eintr = 0.1;
    }
    int workers = 1 + q(3);
    set_threads(workers);
    r.begin();
    cl_int e;
    for (size_t h = 0; h < w.heads.size(); h++)
    {
      std::string s = w.header(h);
      const char *sp = s.c_str();
      heads.push_back(clCreateProgramWithSource(CTXS[0], 1, &sp, NULL, &e));
      r.require_cl(e, CL_SUCCESS, "clCreateProgramWithSource");
    }
    int n = 2 + q(8);
    for (int i = 0; i < n; i++)
    {
      int k = exes.empty() ? 0 : q(9);
      size_t at = q(exes.size());
      if (!r.keep() && k)
        continue;
      if (k == 0)
      {
        exes.push_back(executable());
        if (q(2))
          exec(exes.back());
      }
      else if (k == 1)
      {
        CK(clReleaseProgram(exes[at].p));
        r.d("%s: released", exes[at].name.c_str());
        exes.erase(exes.begin() + at);
      }
      else if (k == 2 && exes[at].source && exes[at].mono)
        make(exes[at], true, true); // again
      else if (k == 3)
        roundtrip(exes[at], q(2));
      else
        exec(exes[at]);
    }
    while (!exes.empty())
    {
      exec(exes.back());
      CK(clReleaseProgram(exes.back().p));
      exes.pop_back();
    }
    for (auto h : heads)
      CK(clReleaseProgram(h));
    r.end();
    if (mode == DUMP)
    {
      DIR *d = opendir(r.scratch.c_str());
      std::vector<std::string> fs;
      while (dirent *x = d ? readdir(d) : NULL)
        if (x->d_name[0] != '.')
          fs.push_back(x->d_name);
      closedir(d);
      std::string bad;
      for (auto &f : fs)
      {
        std::string s = slurp(r.scratch + "/" + f);
        if (!FAULTS && f.size() > 3 && f.substr(f.size() - 3) == ".cl")
        {
          bool ok = s.find("BROKEN") != std::string::npos && false;
          for (auto &x : sources)
            ok |= x == s;
          if (!ok)
            bad = f;
        }
        unlink((r.scratch + "/" + f).c_str());
        r.stat("dumped_files");
      }
      rmdir(r.scratch.c_str());
      if (!bad.empty())
        r.fail("build-dump", "%s is not the source of any program that was built", bad.c_str());
      if (!FAULTS && fs.empty() && !sources.empty())
        r.fail("build-dump", "nothing was dumped");
    }
    uint64_t h = 0;
    for (auto &x : r.stats)
      h = h * 31 + x.second;
    r.nontrivial(h);
  }
};
static void run(Run &r)
{
  Sim s(r);
  s.go();
}
static RegWorkload reg("build", setup, run);
} // namespace
