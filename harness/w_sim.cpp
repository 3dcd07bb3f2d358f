// oclgrind-kernel (C25): random simulation files, valid or malformed, read under
// I/O faults; the real main() runs, its output is compared with a model.
#include "h.h"
#include <algorithm>
#include <fcntl.h>
#include <functional>
#include <setjmp.h>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

extern "C" int oclgrind_kernel_main(int argc, char **argv);

// exit() of the command; it is declared not to throw
static jmp_buf g_left;
static int g_code;
extern "C" void ka_exit(int c)
{
  g_code = c;
  longjmp(g_left, 1);
}

namespace
{
enum { CHR, UCH, SHT, USH, INT, UIN, LNG, ULN, FLT, DBL, NT };
static const char *TN[] = {"char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "float", "double"};
static const int TS[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
static bool isf(int t) { return t >= FLT; }
static bool sgn(int t) { return !isf(t) && !(t & 1); }

static cl_context CTX;
static void setup(const std::string &)
{
  unsetenv("OCLGRIND_PLUGINS");
  cl_setup_platform();
  CTX = cl_new_context();
}

static uint64_t wrap(int t, uint64_t v) { return TS[t] == 8 ? v : v & ((1ull << (TS[t] * 8)) - 1); }
static int64_t sext(int t, uint64_t v)
{
  int b = 64 - TS[t] * 8;
  return sgn(t) ? (int64_t)(v << b) >> b : (int64_t)v;
}
static uint64_t ld(int t, const uint8_t *p)
{
  uint64_t v = 0;
  memcpy(&v, p, TS[t]);
  return v;
}
static double ldf(int t, const uint8_t *p)
{
  float f;
  double d;
  if (t == FLT)
    return memcpy(&f, p, 4), f;
  return memcpy(&d, p, 8), d;
}
static void st(int t, uint8_t *p, uint64_t v) { memcpy(p, &v, TS[t]); }
static void stf(int t, uint8_t *p, double d)
{
  float f = d;
  if (t == FLT)
    memcpy(p, &f, 4);
  else
    memcpy(p, &d, 8);
}

enum { K_BUF, K_CONST, K_LOCAL, K_SCAL, K_NULL };
struct Arg
{
  int kind, t, w = 1; // element type, vector width
  int ht;             // type used by the file
  bool writable = false, readable = true, dump = false, hex = false, noinit = false;
  std::string name;
  std::vector<uint8_t> data; // content
  size_t size;
  std::string fill, range; // initialiser text
  std::string acc;         // ro, wo or nothing
  bool expl;               // the type is written
};
struct Tok
{
  std::string s;
  int arg;     // index of the argument, -1 file, ...
  bool header;
  bool glue = false; // may follow without white space
};

static double smallf(Rnd &q) { return ((double)(int)q(401) - 200) / 4; }

static std::string vtext(Rnd &q, int t, bool hex, const uint8_t *p)
{
  char b[64];
  if (isf(t))
    snprintf(b, sizeof b, q(4) ? "%g" : "%.3f", ldf(t, p));
  else if (hex)
  {
    int64_t v = sext(t, ld(t, p));
    if (v < 0)
      snprintf(b, sizeof b, q(2) ? "-0x%llx" : "-%llx", (unsigned long long)-v);
    else
      snprintf(b, sizeof b, q(2) ? "0x%llx" : q(2) ? "%llX" : "%llx", (unsigned long long)v);
  }
  else if (sgn(t))
    snprintf(b, sizeof b, "%lld", (long long)sext(t, ld(t, p)));
  else
    snprintf(b, sizeof b, "%llu", (unsigned long long)ld(t, p));
  return b;
}
static std::string dumpline(const Arg &a, size_t i)
{
  char b[160];
  int n = snprintf(b, sizeof b, "  %s[%zu] = ", a.name.c_str(), i);
  const uint8_t *p = &a.data[i * TS[a.ht]];
  if (isf(a.ht))
    snprintf(b + n, sizeof b - n, "%g", ldf(a.ht, p));
  else if (a.hex)
    snprintf(b + n, sizeof b - n, "0x%0*llx", TS[a.ht] * 2, (unsigned long long)ld(a.ht, p));
  else if (sgn(a.ht))
    snprintf(b + n, sizeof b - n, "%lld", (long long)sext(a.ht, ld(a.ht, p)));
  else
    snprintf(b + n, sizeof b - n, "%llu", (unsigned long long)ld(a.ht, p));
  return b;
}

enum Bad
{
  B_NONE, B_NOSIM, B_NOPROG, B_KNAME, B_TRUNC, B_VALUE, B_TOKEN, B_NOSIZE, B_MULT, B_INITS, B_CHAR, B_EXTRA,
  B_NOTBUF, B_RANGE, B_ROWO, B_DUMP, B_TYPES, B_NOOPEN, B_NOCLOSE, B_WGZERO, B_ARGSIZE, B_SOURCE, B_HUGE, B_DIR,
  B_DIVIDE, B_FILL, B_SIZEVAL, B_NULLMIX, B_TRUNCBC, B_CMD, NBAD
};
static const char *BN[] = {"none", "no simulation file", "no program file", "wrong kernel name", "truncated",
                           "wrong value", "unknown token", "no size", "size not a multiple", "two initialisers",
                           "char out of range", "extra token", "descriptor for buffers", "range of the wrong size",
                           "ro and wo", "dump of a non-buffer", "two types", "no '<'", "no '>'",
                           "empty work-group", "size of a value", "source error", "huge size", "directory",
                           "uneven work-groups", "fill value", "size value", "null with others", "truncated bitcode",
                           "command line"};

static void run(Run &r)
{
  Rnd &q = r.rng;
  bool source = q(5) == 0;
  bool faults = q(3) == 0;
  int bad = q(2) ? B_NONE : q(5) == 0 ? B_CMD : 1 + q(NBAD - 1);
  if (bad == B_SOURCE)
    source = true;
  if (bad == B_TRUNCBC)
    source = false;
  size_t nd[3], wg[3];
  for (int i = 0; i < 3; i++)
  {
    static const int M[] = {8, 3, 2};
    nd[i] = 1 + q(M[i]);
    wg[i] = 1 + q(i ? 2 : 4);
    if (wg[i] > nd[i])
      wg[i] = nd[i];
  }
  bool even = true;
  for (int i = 0; i < 3; i++)
    even &= nd[i] % wg[i] == 0;
  bool cl12 = even && bad != B_DIVIDE ? q(2) : bad == B_DIVIDE;
  if (bad == B_DIVIDE && even)
    nd[0] = 5, wg[0] = 2;
  size_t N = nd[0] * nd[1] * nd[2];
  // ------------------------------------------------------------ arguments
  std::vector<Arg> A(1 + q(5));
  bool havew = false;
  for (size_t i = 0; i < A.size(); i++)
  {
    Arg &a = A[i];
    static const int KW[] = {K_BUF, K_BUF, K_BUF, K_CONST, K_LOCAL, K_SCAL, K_SCAL, K_NULL};
    a.kind = KW[q(8)];
    if (i + 1 == A.size() && !havew)
      a.kind = K_BUF;
    a.t = q(NT);
    if (bad == B_CHAR && i + 1 == A.size())
      a.kind = K_BUF, a.t = q(2);
    a.name = std::string(q(2) ? "a" : "arg_") + std::to_string(i);
    if (a.kind == K_BUF && q(3) == 0 && !isf(a.t))
      a.w = 2 << q(2);
    if (a.kind == K_SCAL && q(4) == 0)
      a.w = 2 << q(2);
    a.ht = a.t;
    a.expl = q(3) == 0;
    if (!isf(a.t) && q(4) == 0)
    {
      a.expl = true;
      a.ht = q(2) ? UCH : (a.t ^ 1);
    }
    size_t n = a.kind == K_SCAL ? 1 : 1 + q(12);
    a.size = n * a.w * TS[a.t];
    if (a.kind == K_BUF)
    {
      a.writable = i + 1 == A.size() && !havew ? true : q(3) != 0;
      havew |= a.writable;
      if (!a.writable)
        a.acc = q(2) ? "ro" : "";
      else if (q(4) == 0)
      {
        a.readable = false;
        a.acc = q(2) ? "wo" : "";
        a.noinit = q(2);
      }
      a.dump = a.writable ? q(8) != 0 : q(2);
      if (i + 1 == A.size() && a.writable)
        a.dump = true;
    }
    if (a.kind == K_CONST)
      a.dump = q(3) == 0;
    if (a.kind == K_LOCAL)
      a.size = wg[0] * wg[1] * wg[2] * TS[a.t];
    if (a.kind == K_NULL)
      a.size = 0;
    a.hex = !isf(a.ht) && q(4) == 0;
    if (a.hex && a.dump && sgn(a.ht))
      a.hex = false; // the width of negative numbers is not specified
    a.data.resize(a.size);
    size_t ne = a.size / TS[a.ht];
    if (!isf(a.t) && isf(a.ht))
      r.fail("harness", "type");
    for (size_t j = 0; j < ne; j++)
    {
      if (isf(a.ht))
        stf(a.ht, &a.data[j * TS[a.ht]], smallf(q));
      else
        st(a.ht, &a.data[j * TS[a.ht]], wrap(a.ht, q(3) ? q(200) : q.next()));
    }
    int ini = q(4);
    if (a.noinit || a.kind == K_LOCAL || a.kind == K_NULL)
      ini = 0;
    if (ini == 1 && a.size)
    {
      a.fill = vtext(q, a.ht, a.hex, &a.data[0]);
      for (size_t j = 1; j < ne; j++)
        memcpy(&a.data[j * TS[a.ht]], &a.data[0], TS[a.ht]);
    }
    else if (ini == 2 && a.size && ne <= 60)
    {
      // every value of the range and its end fit in the type
      bool neg = sgn(a.ht) || isf(a.ht);
      int step = 1 + q(2), s0 = q(5);
      if (neg && q(2))
        s0 = -s0;
      if (neg && q(3) == 0)
        step = -step;
      std::string t[3];
      uint8_t b[8];
      for (int k = 0; k < 3; k++)
      {
        int v = k == 0 ? s0 : k == 1 ? step : s0 + step * (int)(ne - 1);
        if (isf(a.ht))
          stf(a.ht, b, v);
        else
          st(a.ht, b, wrap(a.ht, v));
        t[k] = vtext(q, a.ht, a.hex, b);
      }
      a.range = t[0] + ":" + t[1] + ":" + t[2];
      for (size_t j = 0; j < ne; j++)
        if (isf(a.ht))
          stf(a.ht, &a.data[j * TS[a.ht]], s0 + step * (int)j);
        else
          st(a.ht, &a.data[j * TS[a.ht]], wrap(a.ht, s0 + step * (int)j));
    }
  }
  // ------------------------------------------------------------ the kernel
  std::string kname = q(2) ? "k" : "sim_kernel";
  auto tname = [&](const Arg &a) { return std::string(TN[a.t]) + (a.w > 1 ? std::to_string(a.w) : ""); };
  std::string src;
  if (q(2))
    src += "// " + std::string(q(4000), 'x') + "\n";
  src += "kernel void " + kname + "(";
  for (size_t i = 0; i < A.size(); i++)
  {
    Arg &a = A[i];
    src += i ? ", " : "";
    if (a.kind == K_SCAL)
      src += tname(a) + " " + a.name;
    else
      src += (a.kind == K_CONST ? "constant " : a.kind == K_LOCAL ? "local " : "global ") + tname(a) + " *" + a.name;
  }
  src += ")\n{\n  size_t N = get_global_size(0) * get_global_size(1) * get_global_size(2);\n"
         "  size_t g = get_global_id(0) + get_global_size(0) * (get_global_id(1) + get_global_size(1) * get_global_id(2));\n"
         "  size_t l = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));\n"
         "  size_t n = get_local_size(0) * get_local_size(1) * get_local_size(2);\n  int x = 0;\n";
  for (auto &a : A)
    if (a.kind == K_LOCAL)
      src += "  " + a.name + "[l] = (" + tname(a) + ")(l * 3 + 1);\n";
    else if (a.kind == K_NULL)
      src += "  if (!" + a.name + ") x++;\n";
  src += "  barrier(CLK_LOCAL_MEM_FENCE);\n";
  for (auto &a : A)
    if (a.kind == K_LOCAL)
      src += "  x += (int)" + a.name + "[(l + 1) % n];\n";
  for (auto &a : A)
    if (a.writable)
    {
      size_t n = a.size / TS[a.t];
      std::string e = "(" + std::string(TN[a.t]) + ")x";
      for (auto &b : A)
      {
        if (isf(b.t) != isf(a.t))
          continue;
        if (b.kind == K_SCAL)
          e += " + (" + std::string(TN[a.t]) + ")" + b.name + (b.w > 1 ? ".s0" : "");
        if (b.kind == K_SCAL && b.w > 1)
          e += " + (" + std::string(TN[a.t]) + ")" + b.name + ".s" + std::to_string(b.w - 1);
        if ((b.kind == K_BUF && !b.writable) || b.kind == K_CONST)
          e += " + (" + std::string(TN[a.t]) + ")((" + (b.kind == K_CONST ? "constant " : "global ") + TN[b.t] + "*)" + b.name + ")[i % " +
               std::to_string(b.size / TS[b.t]) + "]";
      }
      std::string me = "((global " + std::string(TN[a.t]) + "*)" + a.name + ")[i]";
      if (a.readable)
        e += " + " + me + (isf(a.t) ? "" : " * 3");
      src += "  for (size_t i = g; i < " + std::to_string(n) + "; i += N)\n    " + me + " = (" + TN[a.t] + ")(" + e + ");\n";
    }
  src += "}\n";
  // ------------------------------------------------------------ the model
  std::vector<Arg> M = A;
  for (size_t z = 0, g = 0; z < nd[2]; z++)
    for (size_t y = 0; y < nd[1]; y++)
      for (size_t x = 0; x < nd[0]; x++, g++)
      {
        size_t id[3] = {x, y, z}, ls[3], li[3];
        for (int d = 0; d < 3; d++)
        {
          size_t gr = id[d] / wg[d];
          ls[d] = std::min(wg[d], nd[d] - gr * wg[d]);
          li[d] = id[d] - gr * wg[d];
        }
        size_t l = li[0] + ls[0] * (li[1] + ls[1] * li[2]), n = ls[0] * ls[1] * ls[2];
        int xv = 0;
        for (auto &a : A)
          if (a.kind == K_LOCAL)
            xv += (int)((l + 1) % n * 3 + 1);
          else if (a.kind == K_NULL)
            xv++;
        for (auto &a : M)
          if (a.writable)
            for (size_t i = g; i < a.size / TS[a.t]; i += N)
            {
              uint64_t u = xv;
              double f = xv;
              for (auto &b : A)
              {
                if (isf(b.t) != isf(a.t))
                  continue;
                auto add = [&](size_t j) {
                  if (isf(a.t))
                    f += ldf(b.t, &b.data[j * TS[b.t]]);
                  else
                    u += sext(b.t, ld(b.t, &b.data[j * TS[b.t]]));
                };
                if (b.kind == K_SCAL)
                  add(0);
                if (b.kind == K_SCAL && b.w > 1)
                  add(b.w - 1);
                if ((b.kind == K_BUF && !b.writable) || b.kind == K_CONST)
                  add(i % (b.size / TS[b.t]));
              }
              if (a.readable)
              {
                if (isf(a.t))
                  f += ldf(a.t, &a.data[i * TS[a.t]]);
                else
                  u += 3 * sext(a.t, ld(a.t, &a.data[i * TS[a.t]]));
              }
              if (isf(a.t))
                stf(a.t, &a.data[i * TS[a.t]], f);
              else
                st(a.t, &a.data[i * TS[a.t]], wrap(a.t, u));
            }
      }
  std::string want;
  for (auto &a : M)
    if (a.dump)
    {
      want += "\nArgument '" + a.name + "': " + std::to_string(a.size) + " bytes\n";
      for (size_t i = 0; i < a.size / TS[a.ht]; i++)
        want += dumpline(a, i) + "\n";
      want += "\n";
    }
  // ------------------------------------------------------------ program file
  if (r.scratch.empty())
  {
    char b[64];
    snprintf(b, sizeof b, "/tmp/dsim-sim-%010d", (int)getpid());
    r.scratch = b;
  }
  r.make_scratch();
  std::string pf = r.scratch + "/prog", sf = r.scratch + "/sim";
  unlink(pf.c_str()); // left by an earlier process that was killed
  rmdir(pf.c_str());
  std::string opts = cl12 ? "-cl-std=CL1.2" : "-cl-std=CL3.0", bytes = src;
  if (bad == B_SOURCE)
    bytes = src = "kernel void k(global int *a) { a[0] = undeclared_thing; }\n";
  if (!source)
  {
    cl_int err;
    const char *sp = src.c_str();
    cl_program prog = clCreateProgramWithSource(CTX, 1, &sp, NULL, &err);
    err = clBuildProgram(prog, 0, NULL, opts.c_str(), NULL, NULL);
    if (err != CL_SUCCESS)
    {
      static char log[20000];
      clGetProgramBuildInfo(prog, g_device, CL_PROGRAM_BUILD_LOG, sizeof log, log, NULL);
      r.fail("build", "generated kernel does not build: %.1500s", log);
    }
    size_t sz = 0;
    clGetProgramInfo(prog, CL_PROGRAM_BINARY_SIZES, sizeof sz, &sz, NULL);
    bytes.resize(sz);
    unsigned char *pp = (unsigned char *)&bytes[0];
    clGetProgramInfo(prog, CL_PROGRAM_BINARIES, sizeof pp, &pp, NULL);
    clReleaseProgram(prog);
    if (bad == B_TRUNCBC)
      bytes.resize(3 + q(sz / 2));
  }
  auto put = [&](const std::string &path, const std::string &s) {
    int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size())
      r.fail("harness", "cannot write %s", path.c_str());
    close(fd);
  };
  if (bad == B_DIR)
    mkdir(pf.c_str(), 0700);
  else if (bad != B_NOPROG)
    put(pf, bytes);
  // ------------------------------------------------------------ simulation file
  std::vector<Tok> T;
  auto tok = [&](const std::string &s, int a, bool h = false) { T.push_back({s, a, h}); };
  tok(pf, -1);
  tok(kname, -2);
  for (int i = 0; i < 3; i++)
    tok(std::to_string(nd[i]), -3);
  for (int i = 0; i < 3; i++)
    tok(std::to_string(wg[i]), -4);
  std::string expect; // part of the diagnostic
  auto pick = [&](std::function<bool(const Arg &)> f) {
    std::vector<int> v;
    for (size_t i = 0; i < A.size(); i++)
      if (f(A[i]))
        v.push_back(i);
    return v.empty() ? -1 : v[q(v.size())];
  };
  auto isbuf = [](const Arg &a) { return a.kind == K_BUF || a.kind == K_CONST; };
  int victim = -1;
  switch (bad)
  {
  case B_NOSIZE: case B_SIZEVAL:
    victim = pick([](const Arg &a) { return a.kind != K_NULL; });
    break;
  case B_TOKEN: case B_NOOPEN: case B_NOCLOSE:
    victim = q(A.size());
    break;
  case B_VALUE:
    victim = pick([](const Arg &a) { return a.kind != K_LOCAL && a.kind != K_NULL && a.fill.empty() && a.range.empty() && !a.noinit; });
    break;
  case B_MULT:
    victim = pick([&](const Arg &a) { return isbuf(a) && TS[a.ht] > 1; });
    break;
  case B_INITS: case B_RANGE:
    victim = pick([&](const Arg &a) { return isbuf(a) && (bad != B_RANGE || !a.range.empty()); });
    break;
  case B_CHAR:
    victim = A.size() - 1;
    A[victim].ht = A[victim].t;
    A[victim].fill = A[victim].range = "";
    A[victim].noinit = A[victim].hex = false;
    break;
  case B_NOTBUF: case B_DUMP:
    victim = pick([&](const Arg &a) { return !isbuf(a) && a.kind != K_NULL; });
    break;
  case B_ROWO:
    victim = pick([&](const Arg &a) { return a.kind == K_BUF; });
    break;
  case B_TYPES:
    victim = pick([&](const Arg &a) { return a.expl && a.kind != K_NULL; });
    break;
  case B_ARGSIZE:
    victim = pick([&](const Arg &a) { return a.kind == K_SCAL; });
    break;
  case B_HUGE:
    victim = pick([&](const Arg &a) { return isbuf(a) || a.kind == K_SCAL; });
    break;
  case B_FILL:
    victim = pick([&](const Arg &a) { return !a.fill.empty(); });
    break;
  case B_NULLMIX:
    victim = pick([&](const Arg &a) { return a.kind == K_NULL; });
    break;
  case B_WGZERO:
    T[5 + q(3)].s = "0";
    expect = "ork-group size";
    break;
  case B_KNAME:
    T[1].s = q(2) ? kname + "x" : "nokernel";
    expect = "Failed to create kernel " + T[1].s;
    break;
  case B_NOPROG: case B_DIR:
    expect = "nable to ";
    break;
  case B_NOSIM:
    expect = "Unable to open simulator file";
    break;
  case B_SOURCE:
    expect = "Build failure";
    break;
  case B_DIVIDE:
    expect = "divide NDRange";
    break;
  case B_TRUNCBC:
    expect = "Failed to load bitcode";
    break;
  case B_EXTRA:
    expect = "Unexpected token";
    break;
  case B_TRUNC:
    expect = "Unexpected EOF when parsing";
    break;
  }
  if (bad && bad != B_CMD && expect.empty() && victim < 0)
    bad = B_NONE;
  std::string badtok;
  for (size_t i = 0; i < A.size(); i++)
  {
    Arg &a = A[i];
    std::vector<std::string> h;
    bool v = (int)i == victim;
    auto num = [](size_t n) { return std::to_string(n); };
    if (a.kind == K_NULL)
      h.push_back("null");
    else
    {
      size_t sz = a.size;
      if (v && bad == B_MULT)
        sz++, expect = "must exactly divide";
      if (v && bad == B_HUGE)
        sz = ~0ull << (3 + q(20)), expect = "rgument";
      if (v && bad == B_ARGSIZE)
      {
        sz = q(2) ? sz * 2 : sz / 2 / TS[a.ht] * TS[a.ht];
        expect = "rgument";
      }
      if (v && bad == B_SIZEVAL)
      {
        expect = "Invalid value for 'size'";
        h.push_back(q(2) ? "size=" : "size=4x");
      }
      else if (!(v && bad == B_NOSIZE))
        h.push_back("size=" + num(sz));
      else
        expect = "size required";
    }
    if (a.expl && a.kind != K_NULL)
      h.push_back(TN[a.ht]);
    if (v && bad == B_TYPES)
      h.push_back(TN[q(NT)]), expect = "type defined multiple times";
    if (a.dump)
      h.push_back("dump");
    if (a.hex)
      h.push_back("hex");
    if (a.noinit)
      h.push_back("noinit");
    if (!a.acc.empty())
      h.push_back(a.acc);
    if (!a.fill.empty())
      h.push_back("fill=" + a.fill + (v && bad == B_FILL ? "?" : ""));
    if (v && bad == B_FILL)
      expect = "Invalid fill value";
    if (!a.range.empty())
      h.push_back("range=" + a.range + (v && bad == B_RANGE ? "1" : ""));
    if (v && bad == B_RANGE)
      expect = TS[a.ht] == 1 ? "rgument" : "ange";
    if (v && bad == B_INITS)
    {
      if (a.fill.empty())
        h.push_back("fill=1");
      if (a.range.empty() && (a.fill.empty() || !a.noinit))
        h.push_back("range=1:1:1");
      expect = "Multiple initializers";
    }
    if (v && bad == B_TOKEN)
    {
      std::string w = q(2) ? "sizzle=4" : "readonly_and_a_rather_long_token";
      h.push_back(w);
      expect = "Unrecognised header token '" + w + "'";
    }
    if (v && bad == B_NOTBUF)
    {
      static const char *W[] = {"noinit", "null", "ro", "wo"};
      std::string w = W[q(4)];
      h.push_back(w);
      expect = "'" + w + "' only valid for";
    }
    if (v && bad == B_DUMP)
      h.push_back("dump"), expect = "'dump' only valid for";
    if (v && bad == B_ROWO)
    {
      if (a.acc != "ro")
        h.push_back("ro");
      if (a.acc != "wo")
        h.push_back("wo");
      expect = "'ro' and 'wo' are mutually exclusive";
    }
    if (v && bad == B_NULLMIX)
    {
      h.push_back(q(2) ? "size=16" : q(2) ? "fill=1" : "noinit");
      expect = "'null' not valid with";
    }
    // order matters for hex only: fill values are read with the final format
    for (size_t k = h.size(); k > 1; k--)
      std::swap(h[k - 1], h[q(k)]);
    std::string hs = v && bad == B_NOOPEN ? "" : "<";
    if (v && bad == B_NOOPEN)
      expect = "Expected argument header";
    for (size_t k = 0; k < h.size(); k++)
      hs += (k ? q(4) ? " " : "  " : q(6) ? "" : " ") + h[k];
    if (v && bad == B_NOCLOSE)
      expect = "Missing '>'";
    else
      hs += q(6) ? ">" : " >";
    tok(hs, i, true);
    if (a.kind == K_LOCAL || a.kind == K_NULL || a.noinit || !a.fill.empty() || !a.range.empty())
      continue;
    size_t ne = a.size / TS[a.ht], wrong = q(ne);
    for (size_t j = 0; j < ne; j++)
    {
      std::string t = vtext(q, a.ht, a.hex, &a.data[j * TS[a.ht]]);
      if (v && j == wrong && bad == B_VALUE)
      {
        badtok = t = q(2) ? "zz" : "*";
        expect = "@Failed to parse argument " + std::to_string(i) + ": " + a.name;
      }
      if (v && j == wrong && bad == B_CHAR)
      {
        badtok = t = a.ht == CHR ? (q(2) ? "128" : "-129") : q(2) ? "256" : "-1";
        expect = "@Invalid char value (argument " + std::to_string(i) + ": " + a.name + ")";
      }
      tok(t, i);
    }
  }
  if (bad == B_EXTRA)
    tok(q(2) ? "17" : "<size=4>", 99);
  if (bad == B_TRUNC)
  {
    size_t n = q(T.size());
    int a = T[n].arg;
    // the token at which the end is noticed
    if (a == -1)
      expect += " program file";
    else if (a == -2)
      expect += " kernel";
    else if (a == -3)
      expect += " NDRange";
    else if (a == -4)
      expect += " work-group size";
    else
      expect += " argument " + std::to_string(a) + ": " + A[a].name;
    T.resize(n);
  }
  std::string sim;
  size_t line = 1, badline = 0;
  bool dense = q(2);
  if (q(3) == 0)
    sim += "# a comment <size=4> 5\n", line++;
  for (size_t i = 0; i < T.size(); i++)
  {
    if (i || q(4) == 0)
    {
      bool nl = T[i].header ? q(6) != 0 : q(dense ? 12 : 3) == 0;
      if (bad == B_NOCLOSE && i && T[i - 1].header)
        nl = true; // a later '>' would end the header
      if (T[i].header && bad == B_NOOPEN)
        nl = true;
      if (nl)
      {
        int k = 1 + q(3);
        while (k--)
        {
          if (q(3) == 0)
            sim += q(2) ? " # c" : "#1 <size=4> >";
          sim += "\n";
          line++;
          if (q(4) == 0)
            sim += "  ";
        }
      }
      else
        sim += q(5) ? " " : q(2) ? "\t" : "   ";
    }
    sim += T[i].s;
    if (!badtok.empty() && T[i].s == badtok && T[i].arg == victim && !T[i].header && !badline)
      badline = line;
  }
  switch (q(4))
  {
  case 0: break;
  case 1: sim += "\n"; break;
  case 2: sim += "\n\n  \n"; break;
  case 3: sim += " # the end\n# really\n"; break;
  }
  if (bad == B_NOCLOSE && T.size())
    ; // nothing else to do
  if (!expect.empty() && expect[0] == '@')
    expect = "Line " + std::to_string(badline) + ": " + expect.substr(1);
  put(sf, sim);
  int workers = 1 + q(4);
  std::vector<std::string> av = {"oclgrind-kernel"};
  // options, and the simulation file, in any order
  std::vector<std::vector<std::string>> O;
  auto num = [](uint64_t v) { return std::to_string(v); };
  if (source)
    O.push_back({"--build-options", opts});
  if (q(2))
    O.push_back({"--num-threads", num(workers)});
  if (q(5) == 0)
    O.push_back({"--data-races"});
  if (q(8) == 0)
    O.push_back({"--constant-mem-size", num(65536ull << q(20))});
  if (q(8) == 0)
    O.push_back({"--local-mem-size", num(32768ull << q(12))});
  if (q(8) == 0)
    O.push_back({"--global-mem-size", num(134217728ull << q(12))});
  if (q(8) == 0)
    O.push_back({"--compute-units", num(1 + q(64))});
  if (q(8) == 0)
    O.push_back({"--max-wgsize", num(64 << q(8))});
  if (q(8) == 0)
    O.push_back({"--max-errors", num(1 + q(2000))});
  if (q(12) == 0)
    O.push_back({"--uninitialized"});
  std::string lf = r.scratch + ".log"; // no faults there
  bool logged = q(8) == 0;
  if (logged)
    O.push_back({"--log", lf});
  if (q(16) == 0 && getenv("OCLGRIND_PCH_DIR"))
    O.push_back({"--pch-dir", getenv("OCLGRIND_PCH_DIR")});
  bool gdump = q(5) == 0;
  if (gdump)
    O.push_back({q(2) ? "-g" : "--global-mem"});
  bool hist = bad != B_CMD && q(24) == 0; // a report of the executed instructions comes first
  if (hist)
    O.push_back({"--inst-counts"});
  O.push_back({bad == B_NOSIM ? sf + "x" : sf});
  for (size_t k = O.size(); k > 1; k--)
    std::swap(O[k - 1], O[q(k)]);
  int leave = 0; // 1 usage on the standard output, 2 nothing to run
  if (bad == B_CMD)
  {
    static const char *W[] = {"--build-options", "--compute-units", "--constant-mem-size", "--global-mem-size",
                              "--local-mem-size", "--log", "--max-errors", "--max-wgsize", "--num-threads",
                              "--pch-dir", "--plugins"};
    static const char *U[] = {"--check-api", "--stop-errors", "-x", "-", "--", "--num-thread", "--quickly", "-gq", "--log="};
    size_t at = q(O.size() + 1);
    switch (q(6))
    {
    case 0:
    {
      std::string w = W[q(11)];
      O.push_back({w});
      expect = "Missing argument to " + w;
      break;
    }
    case 1:
    {
      std::string w = U[q(9)];
      O.insert(O.begin() + at, {w});
      expect = "Unrecognised option '" + w + "'";
      break;
    }
    case 2:
    {
      size_t f = 0;
      while (O[f][0] != sf)
        f++;
      std::string w = q(2) ? "another" : sf + "2";
      O.insert(O.begin() + at, {w});
      expect = "Unexpected positional argument '" + (at <= f ? sf : w) + "'";
      break;
    }
    case 3:
      for (size_t k = 0; k < O.size(); k++)
        if (O[k][0] == sf)
        {
          O.erase(O.begin() + k);
          break;
        }
      leave = 1;
      break;
    case 4:
      O.insert(O.begin() + at, {std::string(q(2) ? "-h" : "--help")});
      leave = 2;
      break;
    case 5:
      O.insert(O.begin() + at, {std::string(q(2) ? "-v" : "--version")});
      leave = 3;
      break;
    }
  }
  for (auto &o : O)
    av.insert(av.end(), o.begin(), o.end());
  r.d("ndrange %zu,%zu,%zu groups %zu,%zu,%zu %s, %s", nd[0], nd[1], nd[2], wg[0], wg[1], wg[2],
      source ? "source" : "bitcode", BN[bad]);
  std::string cmd;
  for (auto &s : av)
    cmd += s + " ";
  r.d("%s", cmd.c_str());
  if (r.desc)
    for (auto *s : {&src, &sim})
      for (size_t p = 0; p < s->size();)
      {
        size_t e = s->find('\n', p);
        if (e == std::string::npos)
          e = s->size();
        r.d("%.500s", s->substr(p, e - p).c_str());
        p = e + 1;
      }
  // ------------------------------------------------------------ run
  if (faults)
  {
    bool hard = q(2);
    r.cfg.p_eio = hard ? 0.12 : 0;
    r.cfg.p_openfail = hard ? 0.08 : 0;
    r.cfg.p_eintr = 0.15;
    r.cfg.p_short = 0.5;
    r.cfg.max_io_faults = 1 + q(8);
  }
  std::string pre = r.scratch + "/";
  r.cfg.io_prefix = pre.c_str();
  std::vector<char *> argv;
  for (auto &s : av)
    argv.push_back(&s[0]);
  argv.push_back(NULL);
  if (q(2))
    set_threads(workers);
  capture_reset();
  volatile int rc = -1;
  r.begin();
  volatile bool left = false;
  if (setjmp(g_left) == 0)
    rc = oclgrind_kernel_main(av.size(), argv.data());
  else
  {
    rc = g_code;
    left = true;
  }
  r.end();
  std::string out = captured_stdout(), err = captured_stderr();
  struct stat lst;
  if (logged && !leave && stat(lf.c_str(), &lst) == 0 && lst.st_size && !bad)
    r.fail("sim", "the log of a valid simulation is not empty");
  unlink(lf.c_str());
  unlink(sf.c_str());
  unlink(pf.c_str());
  if (bad == B_DIR)
    rmdir(pf.c_str());
  rmdir(r.scratch.c_str());
  bool hardfault = dsim_fault_count(DF_EIO) || dsim_fault_count(DF_OPENFAIL);
  if (left != (leave >= 2))
    r.fail("sim", left ? "exited without being asked to" : "%s did not exit", leave == 2 ? "--help" : "--version");
  if (bad == B_CMD)
    r.stat(leave == 1 ? "no_file_given" : leave == 2 ? "help" : leave == 3 ? "version" : "bad_command_lines");
  if (leave)
  {
    if (rc != (leave == 1))
      r.fail("sim", "exit status %d for a command without %s", rc, leave == 1 ? "a file" : "a simulation");
    if (!err.empty())
      r.fail("sim", "unexpected diagnostic: %.600s", err.c_str());
    if (leave < 3)
    {
      static const char *W[] = {"Usage: oclgrind-kernel", "--build-options", "--compute-units", "--constant-mem-size",
                                "--data-races", "--disable-pch", "--dump-spir", "--global-mem", "[-g]", "--global-mem-size",
                                "--help", "--inst-counts", "--interactive", "[-i]", "--local-mem-size", "--log",
                                "--max-errors", "--max-wgsize", "--num-threads", "--pch-dir", "--plugins", "--quick", "[-q]",
                                "--uniform-writes", "--uninitialized", "--version"};
      for (auto *w : W)
        if (out.find(w) == std::string::npos)
          r.fail("sim", "the usage does not mention %s", w);
    }
    else if (out.find("Oclgrind ") == std::string::npos)
      r.fail("sim", "no version printed");
  }
  else if (hardfault || bad)
  {
    if (rc == 0)
      r.fail("sim", "%s, but the run succeeded: %.600s", hardfault ? "an input could not be read" : BN[bad], out.c_str());
    if (err.empty())
      r.fail("sim", "%s, but there was no diagnostic", hardfault ? "an input could not be read" : BN[bad]);
    if (!out.empty())
      r.fail("sim", "failed, but printed: %.600s", out.c_str());
    if (!hardfault && err.find(expect) == std::string::npos)
      r.fail("sim", "%s: expected '%s' in the diagnostic: %.600s", BN[bad], expect.c_str(), err.c_str());
    r.stat(hardfault ? "unreadable_input" : "malformed_files");
  }
  else
  {
    if (rc != 0 || !err.empty())
      r.fail("sim", "valid simulation failed with %d: %.900s", rc, err.c_str());
    if (hist)
    {
      if (out.find("Instructions executed for kernel") != 0)
        r.fail("sim", "no instruction counts");
      size_t e = out.find("\n\n");
      out = out.substr(e == std::string::npos ? 0 : e + 2);
    }
    std::string gm;
    size_t gp = out.find("\nGlobal Memory:\n");
    if (gp != std::string::npos)
      gm = out.substr(gp + 16), out.resize(gp);
    if (gdump != (gp != std::string::npos))
      r.fail("sim", gdump ? "no dump of global memory" : "unwanted dump of global memory");
    if (gdump)
    {
      // every buffer, byte by byte, in the order of the arguments
      std::vector<std::vector<uint8_t>> B;
      uint64_t next = 0;
      std::istringstream in(gm);
      std::string l;
      while (std::getline(in, l))
      {
        char *e;
        if (l.empty())
          continue;
        uint64_t a = strtoull(l.c_str(), &e, 16);
        if (*e != ':')
          break;
        if (a != next || B.empty())
          B.push_back({});
        next = a;
        for (;;)
        {
          if (!*e)
            break;
          char *f = e + 1;
          unsigned long v = strtoul(f, &e, 16);
          if (e == f || v > 255)
            break;
          B.back().push_back(v);
          next++;
        }
      }
      size_t b = 0;
      for (auto &a : M)
      {
        if ((a.kind != K_BUF && a.kind != K_CONST) || a.noinit)
          continue;
        while (b < B.size() && B[b] != a.data)
          b++;
        if (b++ >= B.size())
          r.fail("sim", "the dump of global memory does not show the buffer of argument %s: %.1500s", a.name.c_str(), gm.c_str());
      }
      r.stat("memory_dumps");
    }
    if (out != want)
    {
      size_t p = 0;
      while (p < out.size() && p < want.size() && out[p] == want[p])
        p++;
      p = p > 40 ? p - 40 : 0;
      r.fail("sim", "output differs at %zu: got '%.200s' instead of '%.200s'", p, out.c_str() + std::min(p, out.size()),
             want.c_str() + std::min(p, want.size()));
    }
    r.stat("simulations");
  }
  r.stat(source ? "source" : "bitcode");
}
static RegWorkload reg("sim", setup, run);
} // namespace
