// Random kernel printf programs (C13): every conversion, flag, width, precision,
// length modifier and vector size, several statements per work-item in loops,
// branches and functions, on several workers.
#include "h.h"
#include <cmath>

namespace
{
static cl_context CTX;
static const int NV = 16; // values of each kind

// kinds of argument
enum { CHR, UCH, SHT, USH, INT, UIN, LNG, ULN, FLT, DBL, STR, NK };
static const char *TN[] = {"char", "uchar", "short", "ushort", "int", "uint",
                           "long", "ulong", "float", "double"};
static const int SZ[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};

struct Conv
{
  std::string text; // literal text in front
  std::string fl;   // flags, width, precision
  std::string len;  // length modifier
  int vec = 1;
  char c = 0; // 0: text only
  int kind = INT;
  int base = 0;    // index of the first value
  bool step = false; // depends on the work-item
  std::string str; // literal argument of %s
};
struct Stmt
{
  std::vector<Conv> v;
  std::string tail;
  int cond = 0;  // 0 always, 1 odd ids, 2 low ids, 3 a branch that is never taken
  int loop = 1;  // repetitions
  bool fn = false;
  bool bar = false; // barrier in front
  bool ret = false; // result is recorded
};

static std::string lit(const std::string &s)
{
  std::string r;
  for (char c : s)
    if (c == '"' || c == '\\')
      r += '\\', r += c;
    else if (c == '\t')
      r += "\\t";
    else
      r += c;
  return r;
}
// as printed / as written in the format
static std::string gentext(Rnd &q, bool fmt)
{
  static const char *W[] = {"a", "x=", ", ", " ", "value ", "(", ")", "\"", "\\", "\t",
                            "0", "d", "-", "%%", "v4", "h", "l", "[", "]", "s", ":;"};
  std::string s;
  for (int n = q(4); n > 0; n--)
  {
    const char *w = W[q(21)];
    if (!strcmp(w, "%%") && !fmt)
      w = "%";
    s += w;
  }
  return s;
}
static std::string unesc(const std::string &s) // format text to output
{
  std::string r;
  for (size_t i = 0; i < s.size(); i++)
  {
    r += s[i];
    if (s[i] == '%')
      i++;
  }
  return r;
}
static Conv genconv(Rnd &q)
{
  Conv c;
  c.text = gentext(q, true);
  int t = q(10);
  static const char *IC = "diouxX", *FC = "fFeEgGaA";
  bool flags = q(2);
  auto fl = [&](const char *set, bool prec) {
    if (!flags)
      return;
    for (const char *p = set; *p; p++)
      if (q(4) == 0)
        c.fl += *p;
    if (q(2))
      c.fl += std::to_string(1 + q(20));
    if (prec && q(2))
      c.fl += "." + std::to_string(q(12));
  };
  static const int VW[] = {2, 3, 4, 8, 16};
  if (t < 6)
  {
    c.vec = q(3) == 0 ? VW[q(5)] : 1;
    if (q(5) < 3)
    {
      c.c = IC[q(6)];
      bool sg = c.c == 'd' || c.c == 'i';
      fl(sg ? "-+ 0" : c.c == 'u' ? "-0" : "-#0", true);
      int l = q(4); // hh h none/hl l
      static const char *LS[] = {"hh", "h", "", "l"}, *LV[] = {"hh", "h", "hl", "l"};
      c.len = c.vec > 1 ? LV[l] : LS[l];
      c.kind = l * 2 + (q(8) ? !sg : sg);
    }
    else
    {
      c.c = FC[q(8)];
      fl("-+ 0#", true);
      c.kind = q(2) ? FLT : DBL;
      c.len = c.vec > 1 ? (c.kind == FLT ? "hl" : "l") : "";
    }
  }
  else if (t == 6)
  {
    c.c = 'c';
    fl("-", false);
    c.kind = CHR;
  }
  else if (t == 7)
  {
    c.c = 's';
    fl("-", true);
    c.kind = STR;
    c.str = gentext(q, false);
    if (q(3) == 0)
      c.str += gentext(q, false) + "longer text for the argument";
  }
  c.base = q(NV);
  c.step = q(2);
  return c;
}
struct Vals
{
  uint64_t u[10][NV];
};
static double fval(const Vals &v, int k, int i)
{
  if (k == FLT)
  {
    uint32_t x = v.u[k][i];
    float f;
    memcpy(&f, &x, 4);
    return f;
  }
  double d;
  memcpy(&d, &v.u[k][i], 8);
  return d;
}
static std::string render(const Conv &c, const Vals &v, size_t item, int it)
{
  std::string out = unesc(c.text);
  if (!c.c)
    return out;
  char b[2000];
  if (c.c == 's')
  {
    snprintf(b, sizeof b, ("%" + c.fl + "s").c_str(), c.str.c_str());
    return out + b;
  }
  for (int j = 0; j < c.vec; j++)
  {
    if (j)
      out += ",";
    int i = (c.base + (c.step ? (int)item + it : 0) + j) % NV;
    if (c.kind == FLT || c.kind == DBL)
      snprintf(b, sizeof b, ("%" + c.fl + c.c).c_str(), fval(v, c.kind, i));
    else if (c.c == 'c')
      snprintf(b, sizeof b, ("%" + c.fl + "c").c_str(), (int)('!' + v.u[UCH][i] % 90));
    else
    {
      uint64_t x = v.u[c.kind][i];
      // the value has the type of the argument, then that of the conversion
      int sh = 64 - 8 * SZ[c.kind];
      if (c.kind % 2 == 0)
        x = (uint64_t)((int64_t)(x << sh) >> sh);
      else
        x = x << sh >> sh;
      bool sg = c.c == 'd' || c.c == 'i';
      int n = c.len == "hh" ? 1 : c.len == "h" ? 2 : c.len == "l" ? 8 : 4;
      sh = 64 - 8 * n;
      x = sg ? (uint64_t)((int64_t)(x << sh) >> sh) : x << sh >> sh;
      snprintf(b, sizeof b, ("%" + c.fl + "ll" + c.c).c_str(), (long long)x);
    }
    out += b;
  }
  return out;
}

static void setup(const std::string &)
{
  setenv("OCLGRIND_PLUGINS", BUILD_DIR "/libobs.so", 1);
  obs_hooks.threadsafe = 1;
  cl_setup_platform();
  CTX = cl_new_context();
  cl_build(CTX, "kernel void warm(global int *a) { printf(\"%d\", 1); }", "");
}

static void run(Run &r)
{
  Rnd &q = r.rng;
  // program
  std::vector<Stmt> P;
  int ns = 1 + q(5);
  for (int i = 0; i < ns; i++)
  {
    Stmt s;
    int nc = q(5);
    for (int j = 0; j < nc; j++)
    {
      Conv c = genconv(q);
      if (r.keep())
        s.v.push_back(c);
    }
    s.tail = gentext(q, true);
    s.cond = q(3) ? 0 : q(4);
    s.loop = q(3) ? 1 : 1 + q(3);
    s.fn = q(3) == 0;
    s.bar = q(6) == 0;
    s.ret = q(3) == 0;
    if (r.keep())
      P.push_back(s);
  }
  // values
  Vals v;
  static const int64_t E[] = {0, 1, -1, 127, -128, 128, 255, 256, 32767, -32768, 65535,
                              2147483647, -2147483648LL, 4294967295LL, INT64_MAX, INT64_MIN};
  static const double F[] = {0, -0.0, 1, -1, 0.5, 1e10, -1e-10, 123456.789, 1e38, 1e-40,
                             INFINITY, -INFINITY, 3.25, 99.9999999, 2.5, -7};
  for (int k = 0; k < FLT; k++)
    for (auto &x : v.u[k])
    {
      x = q(2) ? E[q(16)] : q(2) ? q(200) : q.next();
      if (SZ[k] < 8)
        x &= (1ull << (8 * SZ[k])) - 1;
    }
  for (int i = 0; i < NV; i++)
  {
    double d = q(2) ? F[q(16)] : (int64_t)(q.next() >> q(60)) / 977.0;
    float f = d;
    uint32_t x;
    memcpy(&x, &f, 4);
    v.u[FLT][i] = x;
    memcpy(&v.u[DBL][i], &d, 8);
  }
  // source
  std::string src = "#define NV 16\n", fns, body;
  std::string par, args;
  for (int k = 0; k < 10; k++)
  {
    par += std::string("global const ") + TN[k] + " *v" + std::to_string(k) + ", ";
    args += "v" + std::to_string(k) + ", ";
  }
  for (size_t i = 0; i < P.size(); i++)
  {
    Stmt &s = P[i];
    std::string f = "[%u.%d " , a = "id, i" + std::to_string(i);
    for (auto &c : s.v)
    {
      f += lit(c.text);
      if (!c.c)
        continue;
      f += "%" + c.fl + (c.vec > 1 ? "v" + std::to_string(c.vec) : "") + c.len + c.c;
      a += ", ";
      if (c.c == 's')
      {
        a += "\"" + lit(c.str) + "\"";
        continue;
      }
      std::string ix = std::to_string(c.base) + (c.step ? " + id + i" + std::to_string(i) : "");
      if (c.vec > 1)
        a += "(" + std::string(TN[c.kind]) + std::to_string(c.vec) + ")(";
      for (int j = 0; j < c.vec; j++)
      {
        std::string e = "v" + std::to_string(c.c == 'c' ? (int)UCH : c.kind) + "[(" + ix + " + " +
                        std::to_string(j) + ") % NV]";
        if (c.c == 'c')
          e = "(char)('!' + " + e + " % 90)";
        a += (j ? ", " : "") + e;
      }
      if (c.vec > 1)
        a += ")";
    }
    std::string call =
      "printf(\"" + f + lit(s.tail) + "]\\n\", " + a + ");";
    std::string ix = "i" + std::to_string(i);
    std::string st;
    if (s.fn)
    {
      fns += "int f" + std::to_string(i) + "(" + par + "uint id, int " + ix + ")\n{\n  return " + call + "\n}\n";
      call = "f" + std::to_string(i) + "(" + args + "id, " + ix + ");";
    }
    if (s.bar)
      body += "  barrier(CLK_LOCAL_MEM_FENCE);\n";
    std::string in = s.ret ? "res[id * 8 + " + std::to_string(i) + "] |= " + call : call;
    if (s.cond)
      in = std::string("if (") + (s.cond == 1 ? "id & 1" : s.cond == 2 ? "id < 3" : "id > 100000") + ") " + in;
    body += "  for (int " + ix + " = 0; " + ix + " < " + std::to_string(s.loop) + "; " + ix + "++)\n    " + in + "\n";
  }
  src += fns + "kernel void pk(" + par +
         "global int *res)\n{\n  uint id = get_global_id(0) + get_global_size(0) * get_global_id(1);\n" +
         body + "}\n";
  size_t ls[2] = {1 + q(4), 1 + q(2)};
  size_t gs[2] = {ls[0] * (1 + q(3)), ls[1] * (1 + q(2))};
  size_t items = gs[0] * gs[1];
  static const char *opts[] = {"", "-cl-opt-disable", "-O1", "-O2", ""};
  std::string opt = opts[q(5)];
  opt += q(2) ? " -cl-std=CL1.2" : " -cl-std=CL3.0";
  int workers = 1 + q(5);
  r.d("global=(%zu,%zu) local=(%zu,%zu) workers=%d options '%s'", gs[0], gs[1], ls[0], ls[1], workers,
      opt.c_str());
  if (r.desc)
    for (size_t p = 0; p < src.size();)
    {
      size_t e = src.find('\n', p);
      r.d("%.600s", src.substr(p, e - p).c_str());
      p = e + 1;
    }
  // expected lines of each work-item; the loops give them an order
  std::vector<std::vector<std::string>> want(items);
  std::vector<std::vector<std::string>> head(items);
  for (size_t id = 0; id < items; id++)
    for (size_t i = 0; i < P.size(); i++)
    {
      Stmt &s = P[i];
      if ((s.cond == 1 && !(id & 1)) || (s.cond == 2 && id >= 3) || s.cond == 3)
        continue;
      for (int k = 0; k < s.loop; k++)
      {
        std::string l = "[" + std::to_string(id) + "." + std::to_string(k) + " ";
        for (auto &c : s.v)
          l += render(c, v, id, k);
        l += unesc(s.tail) + "]";
        want[id].push_back(l);
      }
    }
  cl_int err;
  const char *sp = src.c_str();
  cl_program prog = clCreateProgramWithSource(CTX, 1, &sp, NULL, &err);
  err = clBuildProgram(prog, 0, NULL, opt.c_str(), NULL, NULL);
  if (err != CL_SUCCESS)
  {
    static char log[20000];
    clGetProgramBuildInfo(prog, g_device, CL_PROGRAM_BUILD_LOG, sizeof log, log, NULL);
    r.fail("build", "generated kernel does not build: %.1500s", log);
  }
  capture_reset();
  std::vector<int> res(items * 8, 0);
  set_threads(workers);
  r.begin();
  cl_command_queue cq = clCreateCommandQueue(CTX, g_device, 0, &err);
  cl_kernel k = clCreateKernel(prog, "pk", &err);
  if (err != CL_SUCCESS)
    r.fail("api-status", "clCreateKernel returned %d: %.600s", err, captured_stderr().c_str());
  cl_mem m[11];
  for (int i = 0; i < 10; i++)
  {
    std::vector<uint8_t> b(NV * SZ[i]);
    for (int j = 0; j < NV; j++)
      memcpy(&b[j * SZ[i]], &v.u[i][j], SZ[i]);
    m[i] = clCreateBuffer(CTX, CL_MEM_READ_ONLY | CL_MEM_COPY_HOST_PTR, b.size(), b.data(), &err);
  }
  m[10] = clCreateBuffer(CTX, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, res.size() * 4, res.data(), &err);
  for (int i = 0; i < 11; i++)
    clSetKernelArg(k, i, sizeof m[i], &m[i]);
  r.require_cl(clEnqueueNDRangeKernel(cq, k, 2, NULL, gs, ls, 0, NULL, NULL), CL_SUCCESS,
               "clEnqueueNDRangeKernel");
  r.require_cl(clFinish(cq), CL_SUCCESS, "clFinish");
  clEnqueueReadBuffer(cq, m[10], CL_TRUE, 0, res.size() * 4, res.data(), 0, NULL, NULL);
  for (auto x : m)
    clReleaseMemObject(x);
  clReleaseKernel(k);
  clReleaseCommandQueue(cq);
  r.end();
  std::string e = captured_stderr();
  if (!e.empty())
    r.fail("unexpected-message", "diagnostic on a correct program: %.600s", e.c_str());
  std::string out = captured_stdout();
  std::vector<size_t> pos(items, 0);
  size_t lines = 0, total = 0;
  for (size_t p = 0; p < out.size(); lines++)
  {
    size_t n = out.find('\n', p);
    if (n == std::string::npos)
      r.fail("printf", "the last line is incomplete: '%.300s'", out.c_str() + p);
    std::string l = out.substr(p, n - p);
    p = n + 1;
    size_t id = strtoul(l.c_str() + (l[0] == '['), NULL, 10);
    if (l[0] != '[' || id >= items)
      r.fail("printf", "unexpected line '%.300s'", l.c_str());
    if (pos[id] >= want[id].size())
      r.fail("printf", "work-item %zu printed '%.300s' after all its output", id, l.c_str());
    if (want[id][pos[id]] != l)
      r.fail("printf", "work-item %zu printed '%.300s' instead of '%.300s'", id, l.c_str(),
             want[id][pos[id]].c_str());
    pos[id]++;
  }
  for (size_t i = 0; i < items; i++)
  {
    total += want[i].size();
    if (pos[i] != want[i].size())
      r.fail("printf", "work-item %zu printed %zu of %zu lines, missing '%.300s'", i, pos[i], want[i].size(),
             want[i][pos[i]].c_str());
  }
  for (int x : res)
    if (x)
      r.fail("printf-result", "printf returned %d", x);
  r.stat("printfs", total);
}
static RegWorkload reg("printf", setup, run);
} // namespace
