// Diagnostics (C11). Work-items of one or two contexts commit known errors; the log
// must hold every message whole, in order, with the right content, up to the limit.
#include "kern.h"
#include <algorithm>
#include <pthread.h>
#include <sys/stat.h>
#include <unistd.h>

namespace
{
static const char *HDR = "void hstore(global uint *a, uint x)\n"
                         "{\n"
                         "  uint two = 2;\n"
                         "\t a[x] = two; /*H*/\n"
                         "}\n";
static const char *SRC =
  "uint stat2(uint i)\n"
  "{\n"
  "  uint s[8][3];\n"
  "  s[i][1] = 5; /*X2*/\n"
  "  return 0;\n"
  "}\n"
  "uint stat3(uint i)\n"
  "{\n"
  "  uint s[8][3];\n"
  "  s[2][i] = 5; /*X3*/\n"
  "  return 0;\n"
  "}\n"
  "struct A { uint x; uint y[4]; };\n"
  "uint stat4(uint i)\n"
  "{\n"
  "  struct A s[5];\n"
  "  s[1].y[i] = 5; /*X4*/\n"
  "  return 0;\n"
  "}\n"
  "void last(global uint *a, uint x);\n"
  "uint stat(uint i)\n"
  "{\n"
  "  uint s[8];\n"
  "  for (uint j = 0; j < 8; j++)\n"
  "    s[j] = j;\n"
  "  s[i] = 5; /*X*/\n"
  "  return s[0];\n"
  "}\n"
  "\n"
  "uint deep(global uint *a, uint x)\n"
  "{\n"
  "  uint r =\n"
  "    7 + a[x]; /*R4*/\n"
  "  return r;\n"
  "}\n"
  "void body(global uint *a, global uint *ro, global uint *wo, local uint *l,\n"
  "          global const uint *ops, uint nops, global const uint *gop, global uint *out, global ulong *addr)\n"
  "{\n"
  "  size_t id = (get_global_id(0) - get_global_offset(0)) + get_global_size(0) *\n"
  "              ((get_global_id(1) - get_global_offset(1)) + get_global_size(1) * (get_global_id(2) - get_global_offset(2)));\n"
  "  size_t lid = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));\n"
  "  size_t g = get_group_id(0) + get_num_groups(0) * (get_group_id(1) + get_num_groups(1) * get_group_id(2));\n"
  "  uint acc = id, sink = 0;\n"
  "  addr[id * 2] = (ulong)a;\n"
  "  addr[id * 2 + 1] = (ulong)l;\n"
  "  for (uint j = 0; j < nops; j++)\n"
  "  {\n"
  "    uint t = ops[(id * nops + j) * 2], x = ops[(id * nops + j) * 2 + 1];\n"
  "    if (t == 0)\n"
  "      acc = acc * 31 + x;\n"
  "    else if (t == 1)\n"
  "      ((global uchar *)a)[x] = 1; /*W1*/\n"
  "    else if (t == 2)\n"
  "      ((global ushort *)a)[x] = 2; /*W2*/\n"
  "    else if (t == 3)\n"
  "    {\n"
  "      a[x] = acc; /*W4*/\n"
  "    }\n"
  "    else if (t == 4)\n"
  "\t\t((global ulong *)a)[x] = 4; /*W8*/\n"
  "    else if (t == 5)\n"
  "      sink += deep(a, x);\n"
  "    else if (t == 6)\n"
  "      sink += ((global uint4 *)a)[x].y; /*R16*/\n"
  "    else if (t == 7)\n"
  "      l[x] = acc; /*L4*/\n"
  "    else if (t == 8)\n"
  "      sink += stat(x);\n"
  "    else if (t == 9)\n"
  "      ro[x] = 3; /*RO*/\n"
  "    else if (t == 10)\n"
  "      sink += wo[x]; /*WO*/\n"
  "    else if (t == 11)\n"
  "      atomic_inc((volatile global uint *)((global uchar *)wo + x)); /*U*/\n"
  "    else if (t == 12)\n"
  "      wo[0] = *(global uint *)((global uchar *)ops + x); /*M*/\n"
  "    else if (t == 13)\n"
  "      hstore(a, x);\n"
  "    else if (t == 14)\n"
  "      sink += stat2(x);\n"
  "    else if (t == 15)\n"
  "      sink += stat3(x);\n"
  "    else if (t == 16)\n"
  "      sink += stat4(x);\n"
  "    else if (t == 17)\n"
  "      last(a, x);\n"
  "  }\n"
  "  out[id] = acc;\n"
  "  if (gop[g * 2])\n"
  "  {\n"
  "    event_t e = async_work_group_copy(l, a + gop[g * 2], 1, 0);\n"
  "    wait_group_events(1, &e); /*AS*/\n"
  "  }\n"
  "  if (lid < gop[g * 2 + 1])\n"
  "    barrier(CLK_LOCAL_MEM_FENCE); /*BAR*/\n"
  "  if (sink == 0x12345)\n"
  "    out[id]++;\n"
  "}\n";
static const char *KDEF =
  "kernel void %s(global uint *a, global uint *ro, global uint *wo, local uint *l,\n"
  "  global const uint *ops, uint nops, global const uint *gop, global uint *out, global ulong *addr)\n"
  "{ body(a, ro, wo, l, ops, nops, gop, out, addr); }\n";
static const char *KN[] = {"first", "k", "a_rather_long_kernel_name"};

static std::string kernels()
{
  std::string s;
  for (auto k : KN)
  {
    char b[600];
    snprintf(b, sizeof b, KDEF, k);
    s += b;
  }
  return s;
}
static std::string the_source(bool include)
{
  return (include ? std::string("// first line\n#include \"hdr.h\"\n") : std::string(HDR)) + SRC + kernels() + "void last(global uint *a, uint x) { a[x] = 6; /*Z*/ }";
}
// line number (from 1), text and column of the access in the line with marker /*M*/
struct Place
{
  unsigned line, col;
  std::string text, file;
};
static Place place(const std::string &src, const char *mark)
{
  std::string m = std::string("/*") + mark + "*/";
  unsigned line = 1;
  for (size_t p = 0; p < src.size(); line++)
  {
    size_t e = src.find('\n', p);
    std::string t = src.substr(p, e - p);
    if (t.find(m) != std::string::npos)
    {
      size_t c;
      if (!strcmp(mark, "R4") || !strcmp(mark, "WO"))
        c = t.find(mark[0] == 'R' ? "a[x]" : "wo[x]");
      else if (!strcmp(mark, "R16"))
        c = t.find("((");
      else if (!strcmp(mark, "U") || !strcmp(mark, "AS") || !strcmp(mark, "BAR"))
        c = t.find_first_not_of(" \t");
      else if (!strcmp(mark, "M"))
        c = t.find("*(global uint");
      else
        c = t.find(" = ") + 1;
      size_t b = t.find_first_not_of(" \t");
      return {line, (unsigned)c + 1, t.substr(b), "input.cl"};
    }
    p = e + 1;
  }
  abort();
}

static const int LIM[] = {0, 1, 2, 7, 40};
static const int NL = 5;
// OpenCL C 2.0 has work-groups of different sizes
static const char *OPTS[] = {"-cl-opt-disable", "-cl-opt-disable -cl-std=CL2.0"};
static cl_context ctx_of[NL];
static cl_program prg_of[NL];
static bool FAULTS;

static cl_context new_ctx(Run *r)
{
  cl_int e;
  cl_context c = clCreateContext(NULL, 1, &g_device, NULL, NULL, &e);
  if (r)
    r->require_cl(e, CL_SUCCESS, "clCreateContext");
  return c;
}
static void setup(const std::string &variant)
{
  FAULTS = variant == "faults";
  unsetenv("OCLGRIND_PLUGINS");
  unsetenv("OCLGRIND_LOG");
  cl_setup_platform();
  std::string s = the_source(false);
  for (int i = 0; i < NL; i++)
  {
    if (LIM[i])
      setenv("OCLGRIND_MAX_ERRORS", std::to_string(LIM[i]).c_str(), 1);
    else
      unsetenv("OCLGRIND_MAX_ERRORS");
    ctx_of[i] = new_ctx(NULL);
    prg_of[i] = cl_build(ctx_of[i], s.c_str(), OPTS[i & 1]);
  }
  unsetenv("OCLGRIND_MAX_ERRORS");
}

enum { T_OK, T_W1, T_W2, T_W4, T_W8, T_R4, T_R16, T_L4, T_X, T_RO, T_WO, T_U, T_M, T_H, T_X2, T_X3, T_X4, T_Z, NT };
static const char *MARK[] = {"", "W1", "W2", "W4", "W8", "R4", "R16", "L4", "X", "RO", "WO", "U", "M", "H", "X2", "X3", "X4", "Z", "AS", "BAR"};
static const size_t AE = 64, LE = 16; // elements of a and of l

struct Op
{
  uint32_t t, x;
};
struct Launch
{
  NDR n;
  int kn;
  unsigned nops;
  std::vector<std::vector<Op>> ops; // per item
  std::vector<uint32_t> gop;        // per group: offset of the async copy, items at the barrier
  std::vector<uint64_t> addr;
  std::vector<uint32_t> out;
};
typedef std::vector<std::string> Block;
// What one work-item (or group) must report, in order
struct Ent
{
  std::vector<Block> want;
  size_t got = 0;
  int group = -1; // of an item
};
struct Host
{
  Run *r;
  cl_context ctx;
  cl_program prg;
  std::vector<Launch> ls;
  unsigned extra = 0; // after this many launches, another context comes and goes
  Place pl[32];
};

static void launch_all(Host &h)
{
  Run &r = *h.r;
  cl_int e;
#define CK(call) r.require_cl(call, CL_SUCCESS, #call)
  cl_command_queue q = clCreateCommandQueue(h.ctx, g_device, 0, &e);
  r.require_cl(e, CL_SUCCESS, "clCreateCommandQueue");
  std::vector<cl_mem> all;
  auto mk = [&](cl_mem_flags f, size_t n, const void *p) {
    cl_mem m = clCreateBuffer(h.ctx, f | (p ? CL_MEM_COPY_HOST_PTR : 0), n, (void *)p, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
    all.push_back(m);
    return m;
  };
  std::vector<std::pair<cl_mem, cl_mem>> res;
  for (auto &L : h.ls)
  {
    std::vector<uint32_t> ops, z(AE, 0);
    for (auto &i : L.ops)
      for (auto &o : i)
        ops.insert(ops.end(), {o.t, o.x});
    ops.insert(ops.end(), 8, 0);
    size_t n = L.n.items();
    cl_mem a = mk(CL_MEM_READ_WRITE, AE * 4, z.data()), ro = mk(CL_MEM_READ_ONLY, AE * 4, z.data()),
           wo = mk(CL_MEM_WRITE_ONLY, AE * 4, z.data()), o = mk(CL_MEM_READ_WRITE, ops.size() * 4, ops.data()),
           g = mk(CL_MEM_READ_WRITE, L.gop.size() * 4, L.gop.data()), out = mk(CL_MEM_READ_WRITE, n * 4, NULL),
           ad = mk(CL_MEM_READ_WRITE, n * 16, NULL);
    cl_kernel k = clCreateKernel(h.prg, KN[L.kn], &e);
    r.require_cl(e, CL_SUCCESS, "clCreateKernel");
    CK(clSetKernelArg(k, 0, sizeof(cl_mem), &a));
    CK(clSetKernelArg(k, 1, sizeof(cl_mem), &ro));
    CK(clSetKernelArg(k, 2, sizeof(cl_mem), &wo));
    CK(clSetKernelArg(k, 3, LE * 4, NULL));
    CK(clSetKernelArg(k, 4, sizeof(cl_mem), &o));
    CK(clSetKernelArg(k, 5, 4, &L.nops));
    CK(clSetKernelArg(k, 6, sizeof(cl_mem), &g));
    CK(clSetKernelArg(k, 7, sizeof(cl_mem), &out));
    CK(clSetKernelArg(k, 8, sizeof(cl_mem), &ad));
    CK(clEnqueueNDRangeKernel(q, k, L.n.dims, L.n.off, L.n.gs, L.n.ls, 0, NULL, NULL));
    CK(clReleaseKernel(k));
    res.push_back({out, ad});
    if (h.extra && res.size() == h.extra)
    {
      CK(clFinish(q));
      CK(clReleaseContext(new_ctx(&r)));
    }
  }
  CK(clFinish(q));
  for (size_t i = 0; i < h.ls.size(); i++)
  {
    Launch &L = h.ls[i];
    L.out.resize(L.n.items());
    L.addr.resize(L.n.items() * 2);
    CK(clEnqueueReadBuffer(q, res[i].first, CL_TRUE, 0, L.out.size() * 4, L.out.data(), 0, NULL, NULL));
    CK(clEnqueueReadBuffer(q, res[i].second, CL_TRUE, 0, L.addr.size() * 8, L.addr.data(), 0, NULL, NULL));
  }
  for (auto m : all)
    CK(clReleaseMemObject(m));
  CK(clReleaseCommandQueue(q));
}
static void *host_main(void *p)
{
  launch_all(*(Host *)p);
  return NULL;
}

static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...)
{
  char b[600];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static std::string id3(const size_t *v) { return fmt("(%zu,%zu,%zu)", v[0], v[1], v[2]); }

// expected blocks; "*" at the end of a line stands for anything, and a line "<instr>x"
// for an instruction x
static void expect(const Host &h, const Launch &L, std::map<std::string, Ent> &ents)
{
  const NDR &n = L.n;
  auto where = [&](Block &b, int mark, const char *ins) {
    const Place &p = h.pl[mark];
    b.push_back(std::string("<instr>") + ins);
    b.push_back(fmt("At line %u (column %u) of ", p.line, p.col) + p.file + ":");
    b.push_back("<source>" + p.text);
  };
  size_t size[3], gid[3];
  for (size_t g = 0; g < n.groups(); g++)
  {
    n.group_id(g, gid);
    n.group_size(g, size);
    std::vector<int> its = n.group_items(g);
    for (size_t li = 0; li < its.size(); li++)
    {
      size_t id = its[li];
      size_t lid[3] = {li % size[0], li / size[0] % size[1], li / size[0] / size[1]};
      size_t gl[3];
      for (int d = 0; d < 3; d++)
        gl[d] = gid[d] * n.ls[d] + lid[d] + n.off[d];
      std::string ent = "Entity: Global" + id3(gl) + " Local" + id3(lid) + " Group" + id3(gid);
      Ent &E = ents[std::string(KN[L.kn]) + ent];
      E.group = g;
      uint64_t a = L.addr[id * 2], l = L.addr[id * 2 + 1];
      for (auto &o : L.ops[id])
      {
        auto add = [&](std::string head, const char *ins, int mark) {
          Block b = {head, std::string("Kernel: ") + KN[L.kn], ent};
          where(b, mark, ins);
          E.want.push_back(b);
        };
        auto acc = [&](bool rd, int sz, const char *as, uint64_t ad) {
          return fmt("Invalid %s of size %d at %s memory address 0x%lx", rd ? "read" : "write", sz, as, ad);
        };
        uint64_t x = o.x;
        switch (o.t)
        {
        case T_W1: add(acc(0, 1, "global", a + x), "store", T_W1); break;
        case T_W2: add(acc(0, 2, "global", a + x * 2), "store", T_W2); break;
        case T_W4: add(acc(0, 4, "global", a + x * 4), "store", T_W4); break;
        case T_H: add(acc(0, 4, "global", a + x * 4), "store", T_H); break;
        case T_W8: add(acc(0, 8, "global", a + x * 8), "store", T_W8); break;
        case T_R4: add(acc(1, 4, "global", a + x * 4), "load", T_R4); break;
        case T_R16: add(acc(1, 16, "global", a + x * 16), "load", T_R16); break;
        case T_L4: add(acc(0, 4, "local", l + x * 4), "store", T_L4); break;
        case T_X:
          add("Invalid write of size 4 at private memory address 0x*", "store", T_X);
          add(fmt("Index (%lu) exceeds static array size (8)", x), "store", T_X);
          break;
        case T_X2:
          add("Invalid write of size 4 at private memory address 0x*", "store", T_X2);
          add(fmt("Index (%lu) exceeds static array size (8)", x), "store", T_X2);
          break;
        case T_X3: add(fmt("Index (%lu) exceeds static array size (3)", x), "store", T_X3); break;
        case T_X4: add(fmt("Index (%lu) exceeds static array size (4)", x), "store", T_X4); break;
        case T_Z: add(acc(0, 4, "global", a + x * 4), "store", T_Z); break;
        case T_RO: add("Invalid write to read-only buffer", "store", T_RO); break;
        case T_WO: add("Invalid read from write-only buffer", "load", T_WO); break;
        case T_U:
          add("Unaligned address on atomic_inc", "call", T_U);
          add("Invalid read from write-only buffer", "call", T_U);
          break;
        case T_M:
          add("Invalid memory load - source pointer is not aligned to the pointed type", "load", T_M);
          break;
        }
      }
    }
    Ent &G = ents[std::string(KN[L.kn]) + "Group" + id3(gid)];
    if (L.gop[g * 2])
    {
      Block b = {fmt("Invalid read of size 4 at global memory address 0x%lx", L.addr[its[0] * 2] + L.gop[g * 2] * 4ul),
                 std::string("Kernel: ") + KN[L.kn], "Entity: Group" + id3(gid)};
      where(b, NT, "call");
      G.want.push_back(b);
    }
    size_t nb = L.gop[g * 2 + 1];
    if (nb && nb < its.size())
    {
      Block b = {"Work-group divergence detected (barrier)", std::string("Kernel:     ") + KN[L.kn],
                 "Work-group: " + id3(gid), fmt("Only %zu out of %zu work-items executed barrier", nb, its.size())};
      where(b, NT + 1, "call");
      G.want.push_back(b);
    }
  }
}
static bool lmatch(const std::string &got, const std::string &want, bool hdr)
{
  if (!want.compare(0, 7, "<instr>"))
  {
    std::string w = want.substr(7);
    if (w == "store")
      return got.compare(0, 6, "store ") == 0;
    size_t p = 0;
    if (got[0] == '%')
    {
      p = got.find(" = ");
      if (p == std::string::npos)
        return false;
      p += 3;
    }
    if (!got.compare(p, 5, "tail "))
      p += 5;
    return got.compare(p, w.size() + 1, w + " ") == 0;
  }
  if (!want.compare(0, 8, "<source>"))
    return got == want.substr(8) || (hdr && got == "(source not available)");
  if (!want.empty() && want.back() == '*')
    return got.compare(0, want.size() - 1, want, 0, want.size() - 1) == 0;
  return got == want;
}
static std::string join(const Block &b)
{
  std::string s;
  for (auto &l : b)
    s += l + " | ";
  return s;
}
static bool is_head(const std::string &l)
{
  return !l.compare(0, 8, "Invalid ") || !l.compare(0, 7, "Index (") || !l.compare(0, 10, "Unaligned ") ||
         !l.compare(0, 11, "Work-group ");
}
// Checks a log against what the launches of the hosts must report.
static void check_log(Run &r, std::vector<Host> &hs, const std::string &text, size_t limit)
{
  // per host, launch: entities
  std::vector<std::vector<std::map<std::string, Ent>>> W(hs.size());
  std::vector<size_t> at(hs.size(), 0);
  size_t total = 0;
  for (size_t h = 0; h < hs.size(); h++)
    for (auto &L : hs[h].ls)
    {
      W[h].emplace_back();
      expect(hs[h], L, W[h].back());
      for (auto &e : W[h].back())
        total += e.second.want.size();
    }
  std::vector<std::string> lines;
  for (size_t p = 0; p < text.size();)
  {
    size_t e = text.find('\n', p);
    if (e == std::string::npos)
      r.fail("log", "the log ends within a line: %.200s", text.c_str() + p);
    size_t a = text.find_first_not_of(" \t", p), b = e;
    if (a < e)
    {
      while (b > a && isspace(text[b - 1]))
        b--;
      lines.push_back(text.substr(a, b - a));
    }
    p = e + 1;
  }
  std::string sup = fmt("Oclgrind: %zu errors generated - suppressing further errors", limit);
  size_t i = 0, blocks = 0;
  bool suppressed = false;
  while (i < lines.size())
  {
    if (suppressed)
      r.fail("log", "output after the suppression line: %s", lines[i].c_str());
    if (lines[i] == sup)
    {
      if (blocks != limit)
        r.fail("log", "suppression line after %zu messages (limit %zu)", blocks, limit);
      suppressed = true;
      i++;
      continue;
    }
    if (!is_head(lines[i]))
      r.fail("log", "unexpected line after %zu messages: %s", blocks, lines[i].c_str());
    Block b = {lines[i++]};
    while (i < lines.size() && !is_head(lines[i]) && lines[i] != sup)
      b.push_back(lines[i++]);
    // whose is it?
    std::string kernel, ent;
    for (auto &l : b)
      if (!l.compare(0, 7, "Kernel:"))
        kernel = l.substr(std::min(l.size(), l.find_first_not_of(" ", 7)));
      else if (!l.compare(0, 14, "Entity: Global"))
        ent = l;
      else if (!l.compare(0, 13, "Entity: Group"))
        ent = l.substr(8);
      else if (!l.compare(0, 12, "Work-group: "))
        ent = "Group" + l.substr(12);
    if (kernel.empty() || ent.empty())
      r.fail("log", "broken message: %s", join(b).c_str());
    blocks++;
    // kernels of the two contexts have different names, launches of a context are in order
    bool ok = false;
    std::string near;
    for (size_t h = 0; h < hs.size() && !ok; h++)
      for (size_t k = at[h]; k < W[h].size(); k++)
      {
        bool rest = false;
        auto it = W[h][k].find(kernel + ent);
        if (it != W[h][k].end() && it->second.got < it->second.want.size())
        {
          Block &w = it->second.want[it->second.got];
          bool same = w.size() == b.size();
          for (size_t j = 0; same && j < b.size(); j++)
            same = lmatch(b[j], w[j], j && w[j - 1].find("hdr.h:") != std::string::npos);
          if (same)
          {
            if (ent[0] == 'G') // a group's message comes after those of its items
              for (auto &e : W[h][k])
                if (e.second.group >= 0 && e.first.size() > ent.size() &&
                    !e.first.compare(e.first.size() - ent.size() - 1, std::string::npos, " " + ent) &&
                    e.second.got < e.second.want.size())
                  r.fail("log", "message of a group before those of its work-items: %s", join(b).c_str());
            it->second.got++;
            at[h] = k;
            ok = true;
            break;
          }
          near = join(w);
        }
        for (auto &e : W[h][k])
          rest |= e.second.got < e.second.want.size();
        if (rest)
          break; // a later kernel has not started
      }
    if (!ok)
      r.fail("log", "message %zu is not due: %s -- due from this entity: %s", blocks, join(b).c_str(), near.c_str());
  }
  if (blocks != std::min(total, limit))
    r.fail("log", "%zu messages instead of %zu (%zu errors, limit %zu)", blocks, std::min(total, limit), total, limit);
  if (suppressed != (total > limit))
    r.fail("log", "%s suppression line: %zu errors, limit %zu", suppressed ? "unexpected" : "no", total, limit);
  r.stat("messages", blocks);
  r.stat("suppressed_runs", suppressed);
}

static std::string slurp(const std::string &f)
{
  std::string s;
  FILE *fp = fopen(f.c_str(), "r");
  if (!fp)
    return s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, fp)) > 0)
    s.append(b, n);
  fclose(fp);
  return s;
}

static void run(Run &r)
{
  Rnd &q = r.rng;
  enum { D_STDERR, D_FILE, D_UNOPENABLE, D_INCLUDE };
  static const char *DN[] = {"stderr", "file", "file that cannot be opened", "stderr, source with a header"};
  int dest = FAULTS ? D_FILE : q(10) < 6 ? D_STDERR : 1 + q(3);
  int lim = q(NL), nh = dest == D_STDERR && q(3) == 0 ? 2 : 1;
  int workers = 1 + q(4);
  bool big = dest != D_STDERR ? q(40) == 0 : lim == 0 && q(12) == 0; // beyond the default limit
  double bad = big ? 0.9 : q(3) == 0 ? 0.02 : q(100) / 120.0;
  std::string src = the_source(dest == D_INCLUDE);
  std::vector<Host> hs(nh);
  for (int h = 0; h < nh; h++)
  {
    hs[h].r = &r;
    for (int t = 1; t < NT + 2; t++)
    {
      if (t == T_H && dest == D_INCLUDE)
      {
        hs[h].pl[t] = place(HDR, MARK[t]);
        continue;
      }
      hs[h].pl[t] = place(src, MARK[t]);
    }
    int nl = big ? 3 : 1 + q(3);
    for (int k = 0; k < nl; k++)
    {
      Launch L;
      L.n = gen_ndr(q, big ? 120 : 40, 12, lim & 1, true);
      L.kn = nh == 2 ? h * 2 : q(3);
      L.nops = big ? 4 : 1 + q(4);
      int only = q(4) == 0 ? 1 + (int)q(NT - 1) : 0;
      for (size_t i = 0; i < L.n.items(); i++)
      {
        L.ops.emplace_back();
        for (unsigned j = 0; j < L.nops; j++)
        {
          Op o = {T_OK, (uint32_t)q(1000)};
          if (q.chance(bad))
            o.t = only ? only : 1 + q(NT - 1);
          switch (o.t)
          {
          case T_W1: o.x = AE * 4 + q(5000); break;
          case T_W2: o.x = AE * 2 + q(5000); break;
          case T_W4:
          case T_H:
          case T_Z:
          case T_R4: o.x = AE + q(5000); break;
          case T_W8: o.x = AE / 2 + q(5000); break;
          case T_R16: o.x = AE / 4 + q(5000); break;
          case T_L4: o.x = LE + q(5000); break;
          case T_X2:
          case T_X: o.x = 8 + q(50); break;
          case T_X3: o.x = 3 + q(15); break;
          case T_X4: o.x = 4 + q(14); break;
          case T_RO:
          case T_WO: o.x = q(AE); break;
          case T_U: o.x = q(AE * 4 - 8) | 1; break;
          case T_M: o.x = 1 + q(3); break;
          }
          if (!r.keep())
            o = {T_OK, 0};
          L.ops.back().push_back(o);
          if (o.t)
            r.d("host %d launch %d item %zu: %s %u", h, k, i, MARK[o.t], o.x);
        }
      }
      bool as = q(3) == 0, ba = q(3) == 0;
      for (size_t g = 0; g < L.n.groups(); g++)
      {
        uint32_t o = as && q(2) ? AE + q(1000) : 0, b = ba ? q(L.n.group_items(g).size() + 1) : 0;
        bool k1 = r.keep();
        L.gop.insert(L.gop.end(), {k1 ? o : 0, k1 ? b : 0});
        if (k1 && (o || b))
          r.d("host %d launch %d group %zu: copy %u, barrier %u", h, k, g, o, b);
      }
      r.d("host %d launch %d: %s, offset %zu,%zu,%zu size %zu,%zu,%zu groups of %zu,%zu,%zu", h, k, KN[L.kn], L.n.off[0],
          L.n.off[1], L.n.off[2], L.n.gs[0], L.n.gs[1], L.n.gs[2], L.n.ls[0], L.n.ls[1], L.n.ls[2]);
      hs[h].ls.push_back(L);
    }
  }
  bool extra = dest == D_STDERR && q(4) == 0;
  if (extra)
    r.d("another context is created and released after launch %u", hs[0].extra = 1 + q(hs[0].ls.size()));
  r.d("%s, limit %d, %d workers", DN[dest], LIM[lim], workers);
  if (r.scratch.empty())
  {
    char b[64];
    snprintf(b, sizeof b, "/tmp/dsim-log-%010d", (int)getpid());
    r.scratch = b;
  }
  std::string pre = r.scratch + "/", log = pre + (dest == D_UNOPENABLE ? "none/log" : "log"), hdr = pre + "hdr.h";
  bool dir = dest != D_STDERR;
  if (dir)
    r.make_scratch();
  if (dest == D_INCLUDE)
  {
    FILE *f = fopen(hdr.c_str(), "w");
    fputs(HDR, f);
    fclose(f);
    hs[0].pl[T_H].file = hdr;
  }
  bool hard = false;
  if (FAULTS)
  {
    hard = q(2);
    r.cfg.io_prefix = pre.c_str();
    r.cfg.p_short = 0.3;
    r.cfg.p_eintr = 0.2;
    if (hard)
    {
      r.cfg.p_enospc = 0.05;
      r.cfg.p_eio = 0.03;
      r.cfg.p_openfail = 0.1;
    }
    r.cfg.max_io_faults = 1 + q(40);
  }
  capture_reset();
  set_threads(workers);
  if (dest != D_STDERR || nh == 2 || extra)
  {
    if (LIM[lim])
      setenv("OCLGRIND_MAX_ERRORS", std::to_string(LIM[lim]).c_str(), 1);
    if (dest == D_FILE || dest == D_UNOPENABLE)
      setenv("OCLGRIND_LOG", log.c_str(), 1);
  }
  r.begin();
  bool opened = true;
  if (dest == D_STDERR)
    for (int h = 0; h < nh; h++)
    {
      // the limit is that of the process: both contexts have the same
      hs[h].ctx = h ? new_ctx(&r) : ctx_of[lim];
      hs[h].prg = h ? NULL : prg_of[lim];
    }
  else
    hs[0].ctx = new_ctx(&r);
  cl_int e;
  for (auto &h : hs)
    if (dest != D_STDERR || &h != &hs[0])
    {
      const char *s = src.c_str();
      h.prg = clCreateProgramWithSource(h.ctx, 1, &s, NULL, &e);
      r.require_cl(e, CL_SUCCESS, "clCreateProgramWithSource");
      std::string opt = OPTS[lim & 1];
      if (dest == D_INCLUDE)
        opt += " -I " + r.scratch;
      r.require_cl(clBuildProgram(h.prg, 1, &g_device, opt.c_str(), NULL, NULL), CL_SUCCESS, "clBuildProgram");
    }
  std::vector<pthread_t> th(nh);
  for (int h = 1; h < nh; h++)
    pthread_create(&th[h], NULL, host_main, &hs[h]);
  launch_all(hs[0]);
  for (int h = 1; h < nh; h++)
    pthread_join(th[h], NULL);
  dsim_noyield(1); // no faults for the harness
  std::string file = dest == D_FILE ? slurp(log) : "";
  dsim_noyield(-1);
  if (dest != D_STDERR)
  {
    r.require_cl(clReleaseProgram(hs[0].prg), CL_SUCCESS, "clReleaseProgram");
    r.require_cl(clReleaseContext(hs[0].ctx), CL_SUCCESS, "clReleaseContext");
  }
  r.end();
  std::string err = captured_stderr(), after = dest == D_FILE ? slurp(log) : "";
  unlink(log.c_str());
  unlink(hdr.c_str());
  rmdir(r.scratch.c_str());
  for (size_t h = 0; h < hs.size(); h++)
    for (size_t k = 0; k < hs[h].ls.size(); k++)
    {
      Launch &L = hs[h].ls[k];
      for (size_t i = 0; i < L.ops.size(); i++)
      {
        uint32_t acc = i;
        for (auto &o : L.ops[i])
          if (o.t == T_OK)
            acc = acc * 31 + o.x;
        if (L.out[i] != acc)
          r.fail("log", "host %zu launch %zu: work-item %zu computed %u instead of %u", h, k, i, L.out[i], acc);
      }
    }
  size_t limit = LIM[lim] ? LIM[lim] : 1000;
  std::string complain = "Oclgrind: Unable to open log file '" + log + "'\n";
  opened = dest == D_FILE && !dsim_fault_count(DF_OPENFAIL);
  if (dest == D_UNOPENABLE || (dest == D_FILE && !opened))
  {
    size_t p = err.find(complain);
    if (p == std::string::npos)
      r.fail("log", "no diagnostic for the log file that cannot be opened: %.300s", err.c_str());
    err.erase(p, complain.size());
    if (!after.empty())
      r.fail("log", "the log file could not be opened, but has content");
    r.stat("fallback_to_stderr");
  }
  if (opened)
  {
    if (!err.empty())
      r.fail("log", "output on stderr despite a log file: %.300s", err.c_str());
    bool lost = dsim_fault_count(DF_ENOSPC) || dsim_fault_count(DF_EIO);
    if (file != after && !lost) // what could not be written may be when the file is closed
      r.fail("log", "the log file changed when the context was released: %zu bytes, then %zu", file.size(), after.size());
    if (lost)
      r.stat("log_lost"); // the file may end anywhere, but the kernels ran
    else
      check_log(r, hs, file, limit);
  }
  else
    check_log(r, hs, err, limit);
  r.stat("launches", hs[0].ls.size() + (nh == 2 ? hs[1].ls.size() : 0));
  r.nontrivial(fnv(err.data(), err.size(), fnv(file.data(), file.size())));
}
static RegWorkload reg("log", setup, run);
} // namespace
