// Kernels and their arguments (C31). Random signatures of every kind of argument; every
// query is compared with the declaration, and every launch computes a digest of all the
// argument values, so that it shows what arrived. Kernels are created, cloned, taken from
// reloaded binaries, and their arguments are changed while launches are pending.
#include "h.h"
#include <memory>

namespace
{
static cl_context CTX;
static cl_command_queue QU;
#define CK(x) r.require_cl((x), CL_SUCCESS, #x)

typedef std::vector<uint8_t> Bytes;
struct Sc
{
  const char *name, *alt;
  int size;
  bool sign, fl;
};
static const Sc SC[] = {{"char", "signed char", 1, true, false}, {"uchar", "unsigned char", 1, false, false}, {"short", "short", 2, true, false},
                        {"ushort", "unsigned short", 2, false, false}, {"int", "int", 4, true, false}, {"uint", "unsigned int", 4, false, false},
                        {"long", "long", 8, true, false}, {"ulong", "unsigned long", 8, false, false}, {"float", "float", 4, true, true},
                        {"double", "double", 8, true, true}};
static const int NSC = 10;

struct Ty // a scalar, a vector or a structure
{
  int sc = 0, n = 1;  // elements; 0: a structure
  int st = -1;
  std::string name;   // as reported
  std::string spell;  // as written
};
struct Field
{
  Ty t;
  int count; // array of
  size_t at;
};
struct St
{
  std::string name; // as reported
  std::vector<Field> f;
  size_t size, align;
};
enum AK { A_VAL, A_GLOBAL, A_CONST, A_LOCAL, A_RO, A_WO, A_SAMP, A_OUT };
struct Arg
{
  int k;
  Ty t;
  std::string name, decl, tname;
  cl_kernel_arg_address_qualifier addr = CL_KERNEL_ARG_ADDRESS_PRIVATE;
  cl_kernel_arg_access_qualifier acc = CL_KERNEL_ARG_ACCESS_NONE;
  cl_kernel_arg_type_qualifier qual = CL_KERNEL_ARG_TYPE_NONE;
  bool used;
  int dim = 2; // images
  bool arr = false;
};
struct Loc
{
  int sc;
  uint32_t n;
};
struct Kd
{
  std::string name;
  std::vector<Arg> a;
  std::vector<Loc> loc;
  std::multiset<std::string> attrs;
  size_t req[3] = {0, 0, 0};
  std::string src;
};

static void setup(const std::string &)
{
  unsetenv("OCLGRIND_PLUGINS");
  setenv("OCLGRIND_LOCAL_MEM_SIZE", "262144", 1);
  cl_setup_platform();
  CTX = cl_new_context();
  cl_int e;
  QU = clCreateCommandQueue(CTX, g_device, 0, &e);
  cl_build(CTX, "kernel void warm(global int *a) { a[0] = 1; }", "");
}

struct Buf
{
  cl_mem m;
  Bytes b;
};
struct Img
{
  cl_mem m;
  int w, h;
  uint32_t px;
  int dim;
  bool arr;
};
struct Val
{
  bool set = false;
  Bytes v;      // A_VAL
  int buf = -1; // A_GLOBAL, A_CONST, images; -1: NULL
  size_t size = 0;
};
struct Prog
{
  cl_program p;
  std::string how;
};
struct K
{
  cl_kernel k;
  int d;
  std::vector<Val> v;
  std::string name;
};
struct Pending
{
  cl_event ev;
  cl_mem out;
  std::vector<uint64_t> want;
  std::string name;
};

struct Sim
{
  Run &r;
  Rnd &q;
  std::vector<St> st;
  std::vector<Kd> kd;
  std::vector<Buf> bufs;
  std::vector<Img> imgs;
  std::vector<Prog> ps;
  std::vector<K> ks;
  std::vector<Pending> pend;
  cl_sampler samp = NULL;
  cl_event gate = NULL;
  int serial = 0;
  std::string opts;

  Sim(Run &r_) : r(r_), q(r_.rng) {}

  size_t tsize(const Ty &t) { return t.n ? SC[t.sc].size * (t.n == 3 ? 4 : t.n) : st[t.st].size; }
  size_t talign(const Ty &t) { return t.n ? tsize(t) : st[t.st].align; }

  Ty scalar(bool plain = false)
  {
    Ty t;
    t.sc = q(NSC);
    t.name = SC[t.sc].name;
    t.spell = plain || q(2) ? SC[t.sc].name : SC[t.sc].alt;
    return t;
  }
  Ty value(bool structs)
  {
    if (structs && st.size() && q(3) == 0)
    {
      Ty t;
      t.n = 0;
      t.st = q(st.size());
      t.name = t.spell = st[t.st].name;
      return t;
    }
    Ty t = scalar();
    if (q(2))
    {
      static const int N[] = {2, 3, 4, 8, 16};
      t.n = N[q(5)];
      t.name = t.spell = SC[t.sc].name + std::to_string(t.n);
    }
    if (q(5) == 0)
    {
      // a typedef is reported under its own name
      std::string b = t.name;
      t.name = t.spell = (q(4) ? "my_" : "image_") + b;
      tdefs.insert("typedef " + b + " " + t.name + ";\n");
    }
    return t;
  }
  std::set<std::string> tdefs;

  // expressions that fold a value into h
  std::string fold(const Ty &t, const std::string &e)
  {
    std::string s;
    if (!t.n)
    {
      for (size_t i = 0; i < st[t.st].f.size(); i++)
      {
        Field &f = st[t.st].f[i];
        for (int j = 0; j < f.count; j++)
          s += fold(f.t, e + ".f" + std::to_string(i) + (f.count > 1 ? "[" + std::to_string(j) + "]" : ""));
      }
      return s;
    }
    static const char *HEX = "0123456789abcdef";
    for (int i = 0; i < t.n; i++)
    {
      std::string x = e + (t.n > 1 ? std::string(".s") + HEX[i] : "");
      const Sc &c = SC[t.sc];
      if (c.fl)
        x = (c.size == 4 ? "as_uint(" : "as_ulong(") + x + ")";
      s += "  h = FOLD(h, (ulong)(" + x + "));\n";
    }
    return s;
  }
  static uint64_t FOLD(uint64_t h, uint64_t x) { return (h ^ x) * 0x9e3779b97f4a7c15ull + (h >> 29); }
  static uint64_t scval(int sc, const uint8_t *p)
  {
    const Sc &c = SC[sc];
    uint64_t v = 0;
    memcpy(&v, p, c.size);
    if (c.sign && !c.fl && c.size < 8 && (v >> (c.size * 8 - 1)))
      v |= ~0ull << (c.size * 8);
    return v;
  }
  void foldv(uint64_t &h, const Ty &t, const uint8_t *p)
  {
    if (!t.n)
    {
      for (auto &f : st[t.st].f)
        for (int j = 0; j < f.count; j++)
          foldv(h, f.t, p + f.at + j * tsize(f.t));
      return;
    }
    for (int i = 0; i < t.n; i++)
      h = FOLD(h, scval(t.sc, p + i * SC[t.sc].size));
  }
  size_t lanes(const Ty &t)
  {
    if (t.n)
      return t.n;
    size_t n = 0;
    for (auto &f : st[t.st].f)
      n += f.count * lanes(f.t);
    return n;
  }
  Bytes rnd(size_t n)
  {
    Bytes b(n);
    for (auto &x : b)
      x = q(256);
    return b;
  }

  void structs()
  {
    int n = q(3);
    for (int i = 0; i < n; i++)
    {
      St s;
      static const char *SN[] = {"struct T", "S", "struct image_", "image", "struct pipe", "sampler_t"};
      s.name = SN[q(q(2) ? 2 : 6)] + std::to_string(i);
      s.size = 0;
      s.align = 1;
      int nf = 1 + q(4);
      for (int k = 0; k < nf; k++)
      {
        Field f;
        f.t = value(true);
        f.count = q(3) ? 1 : 1 + q(4);
        size_t a = talign(f.t);
        s.size = (s.size + a - 1) / a * a;
        f.at = s.size;
        s.size += f.count * tsize(f.t);
        s.align = std::max(s.align, a);
        s.f.push_back(f);
      }
      s.size = (s.size + s.align - 1) / s.align * s.align;
      st.push_back(s);
    }
  }
  std::string structsrc()
  {
    std::string s;
    for (auto &x : st)
    {
      bool tag = x.name.substr(0, 6) == "struct";
      s += tag ? x.name + "\n{\n" : "typedef struct\n{\n";
      for (size_t i = 0; i < x.f.size(); i++)
        s += "  " + x.f[i].t.spell + " f" + std::to_string(i) + (x.f[i].count > 1 ? "[" + std::to_string(x.f[i].count) + "]" : "") + ";\n";
      s += tag ? "};\n" : "} " + x.name + ";\n";
    }
    return s;
  }

  std::string last;
  Kd kernel(int no)
  {
    Kd d;
    static const char *NAMES[] = {"k", "kernel_with_a_rather_long_name_", "K_", "_z"};
    d.name = NAMES[q(4)] + std::to_string(no);
    if (no && q(3) == 0) // one name begins with another
      d.name = last + (q(2) ? "b" : "_") + std::to_string(no);
    last = d.name;
    int na = q(9), out = q(na + 1);
    for (int i = 0; i <= na; i++)
    {
      Arg a;
      bool keep = r.keep();
      a.name = (q(4) ? "a" : "argument_number_") + std::to_string(i);
      a.used = q(6);
      if (i == out)
      {
        a.k = A_OUT;
        a.t.sc = 7;
        a.tname = "ulong*";
        a.addr = CL_KERNEL_ARG_ADDRESS_GLOBAL;
        a.decl = "global ulong *" + a.name;
      }
      else
      {
        static const int KIND[] = {A_VAL, A_VAL, A_VAL, A_VAL, A_GLOBAL, A_GLOBAL, A_GLOBAL, A_CONST, A_LOCAL, A_LOCAL, A_RO, A_WO, A_SAMP};
        a.k = KIND[q(13)];
        int form = q(8);
        switch (a.k)
        {
        case A_VAL:
          a.t = value(true);
          a.tname = a.t.name;
          a.decl = (form == 0 ? "const " : form == 1 ? "private " : "") + a.t.spell + " " + a.name;
          break;
        case A_LOCAL:
        case A_GLOBAL:
        case A_CONST:
        {
          a.t = a.k == A_LOCAL ? scalar() : value(true);
          a.tname = a.t.name + "*";
          const char *sp = a.k == A_LOCAL ? "local" : a.k == A_GLOBAL ? "global" : "constant";
          a.addr = a.k == A_LOCAL    ? CL_KERNEL_ARG_ADDRESS_LOCAL
                   : a.k == A_GLOBAL ? CL_KERNEL_ARG_ADDRESS_GLOBAL
                                     : CL_KERNEL_ARG_ADDRESS_CONSTANT;
          std::string u = q(2) ? std::string("__") + sp : sp;
          std::string T = a.t.spell;
          if (a.k == A_CONST)
            a.qual = CL_KERNEL_ARG_TYPE_CONST;
          bool isc = a.k == A_GLOBAL && q(2), isv = a.k == A_GLOBAL && a.t.n == 1 && q(4) == 0, isr = q(3) == 0;
          std::string quals = std::string(isc ? "const " : "") + (isv ? "volatile " : "");
          std::string res = isr ? q(2) ? "restrict " : "__restrict " : "";
          switch (form % 4)
          {
          case 0: a.decl = u + " " + quals + T + " *" + res + a.name; break;
          case 1: a.decl = quals + u + " " + T + " *" + res + a.name; break;
          case 2: a.decl = u + " " + T + " " + quals + "*" + res + "const " + a.name; break;
          case 3:
            a.decl = u + " " + quals + T + " " + a.name + "[]";
            isr = false;
            break;
          }
          a.qual |= (isc ? CL_KERNEL_ARG_TYPE_CONST : 0) | (isv ? CL_KERNEL_ARG_TYPE_VOLATILE : 0) | (isr ? CL_KERNEL_ARG_TYPE_RESTRICT : 0);
          break;
        }
        case A_RO:
        case A_WO:
        {
          static const char *IT[] = {"image1d_t", "image2d_t", "image3d_t", "image2d_array_t", "image1d_array_t"};
          static const int ID[] = {1, 2, 3, 2, 1};
          int t = q(5);
          a.dim = ID[t];
          a.arr = t > 2;
          a.addr = CL_KERNEL_ARG_ADDRESS_GLOBAL;
          a.acc = a.k == A_RO ? CL_KERNEL_ARG_ACCESS_READ_ONLY : CL_KERNEL_ARG_ACCESS_WRITE_ONLY;
          a.tname = IT[t];
          bool rw = a.k == A_WO && (opts.find("CL2") != opts.npos || opts.find("CL3") != opts.npos) && form % 3 == 0;
          if (rw)
            a.acc = CL_KERNEL_ARG_ACCESS_READ_WRITE;
          a.decl = std::string(rw ? form & 4 ? "read_write " : "__read_write " : a.k == A_WO ? q(2) ? "write_only " : "__write_only " : form & 1 ? "read_only " : form & 2 ? "__read_only " : "") + IT[t] +
                   " " + a.name;
          break;
        }
        case A_SAMP:
          a.tname = "sampler_t";
          a.decl = "sampler_t " + a.name;
          break;
        }
      }
      if (keep || i == out)
        d.a.push_back(a);
    }
    for (int i = q(3); i > 0; i--)
      d.loc.push_back({(int)q(NSC - 2), 36 + (uint32_t)q(40)});
    std::string at;
    auto three = [&](size_t *v) {
      static const size_t R[][3] = {{1, 1, 1}, {2, 1, 1}, {4, 2, 1}, {2, 3, 2}, {1, 5, 1}, {3, 1, 4}, {8, 1, 1}};
      memcpy(v, R[q(7)], 24);
      return "(" + std::to_string(v[0]) + "," + std::to_string(v[1]) + "," + std::to_string(v[2]) + ")";
    };
    size_t dummy[3];
    std::vector<std::string> al;
    if (q(2))
      al.push_back("reqd_work_group_size" + three(d.req));
    if (q(3) == 0)
      al.push_back("work_group_size_hint" + three(dummy));
    if (q(3) == 0)
    {
      Ty t = scalar();
      static const int N[] = {1, 2, 3, 4, 8, 16};
      t.n = N[q(6)];
      al.push_back("vec_type_hint(" + std::string(SC[t.sc].name) + (t.n > 1 ? std::to_string(t.n) : "") + ")");
    }
    for (auto &x : al)
      d.attrs.insert(x);
    for (size_t i = al.size(); i > 1; i--)
      std::swap(al[i - 1], al[q(i)]);
    bool one = q(2);
    for (size_t i = 0; i < al.size(); i++)
      at += one ? (i ? ", " : "") + al[i] : "__attribute__((" + al[i] + ")) ";
    if (one && al.size())
      at = "__attribute__((" + at + ")) ";
    // the source
    std::string s = std::string(q(2) ? "kernel" : "__kernel") + " void " + at + d.name + "(";
    for (size_t i = 0; i < d.a.size(); i++)
      s += (i ? ",\n    " : "") + d.a[i].decl;
    s += ")\n{\n";
    for (size_t i = 0; i < d.loc.size(); i++)
      s += "  local " + std::string(SC[d.loc[i].sc].name) + " loc" + std::to_string(i) + "[" + std::to_string(d.loc[i].n) + "];\n";
    s += "  size_t gi = get_global_id(0) + get_global_size(0) * (get_global_id(1) + get_global_size(1) * get_global_id(2));\n"
         "  uint li = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));\n"
         "  uint ln = get_local_size(0) * get_local_size(1) * get_local_size(2);\n"
         "  ulong h = " +
         std::to_string(no + 1) + ";\n";
    auto local = [&](int sc, const std::string &p) {
      std::string T = SC[sc].name;
      s += "  " + p + "[li] = (" + T + ")(" + (SC[sc].fl ? "(h >> 40)" : "h") + " + li);\n  barrier(CLK_LOCAL_MEM_FENCE);\n  h = FOLD(h, (ulong)" + p +
           "[(li + 1) % ln]);\n";
    };
    for (auto &a : d.a)
    {
      if (!a.used)
        continue;
      switch (a.k)
      {
      case A_VAL: s += fold(a.t, a.name); break;
      case A_GLOBAL:
      case A_CONST: s += "  if (" + a.name + ")\n  {\n" + fold(a.t, a.name + "[0]") + fold(a.t, a.name + "[2]") + "  }\n  else h = FOLD(h, 77);\n"; break;
      case A_LOCAL: local(a.t.sc, a.name); break;
      case A_RO:
      case A_WO:
        s += "  h = FOLD(h, (ulong)get_image_width(" + a.name + "));\n";
        if (a.dim > 1)
          s += "  h = FOLD(h, (ulong)get_image_height(" + a.name + "));\n";
        if (a.k == A_RO)
          s += "  h = FOLD(h, (ulong)read_imageui(" + a.name + ", " +
               (a.dim == 1 && !a.arr ? "0" : (a.dim == 2 && !a.arr) || a.dim == 1 ? "(int2)(0)" : "(int4)(0)") + ").x);\n";
        break;
      }
    }
    for (size_t i = 0; i < d.loc.size(); i++)
      local(d.loc[i].sc, "loc" + std::to_string(i));
    for (auto &a : d.a)
      if (a.k == A_OUT)
        s += "  " + a.name + "[gi] = h + gi;\n";
    d.src = s + "}\n";
    return d;
  }

  std::string str(const std::string &what, const std::function<cl_int(size_t, void *, size_t *)> &f)
  {
    size_t n = 0, n2 = 0;
    CK(f(0, NULL, &n));
    if (n > 10000)
      r.fail("reflect", "%s: size %zu", what.c_str(), n);
    Bytes b(n + 8, 0xa7);
    if (n > 1)
    {
      cl_int e = f(q(n), b.data(), NULL);
      if (e != CL_INVALID_VALUE)
        r.fail("reflect", "%s into too small a buffer gave %d", what.c_str(), e);
    }
    CK(f(n + q(2) * 4, b.data(), &n2));
    if (n2 != n || !n || b[n - 1] || memchr(b.data(), 0, n - 1))
      r.fail("reflect", "%s is not a string of %zu characters", what.c_str(), n);
    for (size_t i = n; i < b.size(); i++)
      if (b[i] != 0xa7)
        r.fail("reflect", "%s wrote beyond its size", what.c_str());
    return (char *)b.data();
  }
  template <class T> T num(const std::string &what, const std::function<cl_int(size_t, void *, size_t *)> &f)
  {
    T t;
    size_t n = 0;
    cl_int e = f(q(sizeof t), &t, NULL);
    if (e != CL_INVALID_VALUE)
      r.fail("reflect", "%s into too small a variable gave %d", what.c_str(), e);
    CK(f(sizeof t, &t, &n));
    if (n != sizeof t)
      r.fail("reflect", "%s has size %zu instead of %zu", what.c_str(), n, sizeof t);
    return t;
  }
  void check(K &k)
  {
    Kd &d = kd[k.d];
    cl_kernel h = k.k;
    r.d("query %s\n", k.name.c_str());
    r.stat("kernel_queries");
    auto KI = [&](cl_kernel_info p) { return [=](size_t n, void *v, size_t *s) { return clGetKernelInfo(h, p, n, v, s); }; };
    std::string s = str("CL_KERNEL_FUNCTION_NAME", KI(CL_KERNEL_FUNCTION_NAME));
    if (s != d.name)
      r.fail("reflect", "%s: the name is '%s'", k.name.c_str(), s.c_str());
    cl_uint na = num<cl_uint>("CL_KERNEL_NUM_ARGS", KI(CL_KERNEL_NUM_ARGS));
    if (na != d.a.size())
      r.fail("reflect", "%s: %u arguments instead of %zu", k.name.c_str(), na, d.a.size());
    cl_context cx = num<cl_context>("CL_KERNEL_CONTEXT", KI(CL_KERNEL_CONTEXT));
    if (cx != CTX)
      r.fail("reflect", "%s: wrong context", k.name.c_str());
    s = str("CL_KERNEL_ATTRIBUTES", KI(CL_KERNEL_ATTRIBUTES));
    std::multiset<std::string> got;
    for (size_t at = 0; at < s.size();)
    {
      size_t e = s.find(' ', at);
      if (e == std::string::npos)
        e = s.size();
      if (e > at)
        got.insert(s.substr(at, e - at));
      at = e + 1;
    }
    if (got != d.attrs)
      r.fail("reflect", "%s: the attributes are '%s'", k.name.c_str(), s.c_str());
    size_t wg[3] = {7, 7, 7};
    CK(clGetKernelWorkGroupInfo(h, g_device, CL_KERNEL_COMPILE_WORK_GROUP_SIZE, sizeof wg, wg, NULL));
    if (memcmp(wg, d.req, sizeof wg))
      r.fail("reflect", "%s: required size (%zu,%zu,%zu) instead of (%zu,%zu,%zu)", k.name.c_str(), wg[0], wg[1], wg[2], d.req[0], d.req[1], d.req[2]);
    cl_ulong lm = num<cl_ulong>("CL_KERNEL_LOCAL_MEM_SIZE",
                                [=](size_t n, void *v, size_t *s) { return clGetKernelWorkGroupInfo(h, g_device, CL_KERNEL_LOCAL_MEM_SIZE, n, v, s); });
    cl_ulong want = 0;
    for (auto &l : d.loc)
      want += SC[l.sc].size * l.n;
    for (size_t i = 0; i < d.a.size(); i++)
      if (d.a[i].k == A_LOCAL)
        want += k.v[i].size;
    if (lm != want)
      r.fail("reflect", "%s: %lu bytes of local memory instead of %lu", k.name.c_str(), (unsigned long)lm, (unsigned long)want);
    for (size_t i = 0; i < d.a.size(); i++)
    {
      Arg &a = d.a[i];
      auto AI = [&](cl_kernel_arg_info p) { return [=](size_t n, void *v, size_t *s) { return clGetKernelArgInfo(h, i, p, n, v, s); }; };
      std::string nm = str("CL_KERNEL_ARG_NAME", AI(CL_KERNEL_ARG_NAME));
      std::string ty = str("CL_KERNEL_ARG_TYPE_NAME", AI(CL_KERNEL_ARG_TYPE_NAME));
      auto ad = num<cl_kernel_arg_address_qualifier>("CL_KERNEL_ARG_ADDRESS_QUALIFIER", AI(CL_KERNEL_ARG_ADDRESS_QUALIFIER));
      auto ac = num<cl_kernel_arg_access_qualifier>("CL_KERNEL_ARG_ACCESS_QUALIFIER", AI(CL_KERNEL_ARG_ACCESS_QUALIFIER));
      auto tq = num<cl_kernel_arg_type_qualifier>("CL_KERNEL_ARG_TYPE_QUALIFIER", AI(CL_KERNEL_ARG_TYPE_QUALIFIER));
      if (nm != a.name || ty != a.tname || ad != a.addr || ac != a.acc || tq != a.qual)
        r.fail("reflect", "%s: argument %zu (%s) is '%s' of type '%s', address %x, access %x, qualifiers %x", k.name.c_str(), i, a.decl.c_str(),
               nm.c_str(), ty.c_str(), ad, ac, (unsigned)tq);
    }
  }

  // ---- values
  void setarg(K &k, size_t i)
  {
    Kd &d = kd[k.d];
    Arg &a = d.a[i];
    Val &v = k.v[i];
    switch (a.k)
    {
    case A_VAL:
      v.v = rnd(tsize(a.t));
      CK(clSetKernelArg(k.k, i, v.v.size(), v.v.data()));
      break;
    case A_GLOBAL:
    case A_CONST:
    {
      v.buf = q(6) ? (int)q(bufs.size()) : -1;
      cl_mem m = v.buf < 0 ? NULL : bufs[v.buf].m;
      if (v.buf < 0 && q(2))
        CK(clSetKernelArg(k.k, i, sizeof m, NULL));
      else
        CK(clSetKernelArg(k.k, i, sizeof m, &m));
      break;
    }
    case A_LOCAL:
      v.size = SC[a.t.sc].size * (36 + q(60));
      CK(clSetKernelArg(k.k, i, v.size, NULL));
      break;
    case A_RO:
    case A_WO:
    {
      std::vector<int> c;
      for (size_t j = 0; j < imgs.size(); j++)
        if (imgs[j].dim == a.dim && imgs[j].arr == a.arr)
          c.push_back(j);
      v.buf = c[q(c.size())];
      CK(clSetKernelArg(k.k, i, sizeof(cl_mem), &imgs[v.buf].m));
      break;
    }
    case A_SAMP: CK(clSetKernelArg(k.k, i, sizeof samp, &samp)); break;
    case A_OUT: break;
    }
    v.set = true;
  }
  // a refused value changes nothing
  void badarg(K &k)
  {
    Kd &d = kd[k.d];
    size_t i = q(d.a.size() + 1);
    char junk[600] = {0};
    cl_int want = CL_INVALID_ARG_SIZE, e;
    if (i == d.a.size())
      want = CL_INVALID_ARG_INDEX, e = clSetKernelArg(k.k, i + q(3), 8, junk);
    else
    {
      Arg &a = d.a[i];
      size_t n = a.k == A_VAL ? tsize(a.t) : 8;
      if (a.k == A_LOCAL || a.k == A_SAMP)
        return;
      size_t w = q(3) ? n + 1 - 2 * q(2) : q(2) ? 0 : n * 2;
      if (a.k == A_VAL && q(4) == 0)
        want = CL_INVALID_ARG_VALUE, e = clSetKernelArg(k.k, i, n, NULL);
      else
        e = clSetKernelArg(k.k, i, w, junk);
    }
    r.stat("refused_values");
    if (e != want)
      r.fail("reflect", "%s: a bad value of argument %zu gave %d instead of %d", k.name.c_str(), i, e, want);
  }
  void launch(K &k)
  {
    Kd &d = kd[k.d];
    size_t ls[3], gs[3], of[3] = {0, 0, 0};
    bool nol = false;
    if (d.req[0])
      memcpy(ls, d.req, sizeof ls);
    else
    {
      ls[0] = 1 + q(6);
      ls[1] = 1 + q(3);
      ls[2] = 1 + q(2);
      nol = q(6) == 0;
    }
    if (nol)
      ls[0] = ls[1] = ls[2] = 1;
    for (int i = 0; i < 3; i++)
      gs[i] = ls[i] * (1 + q(2 + (i == 0)));
    // the steps of a run are bounded
    size_t cost = 20;
    for (auto &a : d.a)
      cost += a.k == A_OUT ? 0 : 2 * lanes(a.t);
    for (int i = 0; i < 3 && gs[0] * gs[1] * gs[2] * cost > 5000; i++)
    {
      if (!d.req[0])
        ls[i] = i ? 1 : std::min<size_t>(ls[0], 2);
      gs[i] = ls[i];
    }
    size_t n = gs[0] * gs[1] * gs[2], ln = ls[0] * ls[1] * ls[2];
    cl_int e;
    Pending p;
    p.name = k.name + " launch " + std::to_string(serial++);
    p.out = clCreateBuffer(CTX, CL_MEM_READ_WRITE, n * 8, NULL, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
    bool missing = false;
    for (size_t i = 0; i < d.a.size(); i++)
      if (d.a[i].k == A_OUT)
      {
        CK(clSetKernelArg(k.k, i, sizeof p.out, &p.out));
        k.v[i].set = true;
      }
      else if (!k.v[i].set)
      {
        if (q(20) == 0)
          missing = true;
        else
          setarg(k, i);
      }
    if (missing)
    {
      e = clEnqueueNDRangeKernel(QU, k.k, 3, of, gs, nol ? NULL : ls, 0, NULL, NULL);
      if (e != CL_INVALID_KERNEL_ARGS)
        r.fail("reflect", "%s with an argument missing gave %d", p.name.c_str(), e);
      CK(clReleaseMemObject(p.out));
      return;
    }
    if (d.req[0] && q(6) == 0)
    {
      size_t l2[3] = {d.req[0], d.req[1], d.req[2]};
      size_t g2[3] = {gs[0] * 6, gs[1] * 6, gs[2] * 6};
      l2[q(3)] *= 2 + q(2);
      e = clEnqueueNDRangeKernel(QU, k.k, 3, of, g2, l2, 0, NULL, NULL);
      if (e != CL_INVALID_WORK_GROUP_SIZE)
        r.fail("reflect", "%s with another work-group size gave %d", p.name.c_str(), e);
      r.stat("refused_launches");
    }
    bool wait = gate || q(3) == 0;
    if (wait && !gate)
    {
      gate = clCreateUserEvent(CTX, &e);
      r.require_cl(e, CL_SUCCESS, "clCreateUserEvent");
    }
    // what it computes
    uint64_t h0 = k.d + 1;
    std::vector<uint64_t> h(ln, h0);
    auto local = [&](int sc) {
      std::vector<uint64_t> x(ln);
      for (size_t i = 0; i < ln; i++)
      {
        if (SC[sc].fl)
        {
          double v = SC[sc].size == 4 ? (double)(float)((h[i] >> 40) + i) : (double)((h[i] >> 40) + i);
          x[i] = (uint64_t)v;
        }
        else
        {
          uint64_t y = h[i] + i;
          x[i] = scval(sc, (uint8_t *)&y);
        }
      }
      for (size_t i = 0; i < ln; i++)
        h[i] = FOLD(h[i], x[(i + 1) % ln]);
    };
    for (size_t i = 0; i < d.a.size(); i++)
    {
      Arg &a = d.a[i];
      Val &v = k.v[i];
      if (!a.used)
        continue;
      if (a.k == A_LOCAL)
      {
        local(a.t.sc);
        continue;
      }
      for (auto &x : h)
        switch (a.k)
        {
        case A_VAL: foldv(x, a.t, v.v.data()); break;
        case A_GLOBAL:
        case A_CONST:
          if (v.buf < 0)
            x = FOLD(x, 77);
          else
          {
            foldv(x, a.t, bufs[v.buf].b.data());
            foldv(x, a.t, bufs[v.buf].b.data() + 2 * tsize(a.t));
          }
          break;
        case A_RO:
        case A_WO:
          x = FOLD(x, imgs[v.buf].w);
          if (a.dim > 1)
            x = FOLD(x, imgs[v.buf].h);
          if (a.k == A_RO)
            x = FOLD(x, imgs[v.buf].px);
          break;
        }
    }
    for (auto &l : d.loc)
      local(l.sc);
    p.want.resize(n);
    for (size_t z = 0; z < gs[2]; z++)
      for (size_t y = 0; y < gs[1]; y++)
        for (size_t x = 0; x < gs[0]; x++)
        {
          size_t g = x + gs[0] * (y + gs[1] * z);
          p.want[g] = h[x % ls[0] + ls[0] * (y % ls[1] + ls[1] * (z % ls[2]))] + g;
        }
    if (nol && !d.req[0] && (usesid(d)))
      nol = false; // the size is Oclgrind's choice
    CK(clEnqueueNDRangeKernel(QU, k.k, 3, of, gs, nol ? NULL : ls, wait ? 1 : 0, wait ? &gate : NULL, &p.ev));
    r.d("%s\n", p.name.c_str());
    r.stat("launches");
    pend.push_back(p);
  }
  bool usesid(Kd &d)
  {
    if (d.loc.size())
      return true;
    for (auto &a : d.a)
      if (a.k == A_LOCAL && a.used)
        return true;
    return false;
  }
  void finish()
  {
    if (gate)
    {
      CK(clSetUserEventStatus(gate, CL_COMPLETE));
      CK(clReleaseEvent(gate));
      gate = NULL;
    }
    for (auto &p : pend)
    {
      std::vector<uint64_t> got(p.want.size(), 0xabababab);
      CK(clEnqueueReadBuffer(QU, p.out, CL_TRUE, 0, got.size() * 8, got.data(), 0, NULL, NULL));
      cl_int s = 77;
      CK(clGetEventInfo(p.ev, CL_EVENT_COMMAND_EXECUTION_STATUS, sizeof s, &s, NULL));
      if (s != CL_COMPLETE)
        r.fail("reflect", "%s ended with status %d", p.name.c_str(), s);
      for (size_t i = 0; i < got.size(); i++)
        if (got[i] != p.want[i])
          r.fail("argument", "%s: work-item %zu got 0x%lx from its arguments instead of 0x%lx", p.name.c_str(), i, (unsigned long)got[i],
                 (unsigned long)p.want[i]);
      CK(clReleaseEvent(p.ev));
      CK(clReleaseMemObject(p.out));
    }
    pend.clear();
  }

  void go()
  {
    int threads = 1 + q(5);
    set_threads(threads);
    static const char *OPT[] = {"", "-cl-kernel-arg-info", "-O0", "-w", "-cl-kernel-arg-info -O2", "-cl-opt-disable", "-O3",
                                "-cl-std=CL2.0", "-cl-std=CL3.0", "-cl-std=CL3.0 -cl-kernel-arg-info", "-O0 -cl-std=CL2.0"};
    opts = OPT[q(q(2) ? 7 : 11)];
    structs();
    int nk = 1 + q(3);
    for (int i = 0; i < nk; i++)
      kd.push_back(kernel(i));
    std::string src = "#define FOLD(h, x) (((h) ^ (x)) * 0x9e3779b97f4a7c15UL + ((h) >> 29))\n";
    for (auto &t : tdefs)
      src += t;
    src += structsrc();
    for (auto &d : kd)
      src += d.src;
    r.d("threads %d, options '%s'\n%s", threads, opts.c_str(), src.c_str());
    cl_int e;
    for (int i = 0; i < 4; i++)
    {
      Buf b;
      b.b = rnd(8192);
      b.m = clCreateBuffer(CTX, CL_MEM_COPY_HOST_PTR, b.b.size(), b.b.data(), &e);
      r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
      bufs.push_back(b);
    }
    for (auto &x : st)
      if (x.size * 3 > 8192)
        return r.stat("too_large");
    static const int TY[] = {CL_MEM_OBJECT_IMAGE1D, CL_MEM_OBJECT_IMAGE2D, CL_MEM_OBJECT_IMAGE3D, CL_MEM_OBJECT_IMAGE2D_ARRAY, CL_MEM_OBJECT_IMAGE1D_ARRAY};
    for (int i = 0; i < 10; i++)
    {
      Img m;
      m.w = 1 + q(9);
      m.h = 1 + q(9);
      m.dim = i % 5 == 0 || i % 5 == 4 ? 1 : i % 5 == 2 ? 3 : 2;
      m.arr = i % 5 > 2;
      cl_image_desc ds;
      memset(&ds, 0, sizeof ds);
      ds.image_type = TY[i % 5];
      ds.image_width = m.w;
      ds.image_height = m.h;
      ds.image_depth = 2;
      ds.image_array_size = 2;
      cl_image_format f = {CL_R, CL_UNSIGNED_INT32};
      std::vector<uint32_t> px(m.w * m.h * 2, (uint32_t)q.next());
      m.px = px[0];
      m.m = clCreateImage(CTX, CL_MEM_COPY_HOST_PTR, &f, &ds, px.data(), &e);
      r.require_cl(e, CL_SUCCESS, "clCreateImage");
      imgs.push_back(m);
    }
    samp = clCreateSampler(CTX, CL_FALSE, CL_ADDRESS_CLAMP, CL_FILTER_NEAREST, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateSampler");
    r.begin();
    const char *cs = src.c_str();
    cl_program p = clCreateProgramWithSource(CTX, 1, &cs, NULL, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateProgramWithSource");
    e = clBuildProgram(p, 0, NULL, opts.c_str(), NULL, NULL);
    if (e)
    {
      char log[4000] = "";
      clGetProgramBuildInfo(p, g_device, CL_PROGRAM_BUILD_LOG, sizeof log, log, NULL);
      r.fail("build", "the program does not build: %s", log);
    }
    ps.push_back({p, "built"});
    int n = 6 + q(20);
    for (int i = 0; i < n; i++)
    {
      int op = i == 0 ? 0 : q(12);
      if (!r.keep() && i)
        continue;
      if (op == 0)
      {
        Prog &P = ps[q(ps.size())];
        if (q(2))
        {
          K k;
          k.d = q(kd.size());
          k.k = clCreateKernel(P.p, kd[k.d].name.c_str(), &e);
          r.require_cl(e, CL_SUCCESS, "clCreateKernel");
          k.v.resize(kd[k.d].a.size());
          k.name = "kernel " + std::to_string(ks.size()) + " (" + kd[k.d].name + ", " + P.how + ")";
          ks.push_back(k);
          if (q(2))
            check(ks.back());
        }
        else
        {
          cl_kernel all[8];
          cl_uint got = 0;
          CK(clCreateKernelsInProgram(P.p, 8, all, &got));
          if (got != kd.size())
            r.fail("reflect", "%u kernels instead of %zu", got, kd.size());
          for (cl_uint j = 0; j < got; j++)
          {
            char nm[100] = "";
            CK(clGetKernelInfo(all[j], CL_KERNEL_FUNCTION_NAME, sizeof nm, nm, NULL));
            K k;
            k.d = -1;
            for (size_t x = 0; x < kd.size(); x++)
              if (kd[x].name == nm)
                k.d = x;
            if (k.d < 0)
              r.fail("reflect", "a kernel is called '%s'", nm);
            k.k = all[j];
            k.v.resize(kd[k.d].a.size());
            k.name = "kernel " + std::to_string(ks.size()) + " (" + kd[k.d].name + ", " + P.how + ", all)";
            ks.push_back(k);
          }
        }
      }
      else if (op == 1 && ps.size() < 3)
      {
        Prog &P = ps[q(ps.size())];
        size_t sz = 0;
        CK(clGetProgramInfo(P.p, CL_PROGRAM_BINARY_SIZES, sizeof sz, &sz, NULL));
        Bytes b(sz);
        unsigned char *bp = b.data();
        CK(clGetProgramInfo(P.p, CL_PROGRAM_BINARIES, sizeof bp, &bp, NULL));
        const unsigned char *cp = b.data();
        cl_program np = clCreateProgramWithBinary(CTX, 1, &g_device, &sz, &cp, NULL, &e);
        r.require_cl(e, CL_SUCCESS, "clCreateProgramWithBinary");
        CK(clBuildProgram(np, 0, NULL, "", NULL, NULL));
        ps.push_back({np, P.how + ", reloaded"});
      }
      else if (ks.empty())
        continue;
      else
      {
        K &k = ks[q(ks.size())];
        switch (op)
        {
        case 2:
        {
          K c = k;
          c.k = clCloneKernel(k.k, &e);
          r.require_cl(e, CL_SUCCESS, "clCloneKernel");
          c.name += " clone " + std::to_string(ks.size());
          ks.push_back(c);
          break;
        }
        case 3: badarg(k); break;
        case 4: case 5: check(k); break;
        case 6: finish(); break;
        case 7:
          for (size_t j = 0; j < k.v.size(); j++)
            if (q(2))
              setarg(k, j);
          break;
        default: launch(k); break;
        }
      }
    }
    for (size_t i = 0; i < ks.size(); i++)
      if (q(2))
        launch(ks[i]);
      else
        check(ks[i]);
    finish();
    for (auto &k : ks)
      CK(clReleaseKernel(k.k));
    for (auto &P : ps)
      CK(clReleaseProgram(P.p));
    r.end();
    r.nontrivial(fnv(src.data(), src.size()));
  }
};
static void run(Run &r)
{
  Sim s(r);
  s.go();
}
static RegWorkload reg("reflect", setup, run);
} // namespace
