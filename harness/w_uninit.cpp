// Uninitialised-data checking (C08). Random programs over memory of which only part has
// been defined, by a random history of host commands; an interpreter that tracks, byte by
// byte, what is undefined (and what cannot be told) says which line of which work-item
// must report something, and which must not.
#include "kern.h"
#include <algorithm>
#include <deque>
#include <functional>
#include <memory>
#include <pthread.h>

namespace
{
static cl_context CTX;
static bool opt; // optimised builds of programs that use nothing undefined
static const int SL = 4; // elements of a work-item in a buffer
static const int IMW = 8, IMH = 2;

struct T
{
  int b;  // bytes of a lane
  bool f; // float
  int n;  // lanes
  int size() const { return b * n; }
  bool operator==(const T &o) const { return b == o.b && f == o.f && n == o.n; }
};
static const T U8 = {1, false, 1}, U32 = {4, false, 1}, F32 = {4, true, 1};
static std::string sname(T t) { return t.f ? "float" : t.b == 1 ? "uchar" : t.b == 2 ? "ushort" : t.b == 4 ? "uint" : "ulong"; }
static std::string name(T t) { return sname(t) + (t.n > 1 ? std::to_string(t.n) : ""); }
static T lane(T t) { return {t.b, t.f, 1}; }

enum { OK, MAYBE, POISON };
struct By
{
  uint8_t st = OK, kn = 1, v = 0;
};
typedef std::vector<By> Bytes;
struct Val
{
  T t;
  Bytes by;
};
static int worst(const By *p, size_t n)
{
  int w = 0;
  for (size_t i = 0; i < n; i++)
    w = std::max<int>(w, p[i].st);
  return w;
}
static bool all(const By *p, size_t n, int st)
{
  for (size_t i = 0; i < n; i++)
    if (p[i].st != st)
      return false;
  return true;
}
static bool known(const By *p, size_t n, uint64_t &v)
{
  v = 0;
  for (size_t i = 0; i < n; i++)
  {
    if (p[i].st != OK || !p[i].kn)
      return false;
    v |= (uint64_t)p[i].v << (8 * i);
  }
  return true;
}
static void put(By *p, size_t n, uint64_t v)
{
  for (size_t i = 0; i < n; i++)
    p[i] = {OK, 1, (uint8_t)(v >> (8 * i))};
}
static void smear(By *p, size_t n, int st)
{
  for (size_t i = 0; i < n; i++)
    p[i] = {(uint8_t)st, 0, 0};
}

// ---- programs
enum Space { PRIV, LOC, GLOB, CONST };
struct Var
{
  std::string name;
  T t;
  int count = 0;   // > 0: array
  int sp = PRIV;   // address space
  bool st = false; // struct
  bool ptr = false; // pointer parameter
  bool arg = false;
};
struct Mem
{
  const char *n;
  T t;
  int off, count;
};
static const Mem MEM[] = {{"a", {1, false, 1}, 0, 0},
                          {"b", {4, false, 1}, 4, 0},
                          {"c", {2, false, 1}, 8, 3},
                          {"d", {8, false, 1}, 16, 0},
                          {"e", {4, false, 2}, 24, 0}};
static const int SSIZE = 32;

struct E;
typedef std::shared_ptr<E> EP;
struct L // a place
{
  int var = -1;
  T t;
  int mem = -1;   // member of a struct
  EP idx;         // null: not indexed
  int mask = 0;   // of the index; 0: constant
  bool other = false; // of the next work-item of the group
};
enum EK { CST, LD, BIN, NEG, NOT, CAST, CMP, TERN, MAKE, SPLAT, COMP, SWZ, DYN, AS, CALL, SEL, SHUF, SHUF2, VLD, VLDH, GID, ANY, IRD, IINFO };
struct E
{
  int k;
  T t;
  uint64_t c = 0;
  int op = 0;
  L l;
  std::vector<EP> a;
  std::vector<int> ix;
};
enum SK { S_DECL, S_SET, S_COMP, S_SWZ, S_DYN, S_IF, S_FOR, S_SWITCH, S_ATOM, S_COPY, S_CALLV, S_BAR, S_ASYNC, S_VST, S_VSTH, S_PTR2, S_STCALL, S_ZERO, S_V3, S_IMW };
struct St
{
  int k;
  int line = 0, line2 = 0;
  L l, l2;
  EP e, e2;
  int op = 0, n = 0;
  std::vector<int> ix;
  std::vector<St> a, b;
};
struct Fn
{
  std::string name;
  std::vector<int> par;
  T ret;
  int kind = 0; // 0: value, 1: pointers, 2: struct
  std::vector<St> body;
  EP r;
  int rline = 0, rvar = -1;
};

// ---- model
enum { W = 1, C = 2, A = 4, I = 4 }; // an element of a vector is chosen by either kind of instruction
static const char *KIND[] = {"Uninitialized value written to", "Controlflow depends on uninitialized value", "Uninitialized address used to",
                             "Instruction depends on an uninitialized index value"};
struct Obj
{
  Bytes by;
};
struct Ref
{
  Obj *o = NULL;
  size_t off = 0;
};
struct Rep
{
  int must = 0, may = 0;
};
struct Item
{
  int id, lid, gr, n; // n: items of the group
  std::map<int, Ref> frame;
  std::deque<Obj> objs;
};

struct Gen
{
  Run &r;
  Rnd &q;
  std::vector<Var> vars;
  std::vector<Fn> fns;
  std::vector<St> body;
  std::vector<int> scope; // variables usable now
  std::vector<int> bufs, locs;
  std::vector<std::string> src;
  int loopvar = -1, depth = 0, phase = 0, nloc_decl = 0;
  bool inkernel = false, infn = false, img = false;
  uint32_t texels[IMW * IMH * 4];
  size_t maxgroup = 0, items = 0;
  // model state
  std::map<std::pair<int, int>, Rep> rep;
  int line = 0;
  bool havoc = false;

  Gen(Run &r_) : r(r_), q(r_.rng) {}

  T rnd_scalar()
  {
    static const int B[] = {1, 2, 4, 4, 4, 8};
    return q(6) == 0 ? F32 : T{B[q(6)], false, 1};
  }
  T rnd_type()
  {
    T t = rnd_scalar();
    if (q(3) == 0)
      t.n = q(3) == 0 ? 4 : 2;
    return t;
  }
  int add(Var v)
  {
    vars.push_back(v);
    return vars.size() - 1;
  }
  uint64_t rnd_const(T t)
  {
    uint64_t c = q(3) == 0 ? q(4) : q(2) ? q(1000) : q.next();
    if (t.b < 8)
      c &= (1ull << (8 * t.b)) - 1;
    return c;
  }
  EP mk(int k, T t, std::vector<EP> a = {})
  {
    auto e = std::make_shared<E>();
    e->k = k;
    e->t = t;
    e->a = a;
    return e;
  }
  EP cst(T t, uint64_t c)
  {
    auto e = mk(CST, t);
    e->c = c;
    return e;
  }
  // a place of exactly this type, for reading or writing
  bool place(T t, bool write, L &l)
  {
    std::vector<int> c;
    for (int v : scope)
    {
      Var &x = vars[v];
      if (v == loopvar && write)
        continue;
      if (x.sp == CONST && write)
        continue;
      if (x.sp == LOC && write && !x.ptr && (phase + v) % 2)
        continue;
      if (x.st)
      {
        for (auto &m : MEM)
          if (m.t == t)
            c.push_back(v);
      }
      else if (x.t == t)
        c.push_back(v);
    }
    if (c.empty())
      return false;
    l = L();
    l.var = c[q(c.size())];
    l.t = t;
    Var &x = vars[l.var];
    int count = x.count;
    if (x.st)
    {
      std::vector<int> ms;
      for (size_t m = 0; m < sizeof MEM / sizeof *MEM; m++)
        if (MEM[m].t == t)
          ms.push_back(m);
      l.mem = ms[q(ms.size())];
      count = MEM[l.mem].count;
    }
    if (count)
      index(l, count);
    // in a phase in which nobody writes the array, anybody's part can be read
    if (x.sp == LOC && !x.ptr && !write && (phase + l.var) % 2)
      l.other = q(2);
    return true;
  }
  void index(L &l, int count)
  {
    int m = count >= 4 ? 3 : count >= 2 ? 1 : 0;
    if (!m || q(2))
    {
      l.idx = cst(U32, q(count));
      l.mask = 0;
      return;
    }
    std::vector<int> c;
    for (int v : scope)
      if (vars[v].t == U32 && !vars[v].count && !vars[v].st && vars[v].sp == PRIV && !vars[v].ptr)
        c.push_back(v);
    if (c.empty())
    {
      l.idx = cst(U32, q(count));
      return;
    }
    L v;
    v.var = c[q(c.size())];
    v.t = U32;
    l.idx = mk(LD, U32);
    l.idx->l = v;
    l.mask = m;
  }
  EP load(T t)
  {
    L l;
    if (!place(t, false, l))
      return cst(t, rnd_const(t));
    auto e = mk(LD, t);
    e->l = l;
    return e;
  }
  EP leaf(T t)
  {
    if (t == U32 && img && q(10) == 0)
    {
      auto e = mk(IINFO, t);
      e->op = q(5);
      return e;
    }
    return q(4) == 0 ? cst(t, rnd_const(t)) : t == U32 && q(6) == 0 && inkernel ? mk(GID, U32) : load(t);
  }
  EP simple(T t) // no reports possible
  {
    for (int i = 0; i < 4; i++)
    {
      EP e = leaf(t);
      if (e->k != LD || !e->l.mask)
        return e;
    }
    return cst(t, rnd_const(t));
  }
  EP expr(T t, int d)
  {
    if (d <= 0)
      return leaf(t);
    if (img && t == T{4, false, 4} && q(3) == 0)
      return mk(IRD, t, {expr(U32, d - 2), expr(U32, d - 2)});
    if (t.n > 1)
      switch (q(11))
      {
      case 0:
      {
        auto e = mk(MAKE, t);
        for (int i = 0; i < t.n; i++)
          e->a.push_back(expr(lane(t), d - 2));
        return e;
      }
      case 1: return mk(SPLAT, t, {expr(lane(t), d - 1)});
      case 2:
      {
        auto e = mk(SWZ, t, {expr({t.b, t.f, q(2) ? 4 : 2}, d - 1)});
        for (int i = 0; i < t.n; i++)
          e->ix.push_back(q(e->a[0]->t.n));
        return e;
      }
      case 3:
        if (t.f || t.b == 1)
          break;
        return mk(SEL, t, {simple(t), simple(t), simple(t)});
      case 4:
      {
        if (t.f)
          break;
        auto e = mk(SHUF, t, {expr({t.b, t.f, q(2) ? 4 : 2}, d - 1)});
        for (int i = 0; i < t.n; i++)
          e->ix.push_back(q(8));
        return e;
      }
      case 5:
      {
        if (t.f)
          break;
        T s = {t.b, t.f, q(2) ? 4 : 2};
        auto e = mk(SHUF2, t, {expr(s, d - 2), expr(s, d - 2)});
        for (int i = 0; i < t.n; i++)
          e->ix.push_back(q(8));
        return e;
      }
      case 6:
      case 7:
      {
        // a vector from an array of scalars
        bool half = t.f && q(2);
        T et = half ? T{2, false, 1} : lane(t);
        std::vector<int> c;
        for (int v : scope)
          if (vars[v].t == et && vars[v].count >= t.n && !vars[v].st && !(half && vars[v].sp == CONST))
            c.push_back(v);
        if (c.empty())
          break;
        auto e = mk(half ? VLDH : VLD, t);
        e->l.var = c[q(c.size())];
        e->l.t = et;
        index(e->l, vars[e->l.var].count / t.n);
        return e;
      }
      }
    else
      switch (q(12))
      {
      case 0: return mk(COMP, t, {expr({t.b, t.f, q(2) ? 4 : 2}, d - 1), cst(U32, q(2))});
      case 1:
      {
        std::vector<int> c;
        for (int v : scope)
          if (vars[v].t.n > 1 && lane(vars[v].t) == t && !vars[v].count && !vars[v].st && vars[v].sp == PRIV && !vars[v].ptr)
            c.push_back(v);
        if (c.empty())
          break;
        auto e = mk(DYN, t);
        e->l.var = c[q(c.size())];
        e->l.t = t;
        index(e->l, vars[e->l.var].t.n);
        return e;
      }
      case 2:
        if (t.f)
          break;
        {
          auto e = mk(TERN, t, {expr(T{4, false, 1}, d - 1), simple(t), simple(t)});
          return e;
        }
      case 3:
        if (t.f)
          break;
        {
          T s = {1 << q(4), false, 1};
          auto e = mk(CMP, t, {expr(s, d - 1), q(2) ? cst(s, rnd_const(s)) : expr(s, d - 2)});
          e->op = q(4);
          return e;
        }
      case 4:
      {
        T s = {1 << q(4), false, 1};
        return mk(CAST, t, {expr(s, d - 1)});
      }
      case 5:
        if (!fns.empty())
        {
          std::vector<int> c;
          for (size_t i = 0; i < fns.size(); i++)
            if (fns[i].kind == 0 && fns[i].ret == t)
              c.push_back(i);
          if (c.empty())
            break;
          auto e = mk(CALL, t);
          e->op = c[q(c.size())];
          for (int p : fns[e->op].par)
            e->a.push_back(expr(vars[p].t, d - 2));
          return e;
        }
        break;
      case 6:
        if (t == T{4, false, 1} || t == T{8, false, 1})
        {
          T s = t.b == 8 ? (q(2) ? T{4, false, 2} : T{2, false, 4}) : q(2) ? T{2, false, 2} : T{1, false, 4};
          return mk(AS, t, {expr(s, d - 1)});
        }
        break;
      case 7:
        if (t.f)
          break;
        return mk(SEL, t, {simple(t), simple(t), simple(t)});
      case 8:
        if (t == U32)
          return mk(ANY, t, {expr({4, false, q(2) ? 4 : 2}, d - 1)});
        break;
      }
    if (t.n > 1 && q(6) == 0 && !t.f && t.size() <= 8 && (t.size() == 4 || t.size() == 8))
      return mk(AS, t, {expr({t.size(), false, 1}, d - 1)});
    if (!t.f && q(8) == 0)
      return mk(q(2) ? NEG : NOT, t, {expr(t, d - 1)});
    auto e = mk(BIN, t);
    if (t.f)
    {
      e->op = "+-*/"[q(4)];
      e->a = {expr(t, d - 1), expr(t, d - 1)};
      return e;
    }
    e->op = "+-^+-^*&|/%<>"[q(13)];
    EP x = expr(t, d - 1);
    if (strchr("/%", e->op))
      e->a = {x, cst(t, 1 + q(100))};
    else if (strchr("<>", e->op) && q(4) == 0)
    { // each lane by its own amount
      auto y = mk(BIN, t);
      y->op = '&';
      y->a = {expr(t, d - 1), cst(t, 8 * t.b - 1)};
      e->a = {x, y};
    }
    else if (strchr("<>", e->op))
      e->a = {x, cst(t, q(2) ? 8 * q(t.b) : q(8 * t.b))};
    else if (strchr("*&|", e->op) && q(2))
      e->a = {x, cst(t, rnd_const(t))};
    else
      e->a = {x, expr(t, d - 1)};
    return e;
  }

  // ---- source
  std::string str(const L &l)
  {
    Var &v = vars[l.var];
    std::string s = v.name, ix;
    if (l.mem >= 0)
      s += std::string(".") + MEM[l.mem].n;
    if (l.idx)
      ix = l.mask ? "(" + str(l.idx) + " & " + std::to_string(l.mask) + "u)" : std::to_string(l.idx->c);
    if (v.ptr)
      return ix.empty() ? "(*" + s + ")" : s + "[" + ix + "]";
    if (v.sp == GLOB)
      return s + "[gid * 4 + " + ix + "]";
    if (v.sp == LOC)
      return s + (l.other ? "[(lid + 1) % lsz * 4 + " : "[lid * 4 + ") + ix + "]";
    return ix.empty() ? s : s + "[" + ix + "]";
  }
  std::string base(const L &l) // pointer to the work-item's part
  {
    Var &v = vars[l.var];
    if (v.ptr || v.sp == PRIV || v.sp == CONST)
      return v.name;
    return v.name + (v.sp == GLOB ? " + gid * 4" : " + lid * 4");
  }
  static const char *spname(int sp) { return sp == GLOB ? "global" : sp == LOC ? "local" : sp == CONST ? "constant" : "private"; }
  std::string cs(T t, uint64_t c)
  {
    char b[60];
    if (t.f)
      snprintf(b, sizeof b, "%u.5f", (unsigned)(c % 1000));
    else
      snprintf(b, sizeof b, t.b == 8 ? "0x%lxul" : t.b == 4 ? "0x%lxu" : t.b == 2 ? "(ushort)0x%lx" : "(uchar)0x%lx", c);
    return b;
  }
  std::string str(const EP &e)
  {
    T t = e->t;
    auto &a = e->a;
    switch (e->k)
    {
    case CST: return t.n > 1 ? "(" + name(t) + ")(" + cs(t, e->c) + ")" : cs(t, e->c);
    case GID: return "(uint)gid";
    case LD: return str(e->l);
    case IRD: return "read_imageui(im, smp, (int2)((int)(" + str(a[0]) + " & 7u), (int)(" + str(a[1]) + " & 1u)))";
    case IINFO:
    {
      static const char *F[] = {"width(im)", "height(im)", "dim(im).y", "channel_order(im)", "channel_data_type(im)"};
      return std::string("(uint)get_image_") + F[e->op];
    }
    case BIN:
    {
      std::string op = e->op == '<' ? "<<" : e->op == '>' ? ">>" : std::string(1, e->op);
      std::string s = str(a[0]) + " " + op + " " + str(a[1]);
      return t.n > 1 ? "(" + s + ")" : "(" + name(t) + ")(" + s + ")";
    }
    case NEG: return t.n > 1 ? "(-" + str(a[0]) + ")" : "(" + name(t) + ")(-" + str(a[0]) + ")";
    case NOT: return t.n > 1 ? "(~" + str(a[0]) + ")" : "(" + name(t) + ")(~" + str(a[0]) + ")";
    case CAST: return "(" + name(t) + ")" + str(a[0]);
    case CMP:
    {
      static const char *O[] = {"==", "!=", "<", ">="};
      return "(" + name(t) + ")(" + str(a[0]) + " " + O[e->op] + " " + str(a[1]) + ")";
    }
    case TERN: return "(" + name(t) + ")(" + str(a[0]) + " ? " + str(a[1]) + " : " + str(a[2]) + ")";
    case MAKE:
    {
      std::string s = "(" + name(t) + ")(";
      for (size_t i = 0; i < a.size(); i++)
        s += (i ? ", " : "") + str(a[i]);
      return s + ")";
    }
    case SPLAT: return "(" + name(t) + ")(" + str(a[0]) + ")";
    case COMP: return "(" + str(a[0]) + ").s" + std::to_string(a[1]->c);
    case SWZ:
    {
      std::string s = "(" + str(a[0]) + ").s";
      for (int i : e->ix)
        s += std::to_string(i);
      return s;
    }
    case DYN:
      return vars[e->l.var].name + "[" + (e->l.mask ? str(e->l.idx) + " & " + std::to_string(e->l.mask) + "u" : std::to_string(e->l.idx->c)) + "]";
    case AS: return "as_" + name(t) + "(" + str(a[0]) + ")";
    case CALL:
    {
      std::string s = fns[e->op].name + "(";
      for (size_t i = 0; i < a.size(); i++)
        s += (i ? ", " : "") + str(a[i]);
      return s + ")";
    }
    case SEL: return "select(" + str(a[0]) + ", " + str(a[1]) + ", " + str(a[2]) + ")";
    case ANY: return "(uint)any(as_int" + std::to_string(a[0]->t.n) + "(" + str(a[0]) + "))";
    case SHUF:
    case SHUF2:
    {
      std::string s = e->k == SHUF ? "shuffle(" + str(a[0]) : "shuffle2(" + str(a[0]) + ", " + str(a[1]);
      s += ", (" + name({t.b, false, t.n}) + ")(";
      for (int i = 0; i < t.n; i++)
        s += (i ? ", " : "") + std::to_string(e->ix[i]);
      return s + "))";
    }
    case VLD:
    case VLDH:
    {
      std::string ix = e->l.mask ? str(e->l.idx) + " & " + std::to_string(e->l.mask) + "u" : std::to_string(e->l.idx->c);
      if (e->k == VLD)
        return "vload" + std::to_string(t.n) + "(" + ix + ", " + base(e->l) + ")";
      return "vload_half" + std::to_string(t.n) + "(" + ix + ", (const " + spname(vars[e->l.var].sp) + " half *)(" + base(e->l) + "))";
    }
    }
    return "?";
  }
  int out(const std::string &s)
  {
    src.push_back(s);
    return src.size();
  }
  void emit(std::vector<St> &b, const std::string &in)
  {
    for (auto &s : b)
    {
      Var *v = s.l.var >= 0 ? &vars[s.l.var] : NULL;
      switch (s.k)
      {
      case S_DECL:
      {
        std::string d = v->st ? "struct S" : name(v->t);
        d += " " + v->name;
        if (v->count)
          d += "[" + std::to_string(v->count) + "]";
        if (s.e)
          d += " = " + str(s.e);
        else if (s.n)
        {
          d += " = {";
          for (int i = 0; i < s.n; i++)
            d += (i ? ", " : "") + (v->t.n > 1 ? "(" + name(v->t) + ")(" + cs(v->t, s.ix[i]) + ")" : cs(v->t, s.ix[i]));
          d += "}";
        }
        s.line = out(in + d + ";");
        break;
      }
      case S_ZERO: s.line = out(in + v->name + " = (struct S){" + cs(U8, s.n) + "};"); break;
      case S_IMW: s.line = out(in + "write_imageui(wi, (int2)((int)gid, 0), " + str(s.e) + ");"); break;
      case S_SET: s.line = out(in + str(s.l) + " = " + str(s.e) + ";"); break;
      case S_V3: s.line = out(in + "*(" + spname(vars[s.l.var].sp) + " " + name(s.e->t) + " *)&" + str(s.l) + " = " + str(s.e) + ";"); break;
      case S_COMP: s.line = out(in + v->name + ".s" + std::to_string(s.n) + " = " + str(s.e) + ";"); break;
      case S_SWZ:
        s.line = out(in + v->name + ".s" + std::to_string(s.ix[0]) + std::to_string(s.ix[1]) + " = " + str(s.e) + ";");
        break;
      case S_DYN:
        s.line = out(in + v->name + "[" + (s.l.mask ? str(s.l.idx) + " & " + std::to_string(s.l.mask) + "u" : std::to_string(s.l.idx->c)) +
                     "] = " + str(s.e) + ";");
        break;
      case S_IF:
        s.line = out(in + "if (" + str(s.e) + ")");
        out(in + "{");
        emit(s.a, in + "  ");
        out(in + "}");
        if (!s.b.empty())
        {
          out(in + "else");
          out(in + "{");
          emit(s.b, in + "  ");
          out(in + "}");
        }
        break;
      case S_FOR:
        s.line = out(in + "for (uint " + v->name + " = 0; " + v->name + " < " + std::to_string(s.n) + "; " + v->name + "++)");
        out(in + "{");
        emit(s.a, in + "  ");
        out(in + "}");
        break;
      case S_SWITCH:
        s.line = out(in + "switch (" + str(s.e) + ")");
        out(in + "{");
        out(in + "case 0:");
        emit(s.a, in + "  ");
        out(in + "  break;");
        out(in + "case 1:");
        out(in + "case 7:");
        emit(s.b, in + "  ");
        out(in + "  break;");
        out(in + "}");
        break;
      case S_ATOM:
      {
        static const char *O[] = {"atomic_add", "atomic_sub", "atomic_xor", "atomic_inc", "atomic_dec", "atomic_max", "atomic_and", "atomic_xchg", "atomic_cmpxchg"};
        std::string x = std::string(O[s.op]) + "(&" + str(s.l2);
        if (s.op == 8)
          x += ", " + std::to_string(s.n & 3) + "u";
        if (s.op != 3 && s.op != 4)
          x += ", " + std::to_string(s.n) + "u";
        s.line = out(in + str(s.l) + " = " + x + ");");
        break;
      }
      case S_COPY: s.line = out(in + v->name + " = " + vars[s.l2.var].name + ";"); break;
      case S_CALLV:
        s.line = out(in + fns[s.op].name + "(" + (vars[fns[s.op].par[0]].sp == PRIV || !s.l.idx ? "&" + str(s.l) : base(s.l)) + ", &" + str(s.l2) +
                     ", " + str(s.e) + ");");
        break;
      case S_STCALL:
        s.line = out(in + v->name + " = " + fns[s.op].name + "(" + vars[s.l2.var].name + ", " + str(s.e) + ");");
        break;
      case S_BAR: s.line = out(in + "barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);"); break;
      case S_ASYNC:
      {
        std::string g = vars[s.l2.var].name + " + get_group_id(0) * lmax * 4", n = std::to_string(s.op) + (s.ix.empty() ? "" : " * lsz");
        std::string d = s.n ? g : v->name, f = s.n ? v->name : g;
        out(in + "barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);");
        std::string ev = "ev" + std::to_string(src.size());
        if (s.ix.empty())
          s.line = out(in + "event_t " + ev + " = async_work_group_copy(" + d + ", " + f + ", " + std::to_string(s.op) + " * lsz, 0);");
        else
          s.line = out(in + "event_t " + ev + " = async_work_group_strided_copy(" + d + ", " + f + ", " + std::to_string(s.op) + " * lsz, " +
                       std::to_string(s.ix[0]) + ", 0);");
        s.line2 = out(in + "wait_group_events(1, &" + ev + ");");
        break;
      }
      case S_VST:
      case S_VSTH:
      {
        std::string ix = s.l.mask ? str(s.l.idx) + " & " + std::to_string(s.l.mask) + "u" : std::to_string(s.l.idx->c);
        if (s.k == S_VST)
          s.line = out(in + "vstore" + std::to_string(s.e->t.n) + "(" + str(s.e) + ", " + ix + ", " + base(s.l) + ");");
        else
          s.line = out(in + "vstore_half" + std::to_string(s.e->t.n) + "(" + str(s.e) + ", " + ix + ", (" + spname(v->sp) + " half *)(" + base(s.l) + "));");
        break;
      }
      case S_PTR2:
      {
        static const char *O[] = {"fract", "modf", "sincos", "frexp", "lgamma_r", "remquo"};
        int n = s.e->t.n;
        std::string p = "&" + str(s.l2);
        if (s.op >= 3)
          p = std::string("(") + spname(vars[s.l2.var].sp) + " int" + (n > 1 ? std::to_string(n) : "") + " *)" + p;
        s.line = out(in + str(s.l) + " = " + O[s.op] + "(" + str(s.e) + (s.op == 5 ? ", " + str(s.e2) : "") + ", " + p + ");");
        break;
      }
      }
    }
  }

  // ---- statements
  St stmt(int d)
  {
    St s;
    for (int tries = 0; tries < 20; tries++)
    {
      s = St();
      int k = q(opt ? 26 : 27); // optimisers make vectors of four lanes of those of three, one undefined
      T t = rnd_type();
      if (k < 9)
      {
        s.k = S_SET;
        if (q(2))
        { // prefer memory
          std::vector<int> c;
          for (int v : scope)
            if (vars[v].count && vars[v].sp != CONST)
              c.push_back(v);
          if (!c.empty())
            t = vars[c[q(c.size())]].t;
        }
        if (!place(t, true, s.l))
          continue;
        s.e = expr(t, 1 + q(3));
        return s;
      }
      auto pick = [&](auto f) {
        std::vector<int> c;
        for (int v : scope)
          if (f(vars[v]))
            c.push_back(v);
        return c.empty() ? -1 : c[q(c.size())];
      };
      auto vecvar = [&] { return pick([](Var &v) { return v.t.n > 1 && !v.count && !v.st && v.sp == PRIV && !v.ptr; }); };
      if (k == 9)
      {
        s.k = S_COMP;
        if ((s.l.var = vecvar()) < 0)
          continue;
        s.n = q(vars[s.l.var].t.n);
        s.e = expr(lane(vars[s.l.var].t), 2);
        return s;
      }
      if (k == 10)
      {
        s.k = S_SWZ;
        if ((s.l.var = vecvar()) < 0)
          continue;
        T vt = vars[s.l.var].t;
        s.ix = {(int)q(vt.n), 0};
        s.ix[1] = (s.ix[0] + 1 + q(vt.n - 1)) % vt.n;
        s.e = expr({vt.b, vt.f, 2}, 2);
        return s;
      }
      if (k == 11)
      {
        s.k = S_DYN;
        if ((s.l.var = vecvar()) < 0)
          continue;
        index(s.l, vars[s.l.var].t.n);
        s.e = expr(lane(vars[s.l.var].t), 2);
        return s;
      }
      if (k < 15 && d > 0)
      {
        s.k = k == 14 ? S_SWITCH : S_IF;
        s.e = expr(k == 14 ? U32 : T{1 << q(4), false, 1}, 1 + q(2));
        for (int n = 1 + q(2); n--;)
          s.a.push_back(stmt(d - 1));
        if (s.k == S_SWITCH || q(2))
          for (int n = 1 + q(2); n--;)
            s.b.push_back(stmt(d - 1));
        return s;
      }
      if (k == 15 && d > 0 && loopvar < 0)
      {
        s.k = S_FOR;
        Var v;
        v.name = "i" + std::to_string(vars.size());
        v.t = U32;
        loopvar = s.l.var = add(v);
        scope.push_back(loopvar);
        s.n = 1 + q(4);
        for (int n = 1 + q(2); n--;)
          s.a.push_back(stmt(d - 1));
        scope.erase(std::find(scope.begin(), scope.end(), loopvar));
        loopvar = -1;
        return s;
      }
      if (k == 16 || k == 17)
      {
        s.k = S_ATOM;
        s.l.var = pick([](Var &v) { return v.t == U32 && !v.count && !v.st && v.sp == PRIV && !v.ptr; });
        s.l.t = U32;
        if (s.l.var < 0 || s.l.var == loopvar)
          continue;
        if (!place(U32, true, s.l2) || vars[s.l2.var].sp == PRIV || vars[s.l2.var].ptr)
          continue;
        s.op = q(9);
        s.n = 1 + q(100);
        return s;
      }
      if (k == 18)
      {
        auto f = [](Var &v) { return v.st; };
        s.k = q(4) == 0 ? S_ZERO : S_COPY;
        if ((s.l.var = pick(f)) < 0)
          continue;
        s.l2.var = pick(f);
        s.n = q(9);
        if (s.k == S_COPY && s.l.var == s.l2.var)
          continue;
        return s;
      }
      if (k == 19 && !infn)
      {
        std::vector<int> c;
        for (size_t i = 0; i < fns.size(); i++)
          if (fns[i].kind)
            c.push_back(i);
        if (c.empty())
          continue;
        s.op = c[q(c.size())];
        Fn &f = fns[s.op];
        if (f.kind == 2)
        {
          s.k = S_STCALL;
          auto g = [](Var &v) { return v.st; };
          if ((s.l.var = pick(g)) < 0)
            continue;
          s.l2.var = pick(g);
          s.e = expr(U32, 1);
          return s;
        }
        s.k = S_CALLV;
        Var p0 = vars[f.par[0]], p1 = vars[f.par[1]];
        int ph = phase;
        s.l.var = pick([&](Var &v) { return v.t == p0.t && v.count >= 4 && v.sp == p0.sp && !v.st; });
        if (s.l.var < 0 || (vars[s.l.var].sp == LOC && (ph + s.l.var) % 2))
          continue;
        s.l.t = p0.t;
        s.l.idx = cst(U32, 0);
        if (!place(p1.t, true, s.l2) || vars[s.l2.var].sp != PRIV || s.l2.var == s.l.var || s.l2.mask || s.l2.mem >= 0)
          continue;
        s.e = expr(vars[f.par[2]].t, 1);
        return s;
      }
      if (k == 20 || k == 21)
      {
        bool half = q(3) == 0;
        T vt = half ? T{4, true, q(2) ? 2 : 4} : T{1 << q(4), false, q(2) ? 2 : 4};
        T et = half ? T{2, false, 1} : lane(vt);
        int ph = phase;
        s.k = half ? S_VSTH : S_VST;
        s.l.var = pick([&](Var &v) { return v.t == et && v.count >= vt.n && v.sp != CONST && !v.st; });
        if (s.l.var < 0 || (vars[s.l.var].sp == LOC && !vars[s.l.var].ptr && (ph + s.l.var) % 2))
          continue;
        s.l.t = et;
        index(s.l, vars[s.l.var].count / vt.n);
        s.e = expr(vt, 2);
        return s;
      }
      if (k == 26)
      {
        s.k = S_V3;
        t.n = 4;
        if (!place(t, true, s.l))
          continue;
        t.n = 3;
        s.e = mk(MAKE, t, {simple(lane(t)), simple(lane(t)), simple(lane(t))});
        return s;
      }
      if (k == 23 && img && q(2))
      {
        s.k = S_IMW;
        s.e = expr({4, false, 4}, 2);
        return s;
      }
      if (k == 22)
      {
        s.k = S_PTR2;
        s.op = q(6);
        T ft = {4, true, 1};
        if (q(2))
          ft.n = q(2) ? 2 : 4;
        T pt = s.op >= 3 ? T{4, false, ft.n} : ft;
        if (!place(ft, true, s.l) || s.l.mask || !place(pt, true, s.l2) || s.l2.mask || s.l2.mem >= 0 || s.l2.var == s.l.var)
          continue;
        if (vars[s.l.var].sp != PRIV)
          continue;
        s.e = simple(ft);
        s.e2 = simple(ft);
        return s;
      }
    }
    s = St();
    s.k = S_SET;
    for (;;)
      if (place(rnd_type(), true, s.l))
        break;
    s.e = expr(s.l.t, 2);
    return s;
  }
  void decls(std::vector<St> &b, int n, bool always)
  {
    for (int i = 0; i < n; i++)
    {
      Var v;
      v.t = always && i < 2 ? U32 : rnd_type();
      int k = q(6);
      St s;
      s.k = S_DECL;
      v.name = "v" + std::to_string(vars.size());
      if (k == 0 && !opt && !(always && i < 2))
      {
        v.st = true;
        v.t = {SSIZE, false, 1};
      }
      else if (k <= 2 && !(always && i < 2))
      {
        v.count = 4 + q(3);
        if (q(2) || opt)
        {
          s.n = 1 + q(v.count);
          for (int j = 0; j < s.n; j++)
            s.ix.push_back(q(200));
        }
      }
      else if ((q(2) && (!always || i != 1)) || opt)
        s.e = expr(v.t, 1 + q(2));
      s.l.var = add(v);
      s.l.t = v.t;
      b.push_back(s);
      scope.push_back(s.l.var);
    }
  }
  void functions()
  {
    int n = q(4);
    for (int i = 0; i < n; i++)
    {
      Fn f;
      f.name = "h" + std::to_string(i);
      f.kind = q(4) < 2 ? 0 : 1 + q(2);
      if (opt && f.kind == 2)
        f.kind = 0;
      scope.clear();
      infn = true;
      phase = 0;
      loopvar = -1;
      auto par = [&](T t, int sp, int count, bool st) {
        Var v;
        v.name = "p" + std::to_string(vars.size());
        v.t = t;
        v.st = st;
        v.ptr = count > 0;
        v.count = count > 1 ? count : 0;
        v.sp = sp;
        v.arg = true;
        f.par.push_back(add(v));
        scope.push_back(f.par.back());
      };
      if (f.kind == 0)
      {
        for (int k = 1 + q(3); k--;)
          par(rnd_type(), PRIV, 0, false);
        f.ret = rnd_type();
        decls(f.body, q(3), false);
        for (int k = q(3); k--;)
          f.body.push_back(stmt(1));
        f.r = expr(f.ret, 2);
      }
      else if (f.kind == 1)
      {
        T t0 = rnd_type();
        par(t0, q(2) ? PRIV : q(2) ? GLOB : LOC, 4, false);
        par(rnd_type(), PRIV, 1, false);
        par(rnd_type(), PRIV, 0, false);
        decls(f.body, q(2), false);
        for (int k = 1 + q(3); k--;)
          f.body.push_back(stmt(1));
      }
      else
      {
        par({SSIZE, false, 1}, PRIV, 0, true);
        par(U32, PRIV, 0, false);
        for (int k = 1 + q(2); k--;)
          f.body.push_back(stmt(0));
      }
      infn = false;
      fns.push_back(f);
    }
    scope.clear();
  }

  // ---- interpretation
  void note(int bits, bool must, Item &w)
  {
    Rep &x = rep[{w.id, line}];
    x.may |= bits;
    if (must && !havoc)
      x.must |= bits;
  }
  void note_store(const By *p, size_t n, int sp, Item &w)
  {
    if (havoc)
      note(15, false, w);
    if (sp == PRIV)
      return;
    if (int s = worst(p, n))
      note(W, s == POISON, w);
  }
  // bounds of the bytes the place may be at; true if it is one place
  bool where(const L &l, Item &w, Ref &rf, size_t &span, size_t esize, int count)
  {
    Var &v = vars[l.var];
    rf = w.frame.at(l.var);
    if (l.other)
      rf.off = (w.lid + 1) % w.n * SL * v.t.size();
    if (l.mem >= 0)
      rf.off += MEM[l.mem].off;
    span = esize;
    if (!l.idx)
      return true;
    if (!l.mask)
    {
      rf.off += l.idx->c * esize;
      return true;
    }
    Val i = eval(l.idx, w);
    uint64_t x;
    if (known(&i.by[0], 1, x))
    {
      rf.off += (x & l.mask) * esize;
      if (worst(&i.by[0], 4))
        note(A | I, false, w); // the rest of the index is cut off
      return true;
    }
    bool poison = i.by[0].st == POISON;
    last_index = poison ? 2 : 1;
    span = esize * (l.mask + 1);
    (void)count;
    return false;
  }
  int last_index = 0;
  Bytes load(const L &l, Item &w, size_t esize, int kind = A)
  {
    Ref rf;
    size_t span;
    if (where(l, w, rf, span, esize, 0))
      return Bytes(rf.o->by.begin() + rf.off, rf.o->by.begin() + rf.off + esize);
    note(kind, last_index == 2, w);
    Bytes b(esize);
    smear(b.data(), esize, MAYBE);
    return b;
  }
  void store(const L &l, Item &w, const Bytes &b, int kind = A, bool silent = false, int padding = 0)
  {
    Ref rf;
    size_t span;
    bool one = where(l, w, rf, span, b.size(), 0);
    if (!silent)
      note_store(b.data(), b.size(), vars[l.var].sp, w);
    if (!one)
      note(kind, last_index == 2, w);
    if (one && !havoc)
    {
      std::copy(b.begin(), b.end() - padding, rf.o->by.begin() + rf.off);
      smear(&rf.o->by[rf.off + b.size() - padding], padding, MAYBE);
    }
    else
      smear(&rf.o->by[rf.off], span, MAYBE);
  }
  void bin(int op, bool flt, const By *x, const By *y, By *o, int b)
  {
    uint64_t u, v, m = b == 8 ? ~0ull : (1ull << (8 * b)) - 1;
    int wx = worst(x, b), wy = worst(y, b);
    if (flt)
    {
      int s = std::max(wx, wy);
      smear(o, b, s == POISON && strchr("+-", op) ? POISON : s ? MAYBE : OK);
      return;
    }
    bool ky = known(y, b, v);
    if (known(x, b, u) && ky)
    {
      uint64_t z = 0;
      switch (op)
      {
      case '+': z = u + v; break;
      case '-': z = u - v; break;
      case '^': z = u ^ v; break;
      case '&': z = u & v; break;
      case '|': z = u | v; break;
      case '*': z = u * v; break;
      case '/': z = u / v; break;
      case '%': z = u % v; break;
      case '<': z = u << v; break;
      case '>': z = u >> v; break;
      }
      put(o, b, z & m);
      return;
    }
    if (!wx && !wy)
    {
      smear(o, b, OK);
      return;
    }
    By t[8];
    smear(t, b, MAYBE);
    if (strchr("+-^", op))
    {
      for (int i = 0; i < b; i++)
        if (x[i].st == POISON || y[i].st == POISON)
          t[i].st = POISON;
    }
    else if (strchr("<>", op) && ky && v % 8 == 0)
    {
      int k = v / 8;
      for (int i = 0; i < b; i++)
      {
        int j = op == '<' ? i - k : i + k;
        if (j >= 0 && j < b)
          t[i] = x[j];
        else
          t[i] = {OK, 1, 0};
      }
    }
    else if (strchr("<>", op) && wy == POISON && known(x, b, u) && u)
      smear(t, b, POISON);
    else if (strchr("&|", op) && ky)
    {
      for (int i = 0; i < b; i++)
      {
        uint8_t c = v >> (8 * i);
        if (x[i].st == POISON && (op == '&' ? c != 0 : c != 255))
          t[i].st = POISON;
      }
    }
    else if (op == '*' && ky && (v & 1))
    {
      for (int i = 0; i < b; i++)
        if (x[i].st)
        {
          t[i].st = x[i].st;
          break;
        }
    }
    std::copy(t, t + b, o);
  }
  Val eval(const EP &e, Item &w)
  {
    T t = e->t;
    Val r;
    r.t = t;
    r.by.resize(t.size());
    auto &a = e->a;
    int b = t.b;
    switch (e->k)
    {
    case CST:
      for (int i = 0; i < t.n; i++)
        if (t.f)
          smear(&r.by[i * b], b, OK);
        else
          put(&r.by[i * b], b, e->c);
      break;
    case GID: put(r.by.data(), b, w.id); break;
    case LD: r.by = load(e->l, w, t.size()); break;
    case IRD: // undefined coordinates are not tracked
    {
      Val x = eval(a[0], w), y = eval(a[1], w);
      uint64_t u, v;
      if (known(x.by.data(), 1, u) && known(y.by.data(), 1, v))
        for (int i = 0; i < 4; i++)
          put(&r.by[i * 4], 4, texels[((v & 1) * IMW + (u & 7)) * 4 + i]);
      else
        smear(r.by.data(), 16, x.by[0].st || y.by[0].st ? MAYBE : OK);
      if (worst(x.by.data(), 4) || worst(y.by.data(), 4))
        note(A | I, false, w);
      break;
    }
    case IINFO:
      if (e->op < 3)
        put(r.by.data(), b, e->op ? IMH : IMW);
      else
        smear(r.by.data(), b, OK);
      break;
    case BIN:
    {
      Val x = eval(a[0], w), y = eval(a[1], w);
      for (int i = 0; i < t.n; i++)
        bin(e->op, t.f, &x.by[i * b], &y.by[i * b], &r.by[i * b], b);
      break;
    }
    case NEG:
    case NOT:
    {
      Val x = eval(a[0], w);
      By c[8];
      put(c, b, e->k == NEG ? 0 : ~0ull);
      for (int i = 0; i < t.n; i++)
        bin(e->k == NEG ? '-' : '^', false, c, &x.by[i * b], &r.by[i * b], b);
      break;
    }
    case CAST:
    {
      Val x = eval(a[0], w);
      if (t.f)
      {
        int s = worst(x.by.data(), x.by.size());
        smear(r.by.data(), b, s == POISON && all(x.by.data(), x.by.size(), POISON) ? POISON : s ? MAYBE : OK);
      }
      else
        for (int i = 0; i < b; i++)
          r.by[i] = i < x.t.b ? x.by[i] : By{OK, 1, 0};
      break;
    }
    case CMP:
    {
      Val x = eval(a[0], w), y = eval(a[1], w);
      int sb = x.t.b;
      uint64_t u, v;
      put(r.by.data(), b, 0);
      if (known(x.by.data(), sb, u) && known(y.by.data(), sb, v))
        put(r.by.data(), b, e->op == 0 ? u == v : e->op == 1 ? u != v : e->op == 2 ? u < v : u >= v);
      else
      {
        int wx = worst(x.by.data(), sb), wy = worst(y.by.data(), sb), s = std::max(wx, wy);
        if (s == POISON)
          s = e->op < 2 && ((!wy && all(x.by.data(), sb, POISON)) || (!wx && all(y.by.data(), sb, POISON))) ? POISON : MAYBE;
        r.by[0] = {(uint8_t)s, 0, 0};
      }
      break;
    }
    case TERN:
    {
      Val c = eval(a[0], w), x = eval(a[1], w), y = eval(a[2], w);
      uint64_t v;
      if (known(c.by.data(), c.by.size(), v))
        r.by = v ? x.by : y.by;
      else
      {
        if (worst(c.by.data(), c.by.size()))
          note(C, false, w);
        smear(r.by.data(), b, MAYBE);
      }
      break;
    }
    case MAKE:
      for (int i = 0; i < t.n; i++)
      {
        Val x = eval(a[i], w);
        std::copy(x.by.begin(), x.by.end(), r.by.begin() + i * b);
      }
      break;
    case SPLAT:
    {
      Val x = eval(a[0], w);
      for (int i = 0; i < t.n; i++)
        std::copy(x.by.begin(), x.by.end(), r.by.begin() + i * b);
      break;
    }
    case COMP:
    {
      Val x = eval(a[0], w);
      std::copy_n(x.by.begin() + a[1]->c * b, b, r.by.begin());
      break;
    }
    case SWZ:
    {
      Val x = eval(a[0], w);
      for (int i = 0; i < t.n; i++)
        std::copy_n(x.by.begin() + e->ix[i] * b, b, r.by.begin() + i * b);
      break;
    }
    case DYN: r.by = load(e->l, w, b, I); break;
    case AS: r.by = eval(a[0], w).by; break;
    case CALL:
    {
      std::vector<Val> args;
      for (auto &x : a)
        args.push_back(eval(x, w));
      Fn &f = fns[e->op];
      std::map<int, Ref> fr;
      std::deque<Obj> os;
      for (size_t i = 0; i < args.size(); i++)
      {
        os.push_back({args[i].by});
        fr[f.par[i]] = {&os.back(), 0};
      }
      r = call(f, fr, os, w);
      break;
    }
    case SEL:
    {
      Val x = eval(a[0], w), y = eval(a[1], w), m = eval(a[2], w);
      for (int i = 0; i < t.n; i++)
      {
        uint64_t v;
        By *o = &r.by[i * b];
        if (known(&m.by[i * b], b, v))
        {
          bool s = t.n > 1 ? v >> (8 * b - 1) & 1 : v != 0;
          std::copy_n(s ? &y.by[i * b] : &x.by[i * b], b, o);
        }
        else
          smear(o, b, MAYBE);
      }
      break;
    }
    case ANY:
    {
      Val x = eval(a[0], w);
      bool k = true, z = false;
      int s = worst(x.by.data(), x.by.size());
      for (int i = 0; i < x.t.n; i++)
      {
        uint64_t v;
        k &= known(&x.by[i * 4], 4, v);
        z |= v >> 31 & 1;
      }
      if (k)
        put(r.by.data(), b, z);
      else
        smear(r.by.data(), b, s ? MAYBE : OK);
      break;
    }
    case SHUF:
    case SHUF2:
    {
      Val x = eval(a[0], w);
      if (e->k == SHUF2)
      {
        Val y = eval(a[1], w);
        x.by.insert(x.by.end(), y.by.begin(), y.by.end());
      }
      int n = x.by.size() / b;
      for (int i = 0; i < t.n; i++)
        std::copy_n(x.by.begin() + e->ix[i] % n * b, b, r.by.begin() + i * b);
      break;
    }
    case VLD: r.by = load(e->l, w, t.size()); break;
    case VLDH:
    {
      Bytes h = load(e->l, w, t.n * 2);
      for (int i = 0; i < t.n; i++)
        smear(&r.by[i * 4], 4, all(&h[i * 2], 2, POISON) ? POISON : worst(&h[i * 2], 2) ? MAYBE : OK);
      break;
    }
    }
    return r;
  }
  Val call(Fn &f, std::map<int, Ref> &fr, std::deque<Obj> &os, Item &w)
  {
    int l0 = line;
    std::swap(w.frame, fr);
    std::swap(w.objs, os);
    for (auto &s : f.body)
      exec(s, w);
    Val r;
    r.t = f.ret;
    line = f.rline;
    if (f.r)
      r = eval(f.r, w);
    else if (f.kind == 2)
      r.by = w.frame.at(f.par[0]).o->by;
    if (havoc)
      note(15, false, w);
    std::swap(w.frame, fr);
    std::swap(w.objs, os);
    line = l0;
    return r;
  }
  void block(std::vector<St> &b, Item &w)
  {
    for (auto &s : b)
      exec(s, w);
  }
  void exec(St &s, Item &w)
  {
    line = s.line;
    if (havoc)
      note(15, false, w);
    switch (s.k)
    {
    case S_DECL:
    {
      Var &v = vars[s.l.var];
      Bytes b(v.t.size() * std::max(1, v.count));
      if (s.e)
        b = eval(s.e, w).by;
      else if (s.n)
      {
        for (int i = 0; i < v.count * v.t.n; i++)
        {
          uint64_t c = i / v.t.n < s.n ? s.ix[i / v.t.n] : 0;
          if (v.t.f)
            smear(&b[i * v.t.b], v.t.b, OK);
          else
            put(&b[i * v.t.b], v.t.b, c);
        }
      }
      else
        smear(b.data(), b.size(), POISON);
      w.objs.push_back({b});
      w.frame[s.l.var] = {&w.objs.back(), 0};
      if (havoc)
        smear(w.objs.back().by.data(), b.size(), MAYBE);
      break;
    }
    case S_ZERO:
    {
      Bytes b(SSIZE);
      put(&b[0], 1, s.n);
      // padding
      for (int i = 1; i < 4; i++)
        b[i].st = MAYBE, b[i].kn = 0;
      for (int i = 14; i < 16; i++)
        b[i].st = MAYBE, b[i].kn = 0;
      L l = s.l;
      store(l, w, b);
      break;
    }
    case S_IMW: // what images hold is not tracked
    {
      line = s.line;
      Val v = eval(s.e, w);
      if (worst(v.by.data(), v.by.size()))
        note(15, false, w);
      break;
    }
    case S_SET:
    {
      Val v = eval(s.e, w);
      line = s.line;
      store(s.l, w, v.by);
      break;
    }
    case S_V3: // what lies behind the third lane may change or not
    {
      Val v = eval(s.e, w);
      line = s.line;
      int b = v.t.b;
      v.by.resize(4 * b);
      store(s.l, w, v.by, A, false, b);
      break;
    }
    case S_COMP:
    case S_SWZ:
    {
      Val v = eval(s.e, w);
      Ref rf = w.frame.at(s.l.var);
      int b = vars[s.l.var].t.b;
      for (int i = 0; i < v.t.n; i++)
      {
        By *p = &rf.o->by[rf.off + (s.k == S_COMP ? s.n : s.ix[i]) * b];
        if (havoc)
          smear(p, b, MAYBE);
        else
          std::copy_n(&v.by[i * b], b, p);
      }
      break;
    }
    case S_DYN:
    {
      Val v = eval(s.e, w);
      line = s.line;
      L l = s.l;
      store(l, w, v.by, I);
      break;
    }
    case S_IF:
    case S_SWITCH:
    {
      Val v = eval(s.e, w);
      uint64_t c;
      bool h = havoc;
      if (known(v.by.data(), v.by.size(), c))
      {
        if (s.k == S_IF)
          block(c ? s.a : s.b, w);
        else if (c == 0)
          block(s.a, w);
        else if (c == 1 || c == 7)
          block(s.b, w);
        if (!h)
          break;
      }
      else if (worst(v.by.data(), v.by.size()))
        note(C, all(v.by.data(), v.by.size(), POISON), w);
      havoc = true;
      block(s.a, w);
      block(s.b, w);
      havoc = h;
      break;
    }
    case S_FOR:
    {
      w.objs.push_back({Bytes(4)});
      Obj &o = w.objs.back();
      w.frame[s.l.var] = {&o, 0};
      for (int i = 0; i < s.n; i++)
      {
        put(o.by.data(), 4, i);
        block(s.a, w);
      }
      break;
    }
    case S_ATOM:
    {
      Bytes old = load(s.l2, w, 4), nw(4);
      uint64_t o;
      Ref rf;
      size_t span;
      bool one = where(s.l2, w, rf, span, 4, 0);
      if (worst(old.data(), 4))
      {
        // the update depends on what was there
        bool dep = s.op < 5;
        smear(nw.data(), 4, MAYBE);
        if (dep)
          for (int i = 0; i < 4; i++)
            nw[i].st = old[i].st == POISON ? POISON : MAYBE;
        if (dep)
          note(W, worst(old.data(), 4) == POISON, w);
        else
          note(W, false, w);
        if (s.op == 8)
          note(C, false, w);
      }
      else if (known(old.data(), 4, o))
      {
        uint32_t x = o, n = s.n;
        switch (s.op)
        {
        case 0: x += n; break;
        case 1: x -= n; break;
        case 2: x ^= n; break;
        case 3: x++; break;
        case 4: x--; break;
        case 5: x = std::max(x, n); break;
        case 6: x &= n; break;
        case 7: x = n; break;
        case 8: x = x == (n & 3) ? n : x; break;
        }
        put(nw.data(), 4, x);
      }
      else
        smear(nw.data(), 4, OK);
      if (one && !havoc)
        std::copy(nw.begin(), nw.end(), rf.o->by.begin() + rf.off);
      else
        smear(&rf.o->by[rf.off], span, MAYBE);
      store(s.l, w, old);
      break;
    }
    case S_COPY:
    {
      Bytes b = w.frame.at(s.l2.var).o->by;
      L l = s.l;
      store(l, w, b, A, true);
      break;
    }
    case S_STCALL:
    {
      Fn &f = fns[s.op];
      Bytes b = w.frame.at(s.l2.var).o->by;
      Val x = eval(s.e, w);
      std::map<int, Ref> fr;
      std::deque<Obj> os;
      os.push_back({b});
      fr[f.par[0]] = {&os.back(), 0};
      os.push_back({x.by});
      fr[f.par[1]] = {&os.back(), 0};
      Val v = call(f, fr, os, w);
      L l = s.l;
      store(l, w, v.by, A, true);
      break;
    }
    case S_CALLV:
    {
      Fn &f = fns[s.op];
      Val x = eval(s.e, w);
      std::map<int, Ref> fr;
      std::deque<Obj> os;
      fr[f.par[0]] = w.frame.at(s.l.var);
      Ref rf;
      size_t span;
      where(s.l2, w, rf, span, s.l2.t.size(), 0);
      fr[f.par[1]] = rf;
      os.push_back({x.by});
      fr[f.par[2]] = {&os.back(), 0};
      call(f, fr, os, w);
      break;
    }
    case S_VST:
    {
      Val v = eval(s.e, w);
      line = s.line;
      store(s.l, w, v.by);
      break;
    }
    case S_VSTH:
    {
      Val v = eval(s.e, w);
      line = s.line;
      Bytes h(v.t.n * 2);
      for (int i = 0; i < v.t.n; i++)
        smear(&h[i * 2], 2, all(&v.by[i * 4], 4, POISON) ? POISON : worst(&v.by[i * 4], 4) ? MAYBE : OK);
      store(s.l, w, h);
      break;
    }
    case S_PTR2:
    {
      Val v = eval(s.e, w), y = eval(s.e2, w);
      Bytes o(v.by.size());
      for (int i = 0; i < v.t.n; i++)
      {
        int st = all(&v.by[i * 4], 4, POISON) ? POISON : worst(&v.by[i * 4], 4) ? MAYBE : OK;
        if (s.op == 5 && worst(&y.by[i * 4], 4))
          st = MAYBE;
        smear(&o[i * 4], 4, st);
      }
      store(s.l2, w, o);
      store(s.l, w, o);
      break;
    }
    }
  }
};

struct Buf
{
  int var;
  cl_mem m = NULL;
  std::vector<uint8_t> host; // CL_MEM_USE_HOST_PTR
  Obj o;
};

struct Msg
{
  std::string text;
};


static void setup(const std::string &variant)
{
  setenv("OCLGRIND_PLUGINS", BUILD_DIR "/libobs.so", 1);
  setenv("OCLGRIND_UNINITIALIZED", "1", 1);
  opt = variant == "opt";
  setenv("OCLGRIND_MAX_ERRORS", "1000000", 1);
  obs_hooks.threadsafe = 1;
  cl_setup_platform();
  CTX = cl_new_context();
  cl_build(CTX, "kernel void warm(global int *a) { a[0] = 1; }", "");
}
#define CK(x) r.require_cl((x), CL_SUCCESS, #x)

static void simulate(Run &r, Gen &g)
{
  Rnd &q = r.rng;
  // shape
  size_t groups = 1 + q(4), L = 1 + q(6), items = groups * L;
  g.items = items;
  g.maxgroup = L;
  int workers = 1 + q(4);
  g.out("struct S { uchar a; uint b; ushort c[3]; ulong d; uint2 e; };");
  g.out("constant uint ctab[4] = {1, 2, 3, 70000};");
  g.functions();
  for (auto &f : g.fns)
  {
    std::string s = f.kind == 0 ? name(f.ret) : f.kind == 1 ? "void" : "struct S";
    s += " " + f.name + "(";
    for (size_t i = 0; i < f.par.size(); i++)
    {
      Var &v = g.vars[f.par[i]];
      s += i ? ", " : "";
      s += v.ptr ? std::string(Gen::spname(v.sp)) + " " + name(v.t) + " *" + v.name : (v.st ? "struct S" : name(v.t)) + " " + v.name;
    }
    g.out(s + ")");
    g.out("{");
    g.emit(f.body, "  ");
    if (f.kind == 0)
      f.rline = g.out("  return " + g.str(f.r) + ";");
    else if (f.kind == 2)
      f.rline = g.out("  return " + g.vars[f.par[0]].name + ";");
    else
      f.rline = 0;
    g.out("}");
  }
  // kernel
  g.scope.clear();
  g.inkernel = true;
  std::vector<Buf> bufs(1 + q(4));
  std::string sig = "kernel void k(";
  for (auto &b : bufs)
  {
    Var v;
    v.t = g.rnd_type();
    v.count = SL;
    v.sp = GLOB;
    v.name = "g" + std::to_string(g.vars.size());
    b.var = g.add(v);
    g.scope.push_back(b.var);
    sig += (&b == &bufs[0] ? "global " : ", global ") + name(v.t) + " *" + v.name;
  }
  std::vector<int> larg, lvar, varg;
  for (int i = q(3); i--;)
  {
    Var v;
    v.t = q(2) ? g.vars[bufs[q(bufs.size())].var].t : g.rnd_type();
    v.count = SL;
    v.sp = LOC;
    v.name = "l" + std::to_string(g.vars.size());
    larg.push_back(g.add(v));
    g.scope.push_back(larg.back());
    sig += ", local " + name(v.t) + " *" + v.name;
  }
  for (int i = q(3); i--;)
  {
    Var v;
    v.t = g.rnd_type();
    v.arg = true;
    if (q(4) == 0 && !opt)
    {
      v.st = true;
      v.t = {SSIZE, false, 1};
    }
    v.name = "x" + std::to_string(g.vars.size());
    varg.push_back(g.add(v));
    g.scope.push_back(varg.back());
    sig += ", " + (v.st ? "struct S" : name(v.t)) + " " + v.name;
  }
  if ((g.img = q(2)))
  {
    sig += ", read_only image2d_t im, write_only image2d_t wi";
    for (auto &x : g.texels)
      x = q(3) == 0 ? q.next() : q(4);
  }
  sig += ")";
  g.out(sig);
  g.out("{");
  g.out("  size_t gid = get_global_id(0), lid = get_local_id(0), lsz = get_local_size(0), lmax = get_local_size(0);");
  if (g.img)
    g.out("  const sampler_t smp = CLK_NORMALIZED_COORDS_FALSE | CLK_ADDRESS_CLAMP_TO_EDGE | CLK_FILTER_NEAREST;");
  for (int i = q(3); i--;)
  {
    Var v;
    v.t = q(2) ? g.vars[bufs[q(bufs.size())].var].t : g.rnd_type();
    v.count = SL;
    v.sp = LOC;
    v.name = "l" + std::to_string(g.vars.size());
    lvar.push_back(g.add(v));
    g.scope.push_back(lvar.back());
    g.out("  local " + name(v.t) + " " + v.name + "[" + std::to_string(L * SL) + "];");
  }
  {
    Var v;
    v.t = U32;
    v.count = SL;
    v.sp = CONST;
    v.name = "ctab";
    g.scope.push_back(g.add(v));
  }
  int ctab = g.vars.size() - 1;
  if (opt)
  {
    for (auto *ls : {&larg, &lvar})
      for (int l : *ls)
        for (int j = 0; j < SL; j++)
          g.out("  " + g.vars[l].name + "[lid * 4 + " + std::to_string(j) + "] = " + g.cs(g.vars[l].t, 3) + ";");
    g.out("  barrier(CLK_LOCAL_MEM_FENCE);");
  }
  g.decls(g.body, 2 + q(6), true);
  int n = 1 + q(q(3) == 0 ? 40 : 12);
  std::vector<int> locs = larg;
  locs.insert(locs.end(), lvar.begin(), lvar.end());
  for (int i = 0; i < n; i++)
  {
    St s;
    int ph = g.phase;
    if (q(6) == 0)
    {
      s.k = S_BAR;
      std::vector<std::pair<int, int>> c;
      for (int l : locs)
        for (auto &b : bufs)
          if (g.vars[l].t == g.vars[b.var].t && !(g.vars[l].t.f && 0))
            c.push_back({l, b.var});
      if (!c.empty() && q(2))
      {
        auto p = c[q(c.size())];
        s.k = S_ASYNC;
        s.l.var = p.first;
        s.l2.var = p.second;
        s.n = q(2);
        s.op = 1 + q(SL);
        if (q(3) == 0)
        {
          int st = 1 + q(3);
          s.ix = {st};
          s.op = std::max(1, s.op / st);
        }
      }
      g.phase++;
    }
    else
      s = g.stmt(2);
    if (r.keep())
      g.body.push_back(s);
    else
      g.phase = ph; // the statements that follow were chosen for the next phase, but only the model of it differs
    if (s.k == S_BAR || s.k == S_ASYNC)
      g.phase = ph + 1;
  }
  g.emit(g.body, "  ");
  g.out("}");
  std::string src;
  for (auto &s : g.src)
    src += s + "\n";
  for (size_t i = 0; i < g.src.size(); i++)
    r.d("%zu: %s", i + 1, g.src[i].c_str());
  r.d("%zu groups of %zu, %d workers", groups, L, workers);

  set_threads(workers);
  r.begin();
  cl_int e;
  const char *sp = src.c_str();
  cl_program p = clCreateProgramWithSource(CTX, 1, &sp, NULL, &e);
  r.require_cl(e, CL_SUCCESS, "clCreateProgramWithSource");
  static const char *OPT[] = {"-cl-std=CL1.2", "-cl-std=CL1.2 -O1", "-cl-std=CL1.2 -O2", "-cl-std=CL1.2 -O3", "-cl-std=CL1.2 -Os"};
  if (clBuildProgram(p, 1, &g_device, opt ? OPT[q(5)] : "-cl-opt-disable -cl-std=CL1.2", NULL, NULL) != CL_SUCCESS)
  {
    char log[2000] = "";
    clGetProgramBuildInfo(p, g_device, CL_PROGRAM_BUILD_LOG, sizeof log, log, NULL);
    fprintf(stderr, "%s", log);
    r.fail("internal", "build: %.600s", log);
  }
  cl_kernel k = clCreateKernel(p, "k", &e);
  auto refused = [&] {
    std::string o = captured_stderr();
    if (!opt || (o.find("Undefined external function: llvm.") == std::string::npos && o.find("Unsupported") == std::string::npos))
      return false;
    // an optimisation introduced something that the interpreter does not support: refused with a diagnostic
    r.stat("refused_unsupported_ir");
    r.end();
    return true;
  };
  if (e == CL_INVALID_KERNEL_NAME && refused())
    return;
  r.require_cl(e, CL_SUCCESS, "clCreateKernel");
  cl_command_queue cq = clCreateCommandQueue(CTX, g_device, 0, &e);
  r.require_cl(e, CL_SUCCESS, "clCreateCommandQueue");

  auto create = [&](Buf &b) {
    size_t size = items * SL * g.vars[b.var].t.size();
    int how = q(4);
    if (!r.keep())
      how = 0;
    if (opt)
      how |= 2;
    cl_mem_flags fl = how == 2 ? CL_MEM_COPY_HOST_PTR : how == 3 ? CL_MEM_USE_HOST_PTR : 0;
    b.host.assign(size, 0);
    for (auto &x : b.host)
      x = q(3) == 0 ? q(256) : q(4);
    b.o.by.resize(size);
    for (size_t i = 0; i < size; i++)
      b.o.by[i] = how < 2 ? By{POISON, 0, 0} : By{OK, 1, b.host[i]};
    b.m = clCreateBuffer(CTX, CL_MEM_READ_WRITE | fl, size, fl ? b.host.data() : NULL, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
    r.d("%s: %s", g.vars[b.var].name.c_str(), how < 2 ? "created" : how == 2 ? "copied" : "host pointer");
  };
  for (auto &b : bufs)
    create(b);
  cl_mem im = NULL, wi = NULL;
  if (g.img)
  {
    cl_image_format fm = {CL_RGBA, CL_UNSIGNED_INT32};
    cl_image_desc de = {};
    de.image_type = CL_MEM_OBJECT_IMAGE2D;
    de.image_width = IMW;
    de.image_height = IMH;
    im = clCreateImage(CTX, CL_MEM_READ_ONLY | CL_MEM_COPY_HOST_PTR, &fm, &de, g.texels, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateImage");
    de.image_width = 24;
    de.image_height = 1;
    wi = clCreateImage(CTX, CL_MEM_WRITE_ONLY, &fm, &de, NULL, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateImage");
  }
  int launches = 1 + q(3);
  for (int ln = 0; ln < launches; ln++)
  {
    // host commands
    for (int i = q(5); i--;)
    {
      Buf &b = bufs[q(bufs.size())];
      const char *bn = g.vars[b.var].name.c_str();
      size_t size = b.o.by.size(), off = q(4) == 0 ? 0 : q(size), len = 1 + q(size - off);
      int what = q(9);
      std::vector<uint8_t> d(len);
      for (auto &x : d)
        x = q(3) == 0 ? q(256) : q(4);
      size_t pat = 1 << q(3);
      Buf &b2 = bufs[q(bufs.size())];
      size_t off2 = q(b2.o.by.size());
      if (!r.keep())
        continue;
      switch (what)
      {
      case 0:
      case 1:
        CK(clEnqueueWriteBuffer(cq, b.m, q(2), off, len, d.data(), 0, NULL, NULL));
        CK(clFinish(cq));
        for (size_t j = 0; j < len; j++)
          b.o.by[off + j] = {OK, 1, d[j]};
        r.d("write %s %zu+%zu", bn, off, len);
        break;
      case 2:
        off = off / pat * pat;
        len = std::max(pat, len / pat * pat);
        if (off + len > size)
          break;
        CK(clEnqueueFillBuffer(cq, b.m, d.data(), d.size() < pat ? (pat = 1) : pat, off, len, 0, NULL, NULL));
        for (size_t j = 0; j < len; j++)
          b.o.by[off + j] = {OK, 1, d[j % pat]};
        r.d("fill %s %zu+%zu by %zu", bn, off, len, pat);
        CK(clFinish(cq));
        break;
      case 3:
        if (&b2 == &b)
          break;
        len = std::min(len, b2.o.by.size() - off2);
        CK(clEnqueueCopyBuffer(cq, b2.m, b.m, off2, off, len, 0, NULL, NULL));
        for (size_t j = 0; j < len; j++)
        {
          By x = b2.o.by[off2 + j];
          if (x.st)
            x = {MAYBE, 0, 0};
          b.o.by[off + j] = x;
        }
        r.d("copy %s %zu to %s %zu+%zu", g.vars[b2.var].name.c_str(), off2, bn, off, len);
        break;
      case 4:
      case 5:
      {
        cl_map_flags fl = what == 4 ? CL_MAP_WRITE_INVALIDATE_REGION : CL_MAP_WRITE;
        uint8_t *x = (uint8_t *)clEnqueueMapBuffer(cq, b.m, CL_TRUE, fl, off, len, 0, NULL, NULL, &e);
        r.require_cl(e, CL_SUCCESS, "clEnqueueMapBuffer");
        memcpy(x, d.data(), len);
        CK(clEnqueueUnmapMemObject(cq, b.m, x, 0, NULL, NULL));
        for (size_t j = 0; j < len; j++)
          b.o.by[off + j] = {OK, 1, d[j]};
        r.d("map %s %zu+%zu for writing", bn, off, len);
        break;
      }
      case 6:
      {
        void *x = clEnqueueMapBuffer(cq, b.m, CL_TRUE, CL_MAP_READ, off, len, 0, NULL, NULL, &e);
        r.require_cl(e, CL_SUCCESS, "clEnqueueMapBuffer");
        CK(clEnqueueUnmapMemObject(cq, b.m, x, 0, NULL, NULL));
        r.d("map %s %zu+%zu for reading", bn, off, len);
        break;
      }
      case 7:
      {
        size_t w = 1 + q(8), pitch = w + q(8), h = 1 + q(4);
        if (off + pitch * (h - 1) + w > size || d.size() < w * h)
          break;
        size_t bo[3] = {off % pitch, off / pitch, 0}, ho[3] = {0, 0, 0}, rg[3] = {w, h, 1};
        if (bo[0] + w > pitch)
          break;
        CK(clEnqueueWriteBufferRect(cq, b.m, CL_TRUE, bo, ho, rg, pitch, 0, w, 0, d.data(), 0, NULL, NULL));
        for (size_t y = 0; y < h; y++)
          for (size_t x = 0; x < w; x++)
            b.o.by[off + y * pitch + x] = {OK, 1, d[y * w + x]};
        r.d("write %s rectangle at %zu, %zu by %zu, pitch %zu", bn, off, w, h, pitch);
        break;
      }
      case 8:
        CK(clFinish(cq));
        CK(clReleaseMemObject(b.m));
        create(b);
        break;
      }
    }
    CK(clFinish(cq));
    // arguments
    int ai = 0;
    for (auto &b : bufs)
      CK(clSetKernelArg(k, ai++, sizeof(cl_mem), &b.m));
    for (int l : larg)
      CK(clSetKernelArg(k, ai++, L * SL * g.vars[l].t.size(), NULL));
    std::vector<Bytes> va;
    for (int v : varg)
    {
      T t = g.vars[v].t;
      uint8_t raw[64];
      for (auto &x : raw)
        x = q(3) == 0 ? q(256) : q(3);
      Bytes b(t.size());
      for (int i = 0; i < t.size(); i++)
        b[i] = {OK, 1, raw[i]};
      va.push_back(b);
      CK(clSetKernelArg(k, ai++, t.size(), raw));
    }
    if (g.img)
    {
      CK(clSetKernelArg(k, ai++, sizeof im, &im));
      CK(clSetKernelArg(k, ai++, sizeof wi, &wi));
    }
    // what must happen
    g.rep.clear();
    for (size_t gr = 0; gr < groups; gr++)
    {
      std::map<int, Obj> lo;
      for (int l : locs)
      {
        lo[l].by.resize(L * SL * g.vars[l].t.size());
        T t = g.vars[l].t;
        Bytes &by = lo[l].by;
        smear(by.data(), by.size(), opt ? OK : POISON);
        if (opt && !t.f)
          for (size_t i = 0; i < by.size(); i += t.b)
            put(&by[i], t.b, 3);
      }
      std::vector<Item> ws(L);
      for (size_t i = 0; i < L; i++)
      {
        Item &w = ws[i];
        w.id = gr * L + i;
        w.lid = i;
        w.gr = gr;
        w.n = L;
        for (auto &b : bufs)
          w.frame[b.var] = {&b.o, (size_t)w.id * SL * g.vars[b.var].t.size()};
        for (int l : locs)
          w.frame[l] = {&lo[l], i * SL * g.vars[l].t.size()};
        for (size_t v = 0; v < varg.size(); v++)
        {
          w.objs.push_back({va[v]});
          w.frame[varg[v]] = {&w.objs.back(), 0};
        }
        w.objs.push_back({Bytes(16)});
        uint32_t tab[4] = {1, 2, 3, 70000};
        for (int j = 0; j < 4; j++)
          put(&w.objs.back().by[j * 4], 4, tab[j]);
        w.frame[ctab] = {&w.objs.back(), 0};
      }
      for (size_t at = 0; at < g.body.size();)
      {
        size_t to = at;
        while (to < g.body.size() && g.body[to].k != S_BAR && g.body[to].k != S_ASYNC)
          to++;
        for (auto &w : ws)
          for (size_t i = at; i < to; i++)
            g.exec(g.body[i], w);
        if (to < g.body.size() && g.body[to].k == S_ASYNC)
        {
          St &s = g.body[to];
          T t = g.vars[s.l.var].t;
          Obj *l = &lo[s.l.var], *b = ws[0].frame[s.l2.var].o;
          size_t go = ws[0].frame[s.l2.var].off, st = s.ix.empty() ? 1 : s.ix[0], sz = t.size();
          int worst_ = 0;
          for (size_t i = 0; i < s.op * L; i++)
          {
            By *x = &l->by[i * sz], *y = &b->by[go + i * st * sz];
            if (s.n)
              std::copy_n(x, sz, y);
            else
              std::copy_n(y, sz, x);
            worst_ = std::max(worst_, worst(x, sz));
          }
          g.line = s.line;
          for (auto &w : ws)
            if (worst_)
              g.note(W, false, w);
          if (worst_ == POISON)
            g.rep[{-1 - (int)gr, s.line}].must |= W; // of some work-item
        }
        at = to + 1;
      }
    }
    size_t gs = items, ls = L;
    g_logs.clear();
    obs_start(1u << OB_LOG);
    std::function<void()> launch = [&] {
      CK(clEnqueueNDRangeKernel(cq, k, 1, NULL, &gs, &ls, 0, NULL, NULL));
      CK(clFinish(cq));
    };
    if (q(3) == 0)
    {
      pthread_t th;
      pthread_create(&th, NULL, [](void *f) -> void * { (*(std::function<void()> *)f)(); return NULL; }, &launch);
      pthread_join(th, NULL);
    }
    else
      launch();
    obs_stop();
    if (refused())
      return;
    bool may = false;
    if (opt) // lines and instructions are not those of the source
    {
      for (auto &x : g.rep)
        may |= x.second.may != 0;
      if (!may && !g_logs.empty())
        r.fail("uninit-false", "launch %d: uses defined data only, but: %.500s", ln, g_logs[0].c_str());
      g.rep.clear();
      g_logs.clear();
      r.stat(may ? "optimised_launches_unjudged" : "optimised_launches");
    }
    // what did happen
    std::map<std::pair<int, int>, int> got;
    for (auto &m : g_logs)
    {
      int kind = -1;
      for (int i = 0; i < 4; i++)
        if (m.find(KIND[i]) != std::string::npos)
          kind = i;
      size_t pe = m.find("Entity: Global("), pl = m.find("At line ");
      if (kind < 0 || pe == std::string::npos || pl == std::string::npos)
        r.fail("uninit", "unexpected message: %.500s", m.c_str());
      int id = atoi(m.c_str() + pe + 15), ln_ = atoi(m.c_str() + pl + 8);
      if (m.find("Kernel: k") == std::string::npos)
        r.fail("uninit", "wrong kernel: %.500s", m.c_str());
      kind = kind == 3 ? A : 1 << kind;
      got[{id, ln_}] |= kind;
      got[{-1 - id / (int)L, ln_}] |= kind;
      Rep x = g.rep.count({id, ln_}) ? g.rep[{id, ln_}] : Rep();
      if (!(x.may & kind))
        r.fail("uninit-false", "launch %d: work-item %d uses defined data only in line %d (%s), but: %.300s", ln, id, ln_,
               ln_ > 0 && ln_ <= (int)g.src.size() ? g.src[ln_ - 1].c_str() : "?", m.c_str());
      r.stat("reports");
    }
    uint64_t must = 0, h = 0;
    for (auto &x : g.rep)
    {
      int miss = x.second.must & ~got[x.first];
      must += x.second.must != 0;
      h = h * 31 + x.second.must * 16 + x.second.may;
      if (miss)
        for (int i = 0; i < 4; i++)
          if (miss & 1 << i)
            r.fail("uninit-missed", "launch %d: %s %d, line %d (%s): no report \"%s\"", ln, x.first.first < 0 ? "a work-item of group" : "work-item",
                   x.first.first < 0 ? -1 - x.first.first : x.first.first, x.first.second, g.src[x.first.second - 1].c_str(), KIND[i]);
    }
    r.stat("due_reports", must);
    r.stat("clean_launches", g_logs.empty());
    r.stat("launches");
    r.nontrivial(h);
    // and the results are those of the program
    for (auto &b : bufs)
    {
      std::vector<uint8_t> d(b.o.by.size());
      CK(clEnqueueReadBuffer(cq, b.m, CL_TRUE, 0, d.size(), d.data(), 0, NULL, NULL));
      for (size_t i = 0; i < d.size(); i++)
        if (b.o.by[i].st == OK && b.o.by[i].kn && b.o.by[i].v != d[i])
          r.fail("uninit-result", "launch %d: byte %zu of %s is %u instead of %u", ln, i, g.vars[b.var].name.c_str(), d[i], b.o.by[i].v);
    }
  }
  for (auto &b : bufs)
    CK(clReleaseMemObject(b.m));
  for (cl_mem m : {im, wi})
    if (m)
      CK(clReleaseMemObject(m));
  CK(clReleaseCommandQueue(cq));
  CK(clReleaseKernel(k));
  CK(clReleaseProgram(p));
  r.end();
  r.stat("items", items);
}
static void run(Run &r)
{
  Gen g(r);
  simulate(r, g);
}
static RegWorkload reg("uninit", setup, run);
} // namespace
