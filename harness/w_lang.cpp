// C01: randomly generated OpenCL C kernels (scalars, vectors, structs,
// arrays, pointers, calls, loops, switches, local memory and barriers) against
// a reference evaluator of the same syntax tree.
#include "h.h"
#include <cmath>
#include <cfenv>

namespace
{

enum Kind : uint8_t { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64 };
static const char *KN[] = {"char", "uchar", "short", "ushort", "int", "uint",
                           "long", "ulong", "float", "double"};
static const int KS[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
struct Ty
{
  uint8_t k = I32, w = 1;
  bool operator==(const Ty &o) const { return k == o.k && w == o.w; }
};
static bool is_flt(int k) { return k >= F32; }
static bool is_sgn(int k) { return k < F32 && !(k & 1); }
static int sgn_of(int k) { return k & ~1; }
static int uns_of(int k) { return k | 1; }
static std::string tn(Ty t)
{
  std::string s = KN[t.k];
  if (t.w > 1)
    s += std::to_string(t.w);
  return s;
}
static size_t ty_align(Ty t) { return KS[t.k] * (t.w == 3 ? 4 : t.w); }
static size_t ty_size(Ty t) { return ty_align(t); }
static Ty mk(int k, int w = 1)
{
  Ty t;
  t.k = k;
  t.w = w;
  return t;
}

struct V
{
  Ty t;
  uint64_t u[16];
};

// canonical storage: integers zero-extended to their width
static uint64_t trunc_to(int k, uint64_t x)
{
  int b = KS[k] * 8;
  return b == 64 ? x : x & ((1ull << b) - 1);
}
static int64_t sx(int k, uint64_t x)
{
  switch (KS[k])
  {
  case 1: return (int8_t)x;
  case 2: return (int16_t)x;
  case 4: return (int32_t)x;
  }
  return (int64_t)x;
}
static double getf(int k, uint64_t x)
{
  if (k == F32)
  {
    uint32_t i = x;
    float f;
    memcpy(&f, &i, 4);
    return f;
  }
  double d;
  memcpy(&d, &x, 8);
  return d;
}
static uint64_t putf(int k, double d)
{
  if (k == F32)
  {
    float f = (float)d;
    uint32_t i;
    memcpy(&i, &f, 4);
    return i;
  }
  uint64_t x;
  memcpy(&x, &d, 8);
  return x;
}
static uint64_t putf32(float f)
{
  uint32_t i;
  memcpy(&i, &f, 4);
  return i;
}
// scalar conversion; float to integer operands are guarded by the generator
static uint64_t conv(int from, int to, uint64_t x)
{
  if (is_flt(from) && is_flt(to))
    return putf(to, getf(from, x));
  if (is_flt(from))
  {
    double d = getf(from, x);
    return trunc_to(to, (uint64_t)(int64_t)d);
  }
  if (is_flt(to))
  {
    if (is_sgn(from))
    {
      int64_t s = sx(from, x);
      return to == F32 ? putf32((float)s) : putf(F64, (double)s);
    }
    return to == F32 ? putf32((float)x) : putf(F64, (double)x);
  }
  return trunc_to(to, is_sgn(from) ? (uint64_t)sx(from, x) : x);
}

enum Op
{
  // expressions
  CONST, VAR, ARR, INB, TAB, PTRLD, SWZ, VECLIT, SPLAT, DYN,
  ADD, SUB, MUL, AND, OR, XOR, SHL, SHR, DIV, REM, // binary
  EQ, NE, LT, LE, GT, GE, LAND, LOR, TERN, VSEL,
  NEG, NOT, LNOT, CAST, AS, F2I, BI, CALL, STRARG, LOCLD, ID, SIDE, FMA,
  SARG
};
enum SOp
{
  S_ASG, S_SWZASG, S_DYNASG, S_ARRASG, S_PTRASG, S_COMP, S_INC, S_IF, S_FOR,
  S_WHILE, S_DO, S_SWITCH, S_BREAK, S_CONT, S_SCOPY, S_SETPTR, S_SHARE,
  S_RET, S_BLOCK, S_SCALL, S_VLOAD, S_MEMSET, S_ROT, S_PMOD
};
enum Bi
{
  B_ABS, B_ABSDIFF, B_ADDSAT, B_SUBSAT, B_HADD, B_RHADD, B_CLZ, B_POPC, B_ROT,
  B_MULHI, B_MUL24, B_MAD24, B_MIN, B_MAX, B_CLAMP, B_BITSEL, B_SELECT, B_MADHI,
  B_FABS, B_FLOOR, B_CEIL, B_TRUNC, B_ISNAN, B_ISINF, B_SIGNBIT, B_ANY, B_ALL,
  B_SHUF, B_UPS, B_MADSAT, B_CONV, B_N
};
static const char *BN[] = {"abs", "abs_diff", "add_sat", "sub_sat", "hadd", "rhadd",
                           "clz", "popcount", "rotate", "mul_hi", "mul24", "mad24",
                           "min", "max", "clamp", "bitselect", "select", "mad_hi", "fabs",
                           "floor", "ceil", "trunc", "isnan", "isinf", "signbit",
                           "any", "all", "shuffle", "upsample", "mad_sat", "convert"};
static const char *RM[] = {"", "_rte", "_rtz", "_rtp", "_rtn"};

struct Struct;
struct Var
{
  std::string name;
  Ty t;
  int slot = 0;
  int n = 0;         // array length, 0: plain
  Struct *st = NULL; // struct variable
  bool ptr = false;  // pointer into an array: value = absolute slot
  int plen = 0;      // valid elements behind the pointer
  bool ro = false;   // loop counters
};
struct Field
{
  std::string name;
  Ty t;
  int n; // 0 scalar
  int slot;
  size_t off;
};
struct Struct
{
  std::string name;
  std::vector<Field> f;
  int slots;
  size_t size, align;
};
struct E;
struct S;
struct Func
{
  std::string name;
  Ty ret;
  Struct *sret = NULL;
  std::vector<Var> params;
  std::vector<Var> vars;
  int slots = 0;
  std::vector<S *> body;
  E *retv = NULL;
  int retslot = -1;
  bool noinl = false;
};
struct E
{
  Op op;
  Ty t;
  std::vector<E *> k;
  uint64_t c[16] = {0};
  int slot = 0, n = 0;
  std::string name;
  Func *f = NULL;
  std::vector<int> idx;
};
struct S
{
  SOp op;
  std::vector<E *> e;
  std::vector<std::vector<S *>> b;
  std::vector<std::vector<uint64_t>> cases;
  int slot = 0, n = 0, slot2 = 0;
  Ty t;
  std::string name, name2;
  std::vector<int> idx;
  Op bop = ADD;
  Func *f = NULL;
  bool flag = false;
};

static const int NIN = 16; // elements of each input buffer
struct Gen
{
  Rnd &q;
  Run &r;
  std::vector<Struct *> structs;
  std::vector<Func *> funcs;
  Func *cur = NULL;
  std::vector<Var> scope;
  int nv = 0, depth = 0, loops = 0, cost = 0;
  bool fp64 = true;
  bool infunc = false;
  std::map<int, std::vector<std::vector<uint64_t>>> tabs; // kind -> tables
  std::vector<std::pair<Ty, std::vector<V>>> tables;
  struct Loc
  {
    Ty t;
    std::string name;
  };
  std::vector<Loc> locals;
  Gen(Rnd &qq, Run &rr) : q(qq), r(rr) {}

  Ty rty(bool flt = true, bool vec = true)
  {
    Ty t;
    if (flt && q(5) == 0)
      t.k = q(fp64 ? 3 : 1) == 2 ? F64 : F32;
    else
      t.k = q(8);
    static const int W[] = {1, 1, 1, 1, 1, 2, 3, 4, 4, 8, 16};
    t.w = vec ? W[q(11)] : 1;
    return t;
  }
  uint64_t rbits(int k)
  {
    if (is_flt(k))
    {
      switch (q(12))
      {
      case 0: return putf(k, 0.0);
      case 1: return putf(k, -0.0);
      case 2: return putf(k, q(2) ? INFINITY : -INFINITY);
      case 3: return putf(k, NAN);
      case 4: return putf(k, (double)(int)(q(200)) - 100);
      case 5: return putf(k, ((double)(int)(q(20000)) - 10000) / 64);
      case 6: return putf(k, std::ldexp(1.0 + q(1000) / 1000.0, (int)q(250) - 125));
      case 7: return putf(k, -std::ldexp(1.0 + q(1000) / 1000.0, (int)q(60) - 30));
      default: return putf(k, ((double)(int64_t)q.next()) / 1e17);
      }
    }
    switch (q(9))
    {
    case 0: return 0;
    case 1: return trunc_to(k, ~0ull);
    case 2: return trunc_to(k, 1ull << (KS[k] * 8 - 1));
    case 3: return trunc_to(k, (1ull << (KS[k] * 8 - 1)) - 1);
    case 4: return q(10);
    case 5: return trunc_to(k, 0 - q(10));
    case 6: return trunc_to(k, 0x4000004000000001ull >> (64 - KS[k] * 8));
    default: return trunc_to(k, q.next());
    }
  }
  E *ne(Op op, Ty t)
  {
    E *e = new E;
    e->op = op;
    e->t = t;
    return e;
  }
  E *konst(Ty t)
  {
    E *e = ne(CONST, t);
    for (int i = 0; i < t.w; i++)
      e->c[i] = rbits(t.k);
    return e;
  }
  E *kint(Ty t, uint64_t v)
  {
    E *e = ne(CONST, t);
    for (int i = 0; i < t.w; i++)
      e->c[i] = v;
    return e;
  }
  // ----------------------------------------------------------- leaves
  // scalars/vectors reachable as static slots: (name, slot, type)
  struct LV
  {
    std::string name;
    int slot;
    Ty t;
    bool ro;
  };
  std::vector<LV> lvs()
  {
    std::vector<LV> o;
    for (auto &v : scope)
    {
      if (v.ptr)
        continue;
      if (v.st)
      {
        for (auto &f : v.st->f)
          for (int i = 0; i < (f.n ? f.n : 1); i++)
            o.push_back({v.name + "." + f.name + (f.n ? "[" + std::to_string(i) + "]" : ""),
                         v.slot + f.slot + i, f.t, v.ro});
      }
      else if (v.n)
      {
        for (int i = 0; i < v.n; i++)
          o.push_back({v.name + "[" + std::to_string(i) + "]", v.slot + i, v.t, v.ro});
      }
      else
        o.push_back({v.name, v.slot, v.t, v.ro});
    }
    return o;
  }
  E *var(const LV &l)
  {
    E *e = ne(VAR, l.t);
    e->slot = l.slot;
    e->name = l.name;
    return e;
  }
  // small non-negative int in [0,n)
  E *index(int n, int d)
  {
    E *e = expr(mk(q(3) ? U32 : (q(2) ? U8 : U64)), d - 1);
    E *m = ne(REM, e->t);
    m->k = {e, kint(e->t, n)};
    return m;
  }
  E *leaf(Ty t)
  {
    auto l = lvs();
    std::vector<int> ok, comp;
    for (size_t i = 0; i < l.size(); i++)
    {
      if (l[i].t == t)
        ok.push_back(i);
      if (l[i].t.k == t.k && l[i].t.w > 1)
        comp.push_back(i);
    }
    int c = q(12);
    if (c < 6 && !ok.empty())
      return var(l[ok[q(ok.size())]]);
    if (c < 8 && !comp.empty() && t.w <= 4)
      return swz(var(l[comp[q(comp.size())]]), t.w);
    if (c < 10)
    {
      // input buffer element(s)
      E *e = ne(INB, t);
      e->k = {kint(mk(U32), q(NIN))};
      if (q(3) == 0 && !l.empty())
      {
        std::vector<int> s;
        for (size_t i = 0; i < l.size(); i++)
          if (!is_flt(l[i].t.k) && l[i].t.w == 1)
            s.push_back(i);
        if (!s.empty())
        {
          E *v = var(l[s[q(s.size())]]);
          E *cst = ne(CAST, mk(U32));
          cst->k = {v};
          E *m = ne(REM, mk(U32));
          m->k = {cst, kint(mk(U32), NIN)};
          e->k[0] = m;
        }
      }
      return e;
    }
    if (c == 10 && t.w == 1 && !is_flt(t.k))
    {
      E *e = ne(ID, mk(U64));
      e->n = q(8);
      return cast(e, t);
    }
    return konst(t);
  }
  E *swz(E *v, int w)
  {
    E *e = ne(SWZ, mk(v->t.k, w));
    e->k = {v};
    int sw = v->t.w;
    if (w > 1 && w * 2 == (sw == 3 ? 4 : sw) && q(2))
    {
      e->n = 1 + q(4); // lo hi even odd
      if (sw == 3 && (e->n == 2 || e->n == 4))
        e->n = 1 + 2 * q(2);
      for (int i = 0; i < w; i++)
        e->idx.push_back(e->n == 1 ? i : e->n == 2 ? sw / 2 + i : e->n == 3 ? 2 * i : 2 * i + 1);
      return e;
    }
    for (int i = 0; i < w; i++)
      e->idx.push_back(q(sw));
    return e;
  }
  E *cast(E *e, Ty t)
  {
    if (e->t == t)
      return e;
    E *c;
    if (is_flt(e->t.k) && !is_flt(t.k))
    {
      if (e->t.w != 1 || t.w != 1)
        abort();
      c = ne(F2I, t);
    }
    else
      c = ne(CAST, t);
    c->k = {e};
    return c;
  }
  // every expression is an element the minimiser may replace by a constant
  E *expr(Ty t, int d)
  {
    bool k = r.keep();
    E *e = expr1(t, d);
    if (k)
      return e;
    E *c = ne(CONST, t);
    for (int i = 0; i < 16; i++)
      c->c[i] = is_flt(t.k) ? putf(t.k, 1.0) : 1;
    return c;
  }
  // a condition: often a comparison, possibly negated, also of NaNs
  E *cond(int d)
  {
    if (d <= 0 || q(2))
      return expr(mk(q(8)), d);
    E *e = ne((Op)(EQ + q(6)), mk(I32));
    Ty ot = rty(true, false);
    if (q(3) == 0)
      ot.k = fp64 && q(2) ? F64 : F32;
    e->k = {expr(ot, d - 1), expr(ot, d - 1)};
    if (q(3) == 0)
    {
      E *n = ne(LNOT, mk(I32));
      n->k = {e};
      e = n;
    }
    if (q(6) == 0)
    {
      E *l = ne(q(2) ? LAND : LOR, mk(I32));
      l->k = {e, cond(d - 1)};
      e = l;
    }
    return e;
  }
  E *expr1(Ty t, int d)
  {
    cost++;
    if (d <= 0 || cost > 4000)
      return leaf(t);
    bool flt = is_flt(t.k);
    while (true)
    {
      switch (q(30))
      {
      case 0: case 1: case 2: return leaf(t);
      case 3: case 4: case 5: case 6: case 7: case 8:
      {
        static const Op io[] = {ADD, SUB, MUL, AND, OR, XOR, SHL, SHR, DIV, REM};
        Op op = flt ? (Op)(q(4) == 3 ? DIV : (Op)(ADD + q(3))) : io[q(10)];
        E *e = ne(op, t);
        E *a = expr(t, d - 1), *b = expr(t, d - 1);
        if (t.w > 1 && q(4) == 0)
        {
          // vector op scalar
          E *s = ne(SPLAT, t);
          s->n = 1; // implicit widening
          s->k = {expr(mk(t.k), d - 1)};
          b = s;
        }
        if (!flt && (op == DIV || op == REM))
        {
          // divisor in 1..128 or a negative range
          E *m = ne(AND, t);
          bool neg = is_sgn(t.k) && q(3) == 0;
          m->k = {b->op == SPLAT && b->n == 1 ? expr(t, d - 1) : b, kint(t, 0x3f)};
          E *p = ne(neg ? SUB : ADD, t);
          bool one = neg && q(2);
          if (one)
          {
            // -2 or -1, the dividend is never the smallest value
            m->k[1] = kint(t, 1);
            E *o = ne(OR, t);
            o->k = {a, kint(t, 1)};
            a = o;
          }
          p->k = {m, kint(t, one ? 2 : neg ? 66 : 1)};
          b = p;
        }
        if (op == SHL || op == SHR)
        {
          if (b->op == SPLAT && b->n == 1)
            b = expr(t, d - 1);
          if (t.w == 1 && q(2))
            b = expr(mk(q(8)), d - 1);
          if (q(2))
          {
            Ty bt = b->t;
            b = kint(bt, q(KS[t.k] * 8));
          }
        }
        e->n = q(2);
        e->k = {a, b};
        return e;
      }
      case 9: case 10:
      {
        // comparison
        if (flt)
          continue;
        Op op = (Op)(EQ + q(6));
        Ty ot = rty();
        if (t.w == 1)
        {
          ot.w = 1;
          E *e = ne(op, mk(I32));
          e->k = {expr(ot, d - 1), expr(ot, d - 1)};
          return cast(e, t);
        }
        // vector comparison gives the signed type of the same width
        std::vector<int> ks;
        for (int k = 0; k < 10; k++)
          if (KS[k] == KS[t.k] && (k != F64 || fp64))
            ks.push_back(k);
        ot = mk(ks[q(ks.size())], t.w);
        E *e = ne(op, mk(sgn_of(t.k), t.w));
        e->k = {expr(ot, d - 1), expr(ot, d - 1)};
        return e->t == t ? e : as(e, t);
      }
      case 11:
      {
        if (flt || t.w > 1)
          continue;
        E *e = ne(q(2) ? LAND : LOR, mk(I32));
        e->k = {cond(d - 1), cond(d - 1)};
        return cast(e, t);
      }
      case 12: case 13:
      {
        if (t.w == 1)
        {
          E *e = ne(TERN, t);
          e->k = {cond(d - 1), expr(t, d - 1), expr(t, d - 1)};
          return e;
        }
        int ik = KS[t.k] == 1 ? I8 : KS[t.k] == 2 ? I16 : KS[t.k] == 4 ? I32 : I64;
        E *e = ne(VSEL, t);
        e->k = {expr(mk(ik, t.w), d - 1), expr(t, d - 1), expr(t, d - 1)};
        e->n = q(2); // ?: or select()
        return e;
      }
      case 14:
      {
        E *e = ne(flt || q(2) ? NEG : NOT, t);
        e->k = {expr(t, d - 1)};
        return e;
      }
      case 15:
      {
        if (flt || t.w > 1)
          continue;
        E *e = ne(LNOT, mk(I32));
        e->k = {expr(rty(true, false), d - 1)};
        return cast(e, t);
      }
      case 16: case 17:
      {
        // conversion
        Ty f = rty(true, false);
        if (flt && q(3) == 0)
          f.k = U64;
        if (is_flt(f.k) && !flt && t.w > 1)
          continue;
        f.w = t.w;
        return cast(expr(f, d - 1), t);
      }
      case 18:
      {
        if (flt)
          continue;
        // reinterpretation with the same total size
        static const int ws[] = {1, 2, 4, 8, 16};
        std::vector<Ty> c;
        for (int k = 0; k < 8; k++)
          for (int w : ws)
            if (KS[k] * w == KS[t.k] * t.w && t.w != 3)
              c.push_back(mk(k, w));
        if (c.empty())
          continue;
        Ty f = c[q(c.size())];
        return as(expr(f, d - 1), t);
      }
      case 19: case 20:
      {
        // vector literal / splat / component
        if (t.w > 1)
        {
          if (q(3) == 0)
          {
            E *e = ne(SPLAT, t);
            e->k = {expr(mk(t.k), d - 1)};
            return e;
          }
          E *e = ne(VECLIT, t);
          int left = t.w;
          while (left)
          {
            static const int ws[] = {1, 1, 2, 3, 4, 8};
            int w = ws[q(6)];
            if (w > left || w == t.w)
              w = 1;
            e->k.push_back(expr(mk(t.k, w), d - 2));
            left -= w;
          }
          return e;
        }
        static const int ws[] = {2, 3, 4, 8, 16};
        Ty f = mk(t.k, ws[q(5)]);
        if (q(4) == 0)
        {
          // dynamic element
          auto l = lvs();
          std::vector<int> ok;
          for (size_t i = 0; i < l.size(); i++)
            if (l[i].t.k == t.k && l[i].t.w > 1 && l[i].t.w != 3)
              ok.push_back(i);
          if (ok.empty())
            continue;
          E *v = var(l[ok[q(ok.size())]]);
          E *e = ne(DYN, t);
          e->k = {v, index(v->t.w, d)};
          return e;
        }
        return swz(expr(f, d - 1), 1);
      }
      case 21:
      {
        // array element, dynamic index
        std::vector<Var *> a;
        for (auto &v : scope)
          if (v.n && !v.ptr && !v.st && v.t == t)
            a.push_back(&v);
        if (a.empty())
          continue;
        Var *v = a[q(a.size())];
        int vs = v->slot, vn = v->n;
        std::string nm = v->name;
        E *e = ne(ARR, t);
        e->slot = vs;
        e->n = vn;
        e->name = nm;
        e->k = {index(vn, d)};
        return e;
      }
      case 22:
      {
        std::vector<Var *> a;
        for (auto &v : scope)
          if (v.ptr && v.t == t)
            a.push_back(&v);
        if (a.empty())
          continue;
        Var v = *a[q(a.size())];
        E *e = ne(PTRLD, t);
        e->slot = v.slot;
        e->n = v.plen;
        e->name = v.name;
        e->k = {index(v.plen, d)};
        return e;
      }
      case 23:
      {
        // constant table
        std::vector<int> a;
        for (size_t i = 0; i < tables.size(); i++)
          if (tables[i].first == t)
            a.push_back(i);
        if (a.empty())
          continue;
        E *e = ne(TAB, t);
        e->n = a[q(a.size())];
        e->k = {index(tables[e->n].second.size(), d)};
        return e;
      }
      case 24: case 25: case 26: case 27:
      {
        E *e = builtin(t, d);
        if (!e)
          continue;
        return e;
      }
      case 28:
      {
        std::vector<Func *> a;
        for (auto *f : funcs)
          if (f->ret == t && !f->sret)
            a.push_back(f);
        if (a.empty() || infunc || loops > 1)
          continue;
        return call(a[q(a.size())], d);
      }
      case 29:
      {
        // fused multiply-add candidate with exact operands
        if (t.k != F32 && t.k != F64)
          continue;
        E *e = ne(FMA, t);
        for (int i = 0; i < 3; i++)
        {
          E *c = expr(mk(I8, t.w), d - 1);
          e->k.push_back(cast(c, t));
        }
        if (t.w > 4 || t.w == 3)
          continue;
        return e;
      }
      }
    }
  }
  E *as(E *e, Ty t)
  {
    if (e->t == t)
      return e;
    E *a = ne(AS, t);
    a->k = {e};
    return a;
  }
  E *call(Func *f, int d)
  {
    E *e = ne(CALL, f->ret);
    e->f = f;
    for (auto &p : f->params)
    {
      if (p.ptr)
      {
        // an array of this type with enough elements
        std::vector<Var *> a;
        for (auto &v : scope)
          if (v.n >= p.plen && !v.ptr && !v.st && v.t == p.t && !v.ro)
            a.push_back(&v);
        if (a.empty())
          return leaf(f->ret);
        Var *v = a[q(a.size())];
        E *x = ne(SARG, p.t);
        int o = q(v->n - p.plen + 1);
        x->slot = v->slot + o;
        x->name = "(" + v->name + " + " + std::to_string(o) + ")";
        x->n = -1;
        e->k.push_back(x);
      }
      else if (p.st)
      {
        std::vector<Var *> a;
        for (auto &v : scope)
          if (v.st == p.st)
            a.push_back(&v);
        if (a.empty())
          return leaf(f->ret);
        Var *v = a[q(a.size())];
        E *x = ne(SARG, p.t);
        x->slot = v->slot;
        x->name = v->name;
        x->n = p.st->slots;
        e->k.push_back(x);
      }
      else
        e->k.push_back(expr(p.t, d - 1));
    }
    return e;
  }
  E *builtin(Ty t, int d)
  {
    bool flt = is_flt(t.k);
    int b = q(B_N);
    E *e = ne(BI, t);
    e->n = b;
    auto X = [&](Ty x) { e->k.push_back(expr(x, d - 1)); };
    if (flt)
    {
      switch (b)
      {
      case B_FABS: case B_FLOOR: case B_CEIL: case B_TRUNC: X(t); return e;
      case B_CONV:
      {
        e->c[0] = q(5);
        e->name = std::string("convert_") + tn(t) + RM[e->c[0]];
        Ty x = rty(true, false);
        x.w = t.w;
        X(x);
        return e;
      }
      default: return NULL;
      }
    }
    switch (b)
    {
    case B_ABS:
      if (is_sgn(t.k))
        return NULL;
      X(mk(q(2) ? t.k : sgn_of(t.k), t.w));
      return e;
    case B_ABSDIFF:
    {
      if (is_sgn(t.k))
        return NULL;
      Ty x = mk(q(2) ? t.k : sgn_of(t.k), t.w);
      X(x);
      X(x);
      return e;
    }
    case B_ADDSAT: case B_SUBSAT: case B_HADD: case B_RHADD: case B_ROT:
    case B_MULHI: case B_MIN: case B_MAX:
      X(t);
      X(t);
      return e;
    case B_CLZ: case B_POPC: X(t); return e;
    case B_MUL24: case B_MAD24:
    {
      if (KS[t.k] != 4)
        return NULL;
      for (int i = 0; i < (b == B_MAD24 ? 3 : 2); i++)
      {
        E *x = expr(t, d - 1);
        if (i < 2)
        {
          // operands within 24 bits
          E *sh = ne(SHR, t);
          sh->k = {x, kint(t, 9)};
          x = sh;
        }
        e->k.push_back(x);
      }
      return e;
    }
    case B_CLAMP:
    {
      // clamp(x, min(a,b), max(a,b)) with constants
      E *lo = konst(t), *hi = konst(t);
      for (int i = 0; i < t.w; i++)
      {
        bool sw = is_sgn(t.k) ? sx(t.k, lo->c[i]) > sx(t.k, hi->c[i]) : lo->c[i] > hi->c[i];
        if (sw)
          std::swap(lo->c[i], hi->c[i]);
      }
      X(t);
      e->k.push_back(lo);
      e->k.push_back(hi);
      return e;
    }
    case B_BITSEL: X(t); X(t); X(t); return e;
    case B_SELECT:
      X(t);
      X(t);
      X(mk(q(2) ? sgn_of(t.k) : uns_of(t.k), t.w));
      return e;
    case B_MADHI: case B_MADSAT: X(t); X(t); X(t); return e;
    case B_CONV:
    {
      e->c[0] = q(5);
      e->name = std::string("convert_") + tn(t) + "_sat" + RM[e->c[0]];
      Ty x = rty(false, false);
      if (q(3) == 0)
        x.k = q(2) ? F64 : F32;
      x.w = t.w;
      X(x);
      return e;
    }
    case B_ISNAN: case B_ISINF: case B_SIGNBIT:
    {
      if (t.w == 1)
      {
        e->t = mk(I32);
        X(mk(q(2) && fp64 ? F64 : F32));
        if (b == B_SIGNBIT)
          e->k[0] = cast(expr(mk(I16), d - 1), e->k[0]->t);
        return cast(e, t);
      }
      if (t.k != I32 && t.k != I64)
        return NULL;
      Ty ft = mk(t.k == I32 ? F32 : F64, t.w);
      X(ft);
      if (b == B_SIGNBIT)
        e->k[0] = cast(expr(mk(I16, t.w), d - 1), ft);
      return e;
    }
    case B_ANY: case B_ALL:
    {
      if (t.w > 1)
        return NULL;
      static const int ws[] = {2, 3, 4, 8, 16};
      e->t = mk(I32);
      X(mk(sgn_of(q(8)), ws[q(5)]));
      return cast(e, t);
    }
    case B_SHUF:
    {
      if (t.w == 1 || t.w == 3)
        return NULL;
      static const int ws[] = {2, 4, 8, 16};
      X(mk(t.k, ws[q(4)]));
      int mkk = KS[t.k] == 1 ? U8 : KS[t.k] == 2 ? U16 : KS[t.k] == 4 ? U32 : U64;
      X(mk(mkk, t.w));
      return e;
    }
    case B_UPS:
    {
      if (KS[t.k] == 1)
        return NULL;
      int hk = t.k - 2;
      X(mk(hk, t.w));
      X(mk(uns_of(hk), t.w));
      return e;
    }
    }
    return NULL;
  }

  // ----------------------------------------------------------- statements
  Var decl(Ty t, int n = 0)
  {
    Var v;
    v.name = "v" + std::to_string(nv++);
    v.t = t;
    v.n = n;
    v.slot = cur->slots;
    cur->slots += n ? n : 1;
    cur->vars.push_back(v);
    scope.push_back(v);
    return v;
  }
  Var declst(Struct *s)
  {
    Var v;
    v.name = "s" + std::to_string(nv++);
    v.st = s;
    v.slot = cur->slots;
    cur->slots += s->slots;
    cur->vars.push_back(v);
    scope.push_back(v);
    return v;
  }
  std::vector<S *> block(int n, int d)
  {
    std::vector<S *> o;
    for (int i = 0; i < n; i++)
    {
      bool k = r.keep();
      S *s = stmt(d);
      if (s && k)
        o.push_back(s);
    }
    return o;
  }
  std::vector<LV> wlvs()
  {
    std::vector<LV> o;
    for (auto &l : lvs())
      if (!l.ro)
        o.push_back(l);
    return o;
  }
  S *stmt(int d)
  {
    S *s = new S;
    auto w = wlvs();
    int c = q(24);
    if (d <= 0 && c >= 12)
      c = q(12);
    switch (c)
    {
    default:
    {
      LV l = w[q(w.size())];
      s->op = S_ASG;
      s->name = l.name;
      s->slot = l.slot;
      s->t = l.t;
      s->e = {expr(l.t, 3)};
      return s;
    }
    case 4:
    {
      std::vector<LV> v;
      for (auto &l : w)
        if (l.t.w > 1)
          v.push_back(l);
      if (v.empty())
        return NULL;
      LV l = v[q(v.size())];
      if (q(3) == 0 && l.t.w != 3)
      {
        s->op = S_DYNASG;
        s->e = {index(l.t.w, 2), expr(mk(l.t.k), 2)};
      }
      else
      {
        s->op = S_SWZASG;
        static const int ws[] = {1, 1, 2, 2, 3, 4};
        int k = std::min<int>(ws[q(6)], l.t.w);
        std::vector<int> p;
        for (int i = 0; i < l.t.w; i++)
          p.push_back(i);
        for (int i = 0; i < k; i++)
          std::swap(p[i], p[i + q(l.t.w - i)]);
        p.resize(k);
        s->idx = p;
        s->e = {expr(mk(l.t.k, k), 2)};
      }
      s->name = l.name;
      s->slot = l.slot;
      s->t = l.t;
      return s;
    }
    case 5:
    {
      std::vector<Var> a;
      for (auto &v : scope)
        if (v.n && !v.ptr && !v.st && !v.ro)
          a.push_back(v);
      if (a.empty())
        return NULL;
      Var v = a[q(a.size())];
      s->op = S_ARRASG;
      s->name = v.name;
      s->slot = v.slot;
      s->n = v.n;
      s->t = v.t;
      s->e = {index(v.n, 2), expr(v.t, 2)};
      return s;
    }
    case 6:
    {
      std::vector<Var> a;
      for (auto &v : scope)
        if (v.ptr)
          a.push_back(v);
      if (a.empty())
        return NULL;
      Var v = a[q(a.size())];
      s->op = S_PTRASG;
      s->name = v.name;
      s->slot = v.slot;
      s->n = v.plen;
      s->t = v.t;
      s->e = {index(v.plen, 2), expr(v.t, 2)};
      return s;
    }
    case 7:
    {
      std::vector<LV> v;
      for (auto &l : w)
        if (!is_flt(l.t.k) && l.t.w == 1)
          v.push_back(l);
      if (v.empty())
        return NULL;
      LV l = v[q(v.size())];
      s->name = l.name;
      s->slot = l.slot;
      s->t = l.t;
      if (q(3) == 0 && !is_sgn(l.t.k))
      {
        s->op = S_INC;
        s->n = q(4);
        return s;
      }
      static const Op io[] = {AND, OR, XOR, SHL, SHR};
      s->op = S_COMP;
      s->bop = io[q(5)];
      s->e = {expr(l.t, 2)};
      return s;
    }
    case 8:
    {
      // struct copy
      std::vector<Var> a;
      for (auto &v : scope)
        if (v.st && !v.ro)
          a.push_back(v);
      if (a.size() < 2)
        return NULL;
      Var x = a[q(a.size())];
      std::vector<Var> bvec;
      for (auto &v : scope)
        if (v.st == x.st && v.slot != x.slot)
          bvec.push_back(v);
      if (bvec.empty())
        return NULL;
      Var y = bvec[q(bvec.size())];
      s->op = S_SCOPY;
      s->name = x.name;
      s->name2 = y.name;
      s->slot = x.slot;
      s->slot2 = y.slot;
      s->n = x.st->slots;
      return s;
    }
    case 9:
    {
      // repoint a pointer
      std::vector<Var> a;
      for (auto &v : scope)
        if (v.ptr && !v.ro)
          a.push_back(v);
      if (a.empty())
        return NULL;
      Var p = a[q(a.size())];
      std::vector<Var> t;
      for (auto &v : scope)
        if (v.n >= p.plen && !v.ptr && !v.st && v.t == p.t && !v.ro)
          t.push_back(v);
      if (t.empty())
        return NULL;
      s->op = S_SETPTR;
      s->name = p.name;
      s->slot = p.slot;
      s->n = 1 + (q(2) && t.size() > 1);
      if (s->n == 2)
        s->e = {expr(mk(q(8)), 2)};
      for (int i = 0; i < s->n; i++)
      {
        Var v = t[q(t.size())];
        int o = q(v.n - p.plen + 1);
        s->idx.push_back(v.slot + o);
        E *x = ne(SARG, v.t);
        x->name = "(" + v.name + " + " + std::to_string(o) + ")";
        x->slot = v.slot + o;
        s->e.push_back(x);
      }
      return s;
    }
    case 10:
    {
      // struct function
      std::vector<Func *> a;
      for (auto *f : funcs)
        if (f->sret)
          a.push_back(f);
      if (a.empty() || infunc || loops > 1)
        return NULL;
      Func *f = a[q(a.size())];
      std::vector<Var> v;
      for (auto &x : scope)
        if (x.st == f->sret && !x.ro)
          v.push_back(x);
      if (v.empty())
        return NULL;
      E *e = call(f, 2);
      if (e->op != CALL)
        return NULL;
      Var x = v[q(v.size())];
      s->op = S_SCALL;
      s->name = x.name;
      s->slot = x.slot;
      s->n = f->sret->slots;
      s->e = {e};
      return s;
    }
    case 11:
    {
      // vload/vstore between a vector and an array of scalars
      std::vector<Var> a;
      for (auto &v : scope)
        if (v.n >= 4 && v.t.w == 1 && !v.ptr && !v.st && !v.ro)
          a.push_back(v);
      if (a.empty())
        return NULL;
      Var v = a[q(a.size())];
      std::vector<LV> l;
      for (auto &x : w)
        if (x.t.k == v.t.k && x.t.w > 1 && x.t.w <= v.n)
          l.push_back(x);
      if (l.empty())
        return NULL;
      LV x = l[q(l.size())];
      int cnt = v.n / x.t.w;
      s->op = S_VLOAD;
      s->flag = q(2); // store
      s->t = x.t;
      s->name = x.name;
      s->slot = x.slot;
      s->name2 = v.name;
      s->slot2 = v.slot;
      int base = q(v.n - cnt * x.t.w + 1);
      s->n = base;
      s->idx = {(int)q(cnt)};
      return s;
    }
    case 12: case 13: case 14:
    {
      s->op = S_IF;
      s->e = {cond(3)};
      s->b.push_back(block(1 + q(3), d - 1));
      if (q(2))
        s->b.push_back(block(1 + q(2), d - 1));
      return s;
    }
    case 15: case 16:
    {
      if (loops >= 2)
        return NULL;
      s->op = S_FOR;
      Ty t = mk(q(2) ? I32 : q(2) ? U8 : I64);
      size_t sc = scope.size();
      s->t = t;
      s->n = q(4); // trip bound
      if (q(2))
      {
        // variable trip count
        E *m = ne(REM, mk(U32));
        E *x = expr(mk(U32), 2);
        m->k = {x, kint(mk(U32), 4)};
        s->e = {cast(m, t)};
      }
      else
        s->e = {kint(t, 1 + q(4))};
      Var v = decl(t);
      scope.back().ro = true;
      s->name = v.name;
      s->slot = v.slot;
      loops++;
      auto body = block(1 + q(3), d - 1);
      addrot(body);
      addjump(body);
      s->b.push_back(body);
      loops--;
      scope.erase(scope.begin() + sc, scope.end());
      return s;
    }
    case 17:
    {
      if (loops >= 2)
        return NULL;
      s->op = q(2) ? S_WHILE : S_DO;
      size_t sc = scope.size();
      Var v = decl(mk(I32));
      scope.back().ro = true;
      s->name = v.name;
      s->slot = v.slot;
      s->n = 1 + q(4); // countdown start
      s->e = {cond(2)};
      loops++;
      auto body = block(1 + q(2), d - 1);
      addrot(body);
      addjump(body);
      s->b.push_back(body);
      loops--;
      scope.erase(scope.begin() + sc, scope.end());
      return s;
    }
    case 18: case 19:
    {
      s->op = S_SWITCH;
      Ty t = mk(q(8));
      s->t = t;
      s->e = {expr(t, 2)};
      if (q(2))
      {
        E *m = ne(REM, t);
        m->k = {s->e[0], kint(t, 4 + q(4))};
        s->e[0] = m;
      }
      int n = 2 + q(4);
      std::set<uint64_t> used;
      bool def = false;
      for (int i = 0; i < n; i++)
      {
        std::vector<uint64_t> cs;
        int m = 1 + q(2);
        for (int j = 0; j < m; j++)
        {
          uint64_t x = q(3) ? q(8) : rbits(t.k);
          if (is_sgn(t.k) && q(4) == 0)
            x = trunc_to(t.k, 0 - q(4));
          if (used.insert(x).second)
            cs.push_back(x);
        }
        if (!def && q(4) == 0)
        {
          def = true;
          cs.push_back(0xdefa017dull << 32); // marker, see text
        }
        if (cs.empty())
          continue;
        s->cases.push_back(cs);
        s->idx.push_back(q(3) != 0); // ends with break
        s->b.push_back(block(1 + q(2), d - 1));
      }
      if (s->cases.empty())
        return NULL;
      return s;
    }
    case 20:
    {
      // inner scope with a temporary
      s->op = S_BLOCK;
      size_t sc = scope.size();
      Ty t = rty();
      E *init = expr(t, 2);
      Var v = decl(t);
      s->name = v.name;
      s->slot = v.slot;
      s->t = t;
      s->e = {init};
      s->b.push_back(block(1 + q(3), d - 1));
      scope.erase(scope.begin() + sc, scope.end());
      return s;
    }
    case 21:
    {
      // clear or fill an array in a loop
      std::vector<Var> a;
      for (auto &v : scope)
        if (v.n && !v.ptr && !v.st && !v.ro)
          a.push_back(v);
      if (a.empty())
        return NULL;
      Var v = a[q(a.size())];
      s->op = S_MEMSET;
      s->name = v.name;
      s->slot = v.slot;
      s->n = v.n;
      s->t = v.t;
      s->e = {q(2) ? kint(v.t, 0) : leaf(v.t)};
      return s;
    }
    case 22: case 23:
    {
      // load through a pointer, store elsewhere, change and store back
      std::vector<Var> a;
      for (auto &v : scope)
        if (v.ptr)
          a.push_back(v);
      if (a.empty())
        return NULL;
      Var v = a[q(a.size())];
      s->op = S_PMOD;
      s->name = v.name;
      s->slot = v.slot;
      s->n = v.plen;
      s->t = v.t;
      s->name2 = "t" + std::to_string(nv++);
      s->idx = {(int)q(v.t.w), (int)q(2)}; // component, store back where it came from
      s->e = {index(v.plen, 1), index(v.plen, 1), expr(v.t, 2), expr(mk(v.t.k), 2)};
      return s;
    }
    }
  }
  // values move round between 2 to 6 variables in each iteration
  void addrot(std::vector<S *> &b)
  {
    bool k = r.keep();
    if (q(3))
      return;
    std::vector<LV> v, p;
    Ty t = mk(q(8));
    bool any = q(2); // scalars of any integer type
    for (auto &l : wlvs())
      if (l.t.w == 1 && !is_flt(l.t.k) && (any || l.t.k == t.k))
        v.push_back(l);
    if (!any && v.size() < 2)
    {
      v.clear();
      auto w = wlvs();
      t = w[q(w.size())].t;
      for (auto &l : w)
        if (l.t == t)
          v.push_back(l);
    }
    size_t n = 2 + q(5);
    while (p.size() < n && !v.empty())
    {
      size_t i = q(v.size());
      p.push_back(v[i]);
      v.erase(v.begin() + i);
    }
    if (p.size() < 2 || !k)
      return;
    S *s = new S;
    s->op = S_ROT;
    for (auto &l : p)
    {
      E *e = ne(VAR, l.t);
      e->name = l.name;
      e->slot = l.slot;
      s->e.push_back(e);
    }
    b.insert(b.begin() + q(b.size() + 1), s);
  }
  void addjump(std::vector<S *> &b)
  {
    bool k = r.keep();
    if (q(3))
    {
      S *s = new S;
      s->op = S_IF;
      s->e = {cond(2)};
      S *j = new S;
      j->op = q(2) ? S_BREAK : S_CONT;
      s->b.push_back({j});
      size_t pos = q(b.size() + 1);
      if (k)
        b.insert(b.begin() + pos, s);
    }
  }
  S *share()
  {
    // exchange through local memory; uniform control flow
    auto w = wlvs();
    LV l = w[q(w.size())];
    S *s = new S;
    s->op = S_SHARE;
    s->name = l.name;
    s->slot = l.slot;
    s->t = l.t;
    s->n = locals.size();
    Loc lc;
    lc.t = l.t;
    lc.name = "L" + std::to_string(locals.size());
    locals.push_back(lc);
    s->idx = {(int)q(5)};
    s->flag = q(2);
    return s;
  }
};

// ------------------------------------------------------------------- text
static std::string lit(int k, uint64_t x)
{
  char b[64];
  if (is_flt(k))
  {
    double d = getf(k, x);
    if (std::isnan(d))
      return k == F32 ? "as_float(0x7fc00000u)" : "as_double(0x7ff8000000000000UL)";
    if (k == F32)
      snprintf(b, sizeof b, "as_float(0x%xu)", (uint32_t)x);
    else
      snprintf(b, sizeof b, "as_double(0x%lxUL)", x);
    return b;
  }
  if (is_sgn(k))
  {
    int64_t s = sx(k, x);
    if (s == INT64_MIN)
      return "(-9223372036854775807L-1)";
    if (k == I32 && s == INT32_MIN)
      return "(-2147483647-1)";
    if (k == I64 || k == I32)
      snprintf(b, sizeof b, k == I64 ? "%ldL" : "%ld", s);
    else
      snprintf(b, sizeof b, "(%s)%ld", KN[k], s);
    std::string o = b;
    return s < 0 ? "(" + o + ")" : o;
  }
  if (k == U64)
    snprintf(b, sizeof b, "%luUL", x);
  else if (k == U32)
    snprintf(b, sizeof b, "%luu", x);
  else
    snprintf(b, sizeof b, "(%s)%lu", KN[k], x);
  return b;
}
static std::string swzname(const std::vector<int> &idx, int style)
{
  static const char *xyzw = "xyzw", *hex = "0123456789abcdef";
  bool small = true;
  for (int i : idx)
    if (i > 3)
      small = false;
  std::string s;
  if (small && style)
  {
    for (int i : idx)
      s += xyzw[i];
    return s;
  }
  s = "s";
  for (int i : idx)
    s += hex[i];
  return s;
}
static std::string tx(const E *e);
static std::string par(const E *e) { return "(" + tx(e) + ")"; }
static std::string conv_tx(const E *e, Ty t)
{
  std::string a = tx(e);
  if (t.w > 1)
    return "convert_" + tn(t) + "(" + a + ")";
  return "(" + tn(t) + ")(" + a + ")";
}
static const char *OPN(Op o)
{
  switch (o)
  {
  case ADD: return "+";
  case SUB: return "-";
  case MUL: return "*";
  case AND: return "&";
  case OR: return "|";
  case XOR: return "^";
  case SHL: return "<<";
  case SHR: return ">>";
  case DIV: return "/";
  case REM: return "%";
  case EQ: return "==";
  case NE: return "!=";
  case LT: return "<";
  case LE: return "<=";
  case GT: return ">";
  case GE: return ">=";
  case LAND: return "&&";
  case LOR: return "||";
  default: return "?";
  }
}
static std::string tx(const E *e)
{
  switch (e->op)
  {
  case CONST:
  {
    if (e->t.w == 1)
      return lit(e->t.k, e->c[0]);
    std::string s = "(" + tn(e->t) + ")(";
    for (int i = 0; i < e->t.w; i++)
      s += (i ? ", " : "") + lit(e->t.k, e->c[i]);
    return s + ")";
  }
  case VAR: return e->name;
  case ARR: return e->name + "[" + tx(e->k[0]) + "]";
  case PTRLD: return e->name + "[" + tx(e->k[0]) + "]";
  case TAB: return "T" + std::to_string(e->n) + "[" + tx(e->k[0]) + "]";
  case INB:
    if (e->t.w == 1)
      return std::string("in_") + KN[e->t.k] + "[" + tx(e->k[0]) + "]";
    return "vload" + std::to_string(e->t.w) + "(" + tx(e->k[0]) + ", in_" + KN[e->t.k] + ")";
  case SWZ:
  {
    static const char *h[] = {"", "lo", "hi", "even", "odd"};
    if (e->n)
      return par(e->k[0]) + "." + h[e->n];
    return par(e->k[0]) + "." + swzname(e->idx, e->k[0]->t.w <= 4);
  }
  case DYN: return e->k[0]->name + "[" + tx(e->k[1]) + "]";
  case VECLIT:
  {
    std::string s = "(" + tn(e->t) + ")(";
    for (size_t i = 0; i < e->k.size(); i++)
      s += (i ? ", " : "") + tx(e->k[i]);
    return s + ")";
  }
  case SPLAT:
    if (e->n == 1)
      return tx(e->k[0]);
    return "(" + tn(e->t) + ")(" + tx(e->k[0]) + ")";
  case ADD: case SUB: case MUL:
    if (is_flt(e->t.k))
      return "(" + par(e->k[0]) + " " + OPN(e->op) + " " + par(e->k[1]) + ")";
    if (e->t.w == 1)
    {
      const char *p = KS[e->t.k] == 8 ? "ulong" : "uint";
      return "(" + tn(e->t) + ")((" + p + ")" + par(e->k[0]) + " " + OPN(e->op) + " (" + p + ")" +
             par(e->k[1]) + ")";
    }
    else if (is_sgn(e->t.k))
    {
      std::string u = "as_" + tn(mk(uns_of(e->t.k), e->t.w));
      std::string b = e->k[1]->op == SPLAT && e->k[1]->n == 1
                        ? "(" + std::string(KN[uns_of(e->t.k)]) + ")" + par(e->k[1])
                        : u + par(e->k[1]);
      return "as_" + tn(e->t) + "(" + u + par(e->k[0]) + " " + OPN(e->op) + " " + b + ")";
    }
    return "(" + par(e->k[0]) + " " + OPN(e->op) + " " + par(e->k[1]) + ")";
  case AND: case OR: case XOR: case SHL: case SHR: case DIV: case REM:
  {
    std::string s = "(" + par(e->k[0]) + " " + OPN(e->op) + " " + par(e->k[1]) + ")";
    if (e->t.w == 1 && !is_flt(e->t.k))
      return "(" + tn(e->t) + ")" + s;
    return s;
  }
  case EQ: case NE: case LT: case LE: case GT: case GE: case LAND: case LOR:
    return "(" + par(e->k[0]) + " " + OPN(e->op) + " " + par(e->k[1]) + ")";
  case TERN:
    return "(" + tn(e->t) + ")(" + par(e->k[0]) + " ? " + par(e->k[1]) + " : " + par(e->k[2]) + ")";
  case VSEL:
    if (e->n)
      return "select(" + tx(e->k[2]) + ", " + tx(e->k[1]) + ", " + tx(e->k[0]) + ")";
    return "(" + par(e->k[0]) + " ? " + par(e->k[1]) + " : " + par(e->k[2]) + ")";
  case NEG:
    if (is_flt(e->t.k))
      return "(-" + par(e->k[0]) + ")";
    if (e->t.w == 1)
      return "(" + tn(e->t) + ")(-(" + (KS[e->t.k] == 8 ? "ulong" : "uint") + ")" + par(e->k[0]) + ")";
    if (is_sgn(e->t.k))
      return "as_" + tn(e->t) + "(-as_" + tn(mk(uns_of(e->t.k), e->t.w)) + par(e->k[0]) + ")";
    return "(-" + par(e->k[0]) + ")";
  case NOT:
    if (e->t.w == 1)
      return "(" + tn(e->t) + ")(~" + par(e->k[0]) + ")";
    return "(~" + par(e->k[0]) + ")";
  case LNOT: return "(!" + par(e->k[0]) + ")";
  case CAST: return conv_tx(e->k[0], e->t);
  case F2I: return "f2i_" + std::string(KN[e->k[0]->t.k]) + "_" + KN[e->t.k] + "(" + tx(e->k[0]) + ")";
  case AS: return "as_" + tn(e->t) + "(" + tx(e->k[0]) + ")";
  case FMA:
    return "fmad_" + tn(e->t) + "(" + tx(e->k[0]) + ", " + tx(e->k[1]) + ", " + tx(e->k[2]) + ")";
  case BI:
  {
    std::string s = (e->name.empty() ? std::string(BN[e->n]) : e->name) + "(";
    for (size_t i = 0; i < e->k.size(); i++)
      s += (i ? ", " : "") + tx(e->k[i]);
    return s + ")";
  }
  case CALL:
  {
    std::string s = e->f->name + "(in, ";
    for (size_t i = 0; i < e->k.size(); i++)
      s += (i ? ", " : "") + tx(e->k[i]);
    if (e->k.empty())
      s = e->f->name + "(in";
    return s + ")";
  }
  case SARG: return e->name;
  case ID:
  {
    static const char *n[] = {"get_global_id(0)", "get_local_id(0)", "get_group_id(0)",
                              "get_local_size(0)", "get_global_size(0)", "get_num_groups(0)",
                              "get_global_id(1)", "get_local_id(1)"};
    return n[e->n];
  }
  default: return "?";
  }
}
static std::string stx(const S *s, int ind);
static std::string btx(const std::vector<S *> &b, int ind)
{
  std::string o;
  for (auto *s : b)
    o += stx(s, ind);
  return o;
}
static std::string stx(const S *s, int ind)
{
  std::string p(ind * 2, ' ');
  switch (s->op)
  {
  case S_ASG: return p + s->name + " = " + tx(s->e[0]) + ";\n";
  case S_SWZASG:
    return p + s->name + "." + swzname(s->idx, s->t.w <= 4) + " = " + tx(s->e[0]) + ";\n";
  case S_DYNASG: return p + s->name + "[" + tx(s->e[0]) + "] = " + tx(s->e[1]) + ";\n";
  case S_ARRASG: case S_PTRASG:
    return p + s->name + "[" + tx(s->e[0]) + "] = " + tx(s->e[1]) + ";\n";
  case S_ROT:
  {
    std::string o = p + "{ " + tn(s->e[0]->t) + " rt = " + s->e[0]->name + ";";
    for (size_t i = 0; i < s->e.size(); i++)
      o += " " + s->e[i]->name + " = " + (i + 1 < s->e.size() ? s->e[i + 1]->name : "rt") + ";";
    return o + " }\n";
  }
  case S_PMOD:
  {
    std::string t = s->name2, i = "i" + t, j = "j" + t;
    std::string o = p + "{ size_t " + i + " = " + tx(s->e[0]) + ", " + j + " = " + tx(s->e[1]) + "; " + tn(s->t) + " " +
                    t + " = " + s->name + "[" + i + "]; " + s->name + "[" + j + "] = " + tx(s->e[2]) + "; " + t;
    if (s->t.w > 1)
      o += std::string(".s") + "0123456789abcdef"[s->idx[0]];
    o += " = " + tx(s->e[3]) + "; " + s->name + "[" + (s->idx[1] ? i : j) + "] = " + t + "; }\n";
    return o;
  }
  case S_COMP: return p + s->name + " " + OPN(s->bop) + "= " + tx(s->e[0]) + ";\n";
  case S_INC:
    return p + (s->n == 0 ? s->name + "++" : s->n == 1 ? "++" + s->name : s->n == 2 ? s->name + "--" : "--" + s->name) + ";\n";
  case S_IF:
  {
    std::string o = p + "if (" + tx(s->e[0]) + ")\n" + p + "{\n" + btx(s->b[0], ind + 1) + p + "}\n";
    if (s->b.size() > 1)
      o += p + "else\n" + p + "{\n" + btx(s->b[1], ind + 1) + p + "}\n";
    return o;
  }
  case S_FOR:
  {
    std::string &&n = std::string(s->name);
    return p + "{ " + tn(s->t) + " lim_" + n + " = " + tx(s->e[0]) + "; for (" + n + " = 0; " + n + " < lim_" + n + "; " +
           n + "++)\n" + p + "{\n" + btx(s->b[0], ind + 1) + p + "} }\n";
  }
  case S_WHILE:
    return p + s->name + " = " + std::to_string(s->n) + ";\n" + p + "while (" + s->name + "-- > 0 && " +
           par(s->e[0]) + ")\n" + p + "{\n" + btx(s->b[0], ind + 1) + p + "}\n";
  case S_DO:
    return p + s->name + " = " + std::to_string(s->n) + ";\n" + p + "do\n" + p + "{\n" + btx(s->b[0], ind + 1) + p +
           "} while (" + s->name + "-- > 0 && " + par(s->e[0]) + ");\n";
  case S_SWITCH:
  {
    std::string o = p + "switch (" + tx(s->e[0]) + ")\n" + p + "{\n";
    for (size_t i = 0; i < s->cases.size(); i++)
    {
      for (uint64_t c : s->cases[i])
        o += p + (c == 0xdefa017dull << 32 ? std::string("default:") : "case " + lit(s->t.k, c) + ":") + "\n";
      o += p + "{\n" + btx(s->b[i], ind + 1) + p + "}\n";
      if (s->idx[i])
        o += p + "break;\n";
    }
    return o + p + "}\n";
  }
  case S_BREAK: return p + "break;\n";
  case S_CONT: return p + "continue;\n";
  case S_SCOPY: return p + s->name + " = " + s->name2 + ";\n";
  case S_SETPTR:
    if (s->n == 1)
      return p + s->name + " = " + tx(s->e[0]) + ";\n";
    return p + s->name + " = " + par(s->e[0]) + " ? " + tx(s->e[1]) + " : " + tx(s->e[2]) + ";\n";
  case S_SCALL: return p + s->name + " = " + tx(s->e[0]) + ";\n";
  case S_VLOAD:
  {
    std::string a = s->name2 + " + " + std::to_string(s->n), w = std::to_string(s->t.w),
                o = std::to_string(s->idx[0]);
    if (s->flag)
      return p + "vstore" + w + "(" + s->name + ", " + o + ", " + a + ");\n";
    return p + s->name + " = vload" + w + "(" + o + ", " + a + ");\n";
  }
  case S_MEMSET:
    return p + "for (int z_ = 0; z_ < " + std::to_string(s->n) + "; z_++) " + s->name + "[z_] = " + tx(s->e[0]) + ";\n";
  case S_BLOCK:
    return p + "{\n" + p + "  " + s->name + " = " + tx(s->e[0]) + ";\n" + btx(s->b[0], ind + 1) + p + "}\n";
  case S_SHARE:
  {
    std::string l = "L" + std::to_string(s->n);
    return p + l + "[lid] = " + s->name + ";\n" + p +
           (s->flag ? "barrier(CLK_LOCAL_MEM_FENCE);\n" : "barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);\n") +
           p + s->name + " = " + l + "[(lid + " + std::to_string(s->idx[0]) + ") % lsz];\n";
  }
  default: return p + ";\n";
  }
}

// -------------------------------------------------------------- evaluation
struct Env
{
  std::vector<V> st; // slots of all frames
  size_t fp = 0;
  const std::vector<std::vector<uint64_t>> *in; // by kind
  const Gen *g;
  uint64_t ids[8];
};
enum Flow { F_NEXT, F_BRK, F_CNT };
static V ev(Env &x, const E *e);
static Flow exb(Env &x, const std::vector<S *> &b);

static uint64_t ibin(Op op, int k, uint64_t a, uint64_t b, int bk, bool vec)
{
  int bits = KS[k] * 8;
  int sb = vec ? bits : std::max(bits, 32);
  switch (op)
  {
  case ADD: return trunc_to(k, a + b);
  case SUB: return trunc_to(k, a - b);
  case MUL: return trunc_to(k, a * b);
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL:
  {
    uint64_t n = b & (sb - 1);
    return trunc_to(k, (uint64_t)sx(k, a) << n);
  }
  case SHR:
  {
    uint64_t n = b & (sb - 1);
    if (is_sgn(k))
      return trunc_to(k, (uint64_t)(sx(k, a) >> n));
    return a >> n;
  }
  case DIV:
    if (is_sgn(k))
      return trunc_to(k, (uint64_t)(sx(k, b) == -1 ? -(uint64_t)sx(k, a) : sx(k, a) / sx(k, b)));
    return a / b;
  case REM:
    if (is_sgn(k))
      return trunc_to(k, (uint64_t)(sx(k, b) == -1 ? 0 : sx(k, a) % sx(k, b)));
    return a % b;
  default: abort();
  }
}
static bool icmpv(Op op, int k, uint64_t a, uint64_t b)
{
  if (is_flt(k))
  {
    double x = getf(k, a), y = getf(k, b);
    switch (op)
    {
    case EQ: return x == y;
    case NE: return x != y;
    case LT: return x < y;
    case LE: return x <= y;
    case GT: return x > y;
    default: return x >= y;
    }
  }
  if (is_sgn(k))
  {
    int64_t x = sx(k, a), y = sx(k, b);
    switch (op)
    {
    case EQ: return x == y;
    case NE: return x != y;
    case LT: return x < y;
    case LE: return x <= y;
    case GT: return x > y;
    default: return x >= y;
    }
  }
  switch (op)
  {
  case EQ: return a == b;
  case NE: return a != b;
  case LT: return a < b;
  case LE: return a <= b;
  case GT: return a > b;
  default: return a >= b;
  }
}
static bool truth(const V &v)
{
  if (is_flt(v.t.k))
    return getf(v.t.k, v.u[0]) != 0;
  return v.u[0] != 0;
}
typedef __int128 i128;
static i128 ext(int k, uint64_t x) { return is_sgn(k) ? (i128)sx(k, x) : (i128)x; }
static uint64_t clampk(int k, i128 v)
{
  int b = KS[k] * 8;
  i128 lo = is_sgn(k) ? -((i128)1 << (b - 1)) : 0;
  i128 hi = is_sgn(k) ? ((i128)1 << (b - 1)) - 1 : ((i128)1 << b) - 1;
  if (v < lo)
    v = lo;
  if (v > hi)
    v = hi;
  return trunc_to(k, (uint64_t)v);
}
// convert_<to>[_sat]_<mode>; always saturating for integer results
static uint64_t convr(int from, int to, uint64_t x, int rm)
{
  static const int FE[] = {0, FE_TONEAREST, FE_TOWARDZERO, FE_UPWARD, FE_DOWNWARD};
  if (!is_flt(to))
  {
    if (!is_flt(from))
      return clampk(to, ext(from, x));
    double d = getf(from, x);
    if (std::isnan(d))
      return 0;
    switch (rm)
    {
    case 0: case 2: d = std::trunc(d); break;
    case 1: d = std::nearbyint(d); break;
    case 3: d = std::ceil(d); break;
    case 4: d = std::floor(d); break;
    }
    if (d > 1e25)
      d = 1e25;
    if (d < -1e25)
      d = -1e25;
    return clampk(to, (i128)d);
  }
  int o = fegetround();
  fesetround(rm ? FE[rm] : FE_TONEAREST);
  volatile double d;
  volatile float f;
  volatile int64_t si = is_flt(from) ? 0 : sx(from, x);
  volatile uint64_t ui = x;
  if (to == F32)
  {
    if (from == F64)
      f = (float)(d = getf(from, x));
    else if (is_flt(from))
      f = (float)getf(from, x);
    else if (is_sgn(from))
      f = (float)si;
    else
      f = (float)ui;
  }
  else
    d = is_flt(from) ? getf(from, x) : is_sgn(from) ? (double)si : (double)ui;
  fesetround(o);
  return to == F32 ? putf32(f) : putf(F64, d);
}
static uint64_t bi1(int b, int k, int ak, uint64_t a, uint64_t bb, uint64_t c, bool vec)
{
  int bits = KS[k] * 8;
  switch (b)
  {
  case B_MADSAT:
    if (k == U64)
    {
      unsigned __int128 m = (unsigned __int128)a * bb + c;
      return m >> 64 ? UINT64_MAX : (uint64_t)m;
    }
    return clampk(k, ext(k, a) * ext(k, bb) + ext(k, c));
  case B_ABS:
  {
    i128 v = ext(ak, a);
    return trunc_to(k, (uint64_t)(v < 0 ? -v : v));
  }
  case B_ABSDIFF:
  {
    i128 v = ext(ak, a) - ext(ak, bb);
    return trunc_to(k, (uint64_t)(v < 0 ? -v : v));
  }
  case B_ADDSAT: return clampk(k, ext(k, a) + ext(k, bb));
  case B_SUBSAT: return clampk(k, ext(k, a) - ext(k, bb));
  case B_HADD: return trunc_to(k, (uint64_t)((ext(k, a) + ext(k, bb)) >> 1));
  case B_RHADD: return trunc_to(k, (uint64_t)((ext(k, a) + ext(k, bb) + 1) >> 1));
  case B_CLZ: return a ? __builtin_clzll(a) - (64 - bits) : bits;
  case B_POPC: return __builtin_popcountll(a);
  case B_ROT:
  {
    int n = bb & (bits - 1);
    return n ? trunc_to(k, a << n | a >> (bits - n)) : a;
  }
  case B_MULHI: 
    if (bits == 64 && !is_sgn(k))
      return (uint64_t)(((unsigned __int128)a * bb) >> 64);
    return trunc_to(k, (uint64_t)((ext(k, a) * ext(k, bb)) >> bits));
  case B_MADHI:
    return trunc_to(k, bi1(B_MULHI, k, ak, a, bb, 0, vec) + c);
  case B_MUL24: return trunc_to(k, (uint64_t)(ext(k, a) * ext(k, bb)));
  case B_MAD24: return trunc_to(k, (uint64_t)(ext(k, a) * ext(k, bb) + ext(k, c)));
  case B_MIN: return ext(k, a) < ext(k, bb) ? a : bb;
  case B_MAX: return ext(k, a) > ext(k, bb) ? a : bb;
  case B_CLAMP: return ext(k, a) < ext(k, bb) ? bb : ext(k, a) > ext(k, c) ? c : a;
  case B_BITSEL: return (a & ~c) | (bb & c);
  case B_SELECT: return vec ? (c >> (bits - 1) & 1 ? bb : a) : (c ? bb : a);
  case B_FABS: return putf(k, std::fabs(getf(k, a)));
  case B_FLOOR: return putf(k, std::floor(getf(k, a)));
  case B_CEIL: return putf(k, std::ceil(getf(k, a)));
  case B_TRUNC: return putf(k, std::trunc(getf(k, a)));
  case B_ISNAN: return std::isnan(getf(ak, a));
  case B_ISINF: return std::isinf(getf(ak, a));
  case B_SIGNBIT: return std::signbit(getf(ak, a));
  case B_UPS: return trunc_to(k, a << (bits / 2) | bb);
  }
  abort();
}
static V callf(Env &x, const E *e, std::vector<V> *sret);

static V ev(Env &x, const E *e)
{
  V v;
  v.t = e->t;
  int w = e->t.w, k = e->t.k;
  switch (e->op)
  {
  case CONST: memcpy(v.u, e->c, sizeof v.u); return v;
  case VAR: return x.st[x.fp + e->slot];
  case ARR: return x.st[x.fp + e->slot + ev(x, e->k[0]).u[0]];
  case PTRLD:
  {
    size_t i = ev(x, e->k[0]).u[0];
    return x.st[x.st[x.fp + e->slot].u[0] + i];
  }
  case TAB: return x.g->tables[e->n].second[ev(x, e->k[0]).u[0]];
  case INB:
  {
    size_t i = ev(x, e->k[0]).u[0];
    for (int j = 0; j < w; j++)
      v.u[j] = (*x.in)[k][i * w + j];
    return v;
  }
  case SWZ:
  {
    V a = ev(x, e->k[0]);
    for (int j = 0; j < w; j++)
      v.u[j] = a.u[e->idx[j]];
    return v;
  }
  case DYN:
  {
    uint64_t i = ev(x, e->k[1]).u[0];
    v.u[0] = ev(x, e->k[0]).u[i];
    return v;
  }
  case VECLIT:
  {
    int o = 0;
    for (auto *kk : e->k)
    {
      V a = ev(x, kk);
      for (int j = 0; j < a.t.w; j++)
        v.u[o++] = a.u[j];
    }
    return v;
  }
  case SPLAT:
  {
    V a = ev(x, e->k[0]);
    for (int j = 0; j < w; j++)
      v.u[j] = a.u[0];
    return v;
  }
  case ADD: case SUB: case MUL: case AND: case OR: case XOR: case SHL: case SHR: case DIV: case REM:
  {
    V a = ev(x, e->k[0]), b = ev(x, e->k[1]);
    for (int j = 0; j < w; j++)
      if (is_flt(k))
      {
        double p = getf(k, a.u[j]), q = getf(k, b.u[j]);
        double r = e->op == ADD ? p + q : e->op == SUB ? p - q : e->op == MUL ? p * q : p / q;
        if (k == F32)
        {
          float pf = p, qf = q;
          r = e->op == ADD ? pf + qf : e->op == SUB ? pf - qf : e->op == MUL ? pf * qf : pf / qf;
        }
        v.u[j] = putf(k, r);
      }
      else
        v.u[j] = ibin(e->op, k, a.u[j], b.u[j], b.t.k, w > 1);
    return v;
  }
  case EQ: case NE: case LT: case LE: case GT: case GE:
  {
    V a = ev(x, e->k[0]), b = ev(x, e->k[1]);
    for (int j = 0; j < w; j++)
    {
      bool r = icmpv(e->op, a.t.k, a.u[j], b.u[j]);
      v.u[j] = w > 1 ? (r ? trunc_to(k, ~0ull) : 0) : r;
    }
    return v;
  }
  case LAND: v.u[0] = truth(ev(x, e->k[0])) && truth(ev(x, e->k[1])); return v;
  case LOR: v.u[0] = truth(ev(x, e->k[0])) || truth(ev(x, e->k[1])); return v;
  case TERN: return truth(ev(x, e->k[0])) ? ev(x, e->k[1]) : ev(x, e->k[2]);
  case VSEL:
  {
    V c = ev(x, e->k[0]), a = ev(x, e->k[1]), b = ev(x, e->k[2]);
    for (int j = 0; j < w; j++)
      v.u[j] = (c.u[j] >> (KS[k] * 8 - 1)) & 1 ? a.u[j] : b.u[j];
    return v;
  }
  case NEG:
  {
    V a = ev(x, e->k[0]);
    for (int j = 0; j < w; j++)
      v.u[j] = is_flt(k) ? putf(k, -getf(k, a.u[j])) : trunc_to(k, 0 - a.u[j]);
    return v;
  }
  case NOT:
  {
    V a = ev(x, e->k[0]);
    for (int j = 0; j < w; j++)
      v.u[j] = trunc_to(k, ~a.u[j]);
    return v;
  }
  case LNOT: v.u[0] = !truth(ev(x, e->k[0])); return v;
  case CAST:
  {
    V a = ev(x, e->k[0]);
    for (int j = 0; j < w; j++)
      v.u[j] = conv(a.t.k, k, a.u[j]);
    return v;
  }
  case F2I:
  {
    V a = ev(x, e->k[0]);
    double d = getf(a.t.k, a.u[0]);
    double lim = KS[k] == 1 ? 100 : KS[k] == 2 ? 30000 : 1e6;
    if (is_sgn(k) ? std::fabs(d) < lim : (d >= 0 && d < lim))
      v.u[0] = trunc_to(k, (uint64_t)(int64_t)d);
    else
      v.u[0] = 7;
    return v;
  }
  case AS:
  {
    V a = ev(x, e->k[0]);
    unsigned char b[128];
    int fs = KS[a.t.k], ts = KS[k];
    for (int j = 0; j < a.t.w; j++)
      memcpy(b + j * fs, &a.u[j], fs);
    for (int j = 0; j < w; j++)
    {
      v.u[j] = 0;
      memcpy(&v.u[j], b + j * ts, ts);
    }
    return v;
  }
  case FMA:
  {
    V a = ev(x, e->k[0]), b = ev(x, e->k[1]), c = ev(x, e->k[2]);
    for (int j = 0; j < w; j++)
      v.u[j] = putf(k, getf(k, a.u[j]) * getf(k, b.u[j]) + getf(k, c.u[j]));
    return v;
  }
  case BI:
  {
    V a[3];
    for (size_t i = 0; i < e->k.size(); i++)
      a[i] = ev(x, e->k[i]);
    if (e->n == B_ANY || e->n == B_ALL)
    {
      bool any = false, all = true;
      for (int j = 0; j < a[0].t.w; j++)
      {
        bool m = a[0].u[j] >> (KS[a[0].t.k] * 8 - 1) & 1;
        any |= m;
        all &= m;
      }
      v.u[0] = e->n == B_ANY ? any : all;
      return v;
    }
    if (e->n == B_CONV)
    {
      for (int j = 0; j < w; j++)
        v.u[j] = convr(a[0].t.k, k, a[0].u[j], e->c[0]);
      return v;
    }
    if (e->n == B_SHUF)
    {
      for (int j = 0; j < w; j++)
        v.u[j] = a[0].u[a[1].u[j] & (a[0].t.w - 1)];
      return v;
    }
    for (int j = 0; j < w; j++)
    {
      v.u[j] = bi1(e->n, k, a[0].t.k, a[0].u[j], e->k.size() > 1 ? a[1].u[j] : 0,
                   e->k.size() > 2 ? a[2].u[j] : 0, w > 1);
      if (w > 1 && (e->n == B_ISNAN || e->n == B_ISINF || e->n == B_SIGNBIT))
        v.u[j] = v.u[j] ? trunc_to(k, ~0ull) : 0;
    }
    return v;
  }
  case CALL: return callf(x, e, NULL);
  case ID: v.u[0] = x.ids[e->n]; return v;
  default: abort();
  }
}
static V callf(Env &x, const E *e, std::vector<V> *sret)
{
  Func *f = e->f;
  std::vector<std::vector<V>> args;
  for (auto *k : e->k)
  {
    if (k->op == SARG && k->n == -1)
    {
      V p;
      p.t = mk(U64);
      p.u[0] = x.fp + k->slot;
      args.push_back({p});
    }
    else if (k->op == SARG)
      args.push_back(std::vector<V>(x.st.begin() + x.fp + k->slot, x.st.begin() + x.fp + k->slot + k->n));
    else
      args.push_back({ev(x, k)});
  }
  size_t ofp = x.fp, osz = x.st.size();
  x.fp = osz;
  x.st.resize(osz + f->slots);
  for (size_t i = 0; i < args.size(); i++)
    for (size_t j = 0; j < args[i].size(); j++)
      x.st[x.fp + f->params[i].slot + j] = args[i][j];
  exb(x, f->body);
  V r;
  r.t = f->ret;
  if (f->retv)
    r = ev(x, f->retv);
  if (sret)
    sret->assign(x.st.begin() + x.fp + f->retslot, x.st.begin() + x.fp + f->retslot + f->sret->slots);
  x.fp = ofp;
  x.st.resize(osz);
  return r;
}
static Flow ex(Env &x, const S *s)
{
  switch (s->op)
  {
  case S_ASG:
  {
    V v = ev(x, s->e[0]);
    x.st[x.fp + s->slot] = v;
    return F_NEXT;
  }
  case S_SWZASG:
  {
    V v = ev(x, s->e[0]);
    for (size_t i = 0; i < s->idx.size(); i++)
      x.st[x.fp + s->slot].u[s->idx[i]] = v.u[i];
    return F_NEXT;
  }
  case S_DYNASG:
  {
    uint64_t i = ev(x, s->e[0]).u[0];
    V v = ev(x, s->e[1]);
    x.st[x.fp + s->slot].u[i] = v.u[0];
    return F_NEXT;
  }
  case S_ARRASG:
  {
    uint64_t i = ev(x, s->e[0]).u[0];
    V v = ev(x, s->e[1]);
    x.st[x.fp + s->slot + i] = v;
    return F_NEXT;
  }
  case S_PTRASG:
  {
    uint64_t i = ev(x, s->e[0]).u[0];
    V v = ev(x, s->e[1]);
    x.st[x.st[x.fp + s->slot].u[0] + i] = v;
    return F_NEXT;
  }
  case S_ROT:
  {
    V t = x.st[x.fp + s->e[0]->slot];
    for (size_t i = 0; i < s->e.size(); i++)
    {
      V f = i + 1 < s->e.size() ? x.st[x.fp + s->e[i + 1]->slot] : t;
      V &d = x.st[x.fp + s->e[i]->slot];
      int from = i + 1 < s->e.size() ? s->e[i + 1]->t.k : s->e[0]->t.k;
      for (int c = 0; c < s->e[i]->t.w; c++)
        d.u[c] = conv(from, s->e[i]->t.k, f.u[c]);
    }
    return F_NEXT;
  }
  case S_PMOD:
  {
    size_t base = x.st[x.fp + s->slot].u[0];
    size_t i = ev(x, s->e[0]).u[0], j = ev(x, s->e[1]).u[0];
    V t = x.st[base + i];
    V v = ev(x, s->e[2]);
    x.st[base + j] = v;
    V c = ev(x, s->e[3]);
    t.u[s->idx[0]] = c.u[0];
    x.st[base + (s->idx[1] ? i : j)] = t;
    return F_NEXT;
  }
  case S_COMP:
  {
    V b = ev(x, s->e[0]);
    V &d = x.st[x.fp + s->slot];
    d.u[0] = ibin(s->bop, s->t.k, d.u[0], b.u[0], b.t.k, false);
    return F_NEXT;
  }
  case S_INC:
  {
    V &d = x.st[x.fp + s->slot];
    d.u[0] = trunc_to(s->t.k, d.u[0] + (s->n < 2 ? 1 : -1));
    return F_NEXT;
  }
  case S_IF:
    if (truth(ev(x, s->e[0])))
      return exb(x, s->b[0]);
    if (s->b.size() > 1)
      return exb(x, s->b[1]);
    return F_NEXT;
  case S_FOR:
  {
    uint64_t lim = ev(x, s->e[0]).u[0];
    V i;
    i.t = s->t;
    for (i.u[0] = 0; i.u[0] < lim; i.u[0]++)
    {
      x.st[x.fp + s->slot] = i;
      Flow f = exb(x, s->b[0]);
      if (f == F_BRK)
        break;
    }
    return F_NEXT;
  }
  case S_WHILE: case S_DO:
  {
    V i;
    i.t = mk(I32);
    i.u[0] = s->n;
    x.st[x.fp + s->slot] = i;
    bool first = s->op == S_DO;
    while (true)
    {
      if (!first)
      {
        V &c = x.st[x.fp + s->slot];
        int32_t o = (int32_t)c.u[0];
        c.u[0] = (uint32_t)(o - 1);
        if (!(o > 0 && truth(ev(x, s->e[0]))))
          break;
      }
      first = false;
      if (exb(x, s->b[0]) == F_BRK)
        break;
    }
    return F_NEXT;
  }
  case S_SWITCH:
  {
    uint64_t v = ev(x, s->e[0]).u[0];
    int at = -1;
    for (size_t i = 0; i < s->cases.size(); i++)
      for (uint64_t c : s->cases[i])
        if (c != 0xdefa017dull << 32 && c == v)
          at = i;
    if (at < 0)
      for (size_t i = 0; i < s->cases.size(); i++)
        for (uint64_t c : s->cases[i])
          if (c == 0xdefa017dull << 32)
            at = i;
    if (at < 0)
      return F_NEXT;
    for (size_t i = at; i < s->cases.size(); i++)
    {
      Flow f = exb(x, s->b[i]);
      if (f == F_BRK)
        return F_NEXT;
      if (f == F_CNT)
        return f;
      if (s->idx[i])
        break;
    }
    return F_NEXT;
  }
  case S_BREAK: return F_BRK;
  case S_CONT: return F_CNT;
  case S_SCOPY:
    for (int i = 0; i < s->n; i++)
      x.st[x.fp + s->slot + i] = x.st[x.fp + s->slot2 + i];
    return F_NEXT;
  case S_SETPTR:
  {
    int c = 0;
    if (s->n == 2)
      c = truth(ev(x, s->e[0])) ? 0 : 1;
    V p;
    p.t = mk(U64);
    p.u[0] = x.fp + s->idx[c];
    x.st[x.fp + s->slot] = p;
    return F_NEXT;
  }
  case S_SCALL:
  {
    std::vector<V> r;
    callf(x, s->e[0], &r);
    for (int i = 0; i < s->n; i++)
      x.st[x.fp + s->slot + i] = r[i];
    return F_NEXT;
  }
  case S_VLOAD:
    for (int i = 0; i < s->t.w; i++)
    {
      V &a = x.st[x.fp + s->slot2 + s->n + s->idx[0] * s->t.w + i];
      V &v = x.st[x.fp + s->slot];
      if (s->flag)
        a.u[0] = v.u[i];
      else
        v.u[i] = a.u[0];
    }
    return F_NEXT;
  case S_MEMSET:
    for (int i = 0; i < s->n; i++)
    {
      V v = ev(x, s->e[0]);
      x.st[x.fp + s->slot + i] = v;
    }
    return F_NEXT;
  case S_BLOCK:
  {
    V v = ev(x, s->e[0]);
    x.st[x.fp + s->slot] = v;
    return exb(x, s->b[0]);
  }
  default: abort();
  }
}
static Flow exb(Env &x, const std::vector<S *> &b)
{
  for (auto *s : b)
  {
    Flow f = ex(x, s);
    if (f != F_NEXT)
      return f;
  }
  return F_NEXT;
}

// ------------------------------------------------------------------ kernel
struct Prog
{
  std::string src;
  Func *main;
  Struct *arg = NULL; // struct passed by value to the kernel
  int argslot = -1, scalslot = -1;
  Ty scal;
  std::vector<std::pair<Var, size_t>> dumps; // variable, offset in the record
  size_t rec = 0;
  std::vector<int> lowner;
};

static std::string vdecl(const Var &v)
{
  if (v.st)
    return v.st->name + " " + v.name;
  if (v.ptr)
    return tn(v.t) + " *" + v.name;
  if (v.n)
    return tn(v.t) + " " + v.name + "[" + std::to_string(v.n) + "]";
  return tn(v.t) + " " + v.name;
}

static void gen_struct(Gen &g)
{
  Rnd &q = g.q;
  Struct *s = new Struct;
  s->name = "S" + std::to_string(g.structs.size());
  int n = 2 + q(4);
  size_t off = 0, al = 1;
  s->slots = 0;
  for (int i = 0; i < n; i++)
  {
    Field f;
    f.name = "f" + std::to_string(i);
    f.t = g.rty();
    if (f.t.w > 4)
      f.t.w = 4;
    f.n = q(3) == 0 ? 2 + q(3) : 0;
    f.slot = s->slots;
    s->slots += f.n ? f.n : 1;
    size_t a = ty_align(f.t);
    al = std::max(al, a);
    off = (off + a - 1) / a * a;
    f.off = off;
    off += ty_size(f.t) * (f.n ? f.n : 1);
    s->f.push_back(f);
  }
  s->align = al;
  s->size = (off + al - 1) / al * al;
  g.structs.push_back(s);
}
static std::string struct_text(const Struct *s)
{
  std::string o = "typedef struct {";
  for (auto &f : s->f)
    o += " " + tn(f.t) + " " + f.name + (f.n ? "[" + std::to_string(f.n) + "]" : "") + ";";
  return o + " } " + s->name + ";\n";
}
static std::string init_of(Gen &g, const Var &v, std::vector<S *> &body)
{
  // statements that initialise the variable
  std::string nothing;
  if (v.st)
  {
    for (auto &f : v.st->f)
      for (int i = 0; i < (f.n ? f.n : 1); i++)
      {
        S *s = new S;
        s->op = S_ASG;
        s->name = v.name + "." + f.name + (f.n ? "[" + std::to_string(i) + "]" : "");
        s->slot = v.slot + f.slot + i;
        s->t = f.t;
        s->e = {g.q(2) ? g.konst(f.t) : g.leaf(f.t)};
        body.push_back(s);
      }
  }
  else
    for (int i = 0; i < (v.n ? v.n : 1); i++)
    {
      S *s = new S;
      s->op = S_ASG;
      s->name = v.name + (v.n ? "[" + std::to_string(i) + "]" : "");
      s->slot = v.slot + i;
      s->t = v.t;
      s->e = {g.q(2) ? g.konst(v.t) : g.leaf(v.t)};
      body.push_back(s);
    }
  return nothing;
}
static void gen_func(Gen &g)
{
  Rnd &q = g.q;
  Func *f = new Func;
  f->name = "fn" + std::to_string(g.funcs.size());
  g.cur = f;
  g.scope.clear();
  g.infunc = true;
  int np = 1 + q(3);
  for (int i = 0; i < np; i++)
  {
    Var v;
    v.name = "p" + std::to_string(i);
    int c = q(6);
    if (c == 0 && !g.structs.empty())
    {
      v.st = g.structs[q(g.structs.size())];
      v.slot = f->slots;
      f->slots += v.st->slots;
    }
    else if (c == 1)
    {
      v.ptr = true;
      v.ro = true; // not repointed
      v.t = g.rty(true, q(2));
      v.plen = 2 + q(2);
      v.slot = f->slots++;
    }
    else
    {
      v.t = g.rty();
      v.slot = f->slots++;
    }
    f->params.push_back(v);
    g.scope.push_back(v);
  }
  bool sr = !g.structs.empty() && q(3) == 0;
  if (sr)
    f->sret = g.structs[q(g.structs.size())];
  f->ret = g.rty();
  f->noinl = q(2);
  // locals: initialised with leaves over the parameters
  std::vector<S *> init;
  size_t np0 = g.scope.size();
  std::vector<Var> nl;
  for (int i = 0; i < 1 + (int)q(2); i++)
  {
    Var v = g.decl(g.rty(), q(4) == 0 ? 2 + q(3) : 0);
    nl.push_back(v);
  }
  Var rv;
  if (sr)
  {
    rv = g.declst(f->sret);
    nl.push_back(rv);
    f->retslot = rv.slot;
  }
  auto full = g.scope;
  g.scope.resize(np0);
  for (auto &v : nl)
    init_of(g, v, init);
  g.scope = full;
  auto body = g.block(1 + q(4), 2);
  f->body = init;
  f->body.insert(f->body.end(), body.begin(), body.end());
  if (!sr)
    f->retv = g.expr(f->ret, 2);
  else
  {
    f->retv = NULL;
    E *e = g.ne(SARG, f->ret);
    e->name = rv.name;
    (void)e;
  }
  g.infunc = false;
  g.funcs.push_back(f);
}
static const char *IN_PARAMS = "global const struct_in *in";
static std::string in_decls()
{
  std::string o;
  for (int k = 0; k < 10; k++)
    o += std::string("  global const ") + KN[k] + " *in_" + KN[k] + " = in->" + KN[k] + "_;\n";
  return o;
}
static std::string func_text(const Func *f, const std::string &rvname)
{
  std::string o = f->noinl ? "__attribute__((noinline)) " : "";
  o += (f->sret ? f->sret->name : tn(f->ret)) + " " + f->name + "(" + IN_PARAMS;
  for (auto &p : f->params)
    o += ", " + vdecl(p);
  o += ")\n{\n" + in_decls();
  for (auto &v : f->vars)
    o += "  " + vdecl(v) + ";\n";
  o += btx(f->body, 1);
  if (f->sret)
    o += "  return " + rvname + ";\n";
  else
    o += "  return " + tx(f->retv) + ";\n";
  return o + "}\n";
}

static Prog generate(Run &r, Rnd &q, Gen &g)
{
  Prog P;
  int ns = q(3);
  for (int i = 0; i < ns; i++)
    gen_struct(g);
  // constant tables
  int nt = q(3);
  for (int i = 0; i < nt; i++)
  {
    Ty t = g.rty();
    std::vector<V> c(2 + q(5));
    for (auto &v : c)
    {
      v.t = t;
      for (int j = 0; j < t.w; j++)
        do
          v.u[j] = g.rbits(t.k);
        while (is_flt(t.k) && !std::isfinite(getf(t.k, v.u[j])));
    }
    g.tables.push_back({t, c});
  }
  int nf = q(4);
  for (int i = 0; i < nf; i++)
    gen_func(g);
  // kernel body
  Func *m = new Func;
  g.cur = m;
  g.scope.clear();
  m->name = "lk";
  std::vector<S *> init;
  // kernel arguments as slots
  if (!g.structs.empty() && q(2))
  {
    P.arg = g.structs[q(g.structs.size())];
    Var v;
    v.name = "arg";
    v.st = P.arg;
    v.slot = m->slots;
    v.ro = true;
    m->slots += P.arg->slots;
    P.argslot = v.slot;
    g.scope.push_back(v);
  }
  {
    Var v;
    v.name = "scal";
    v.t = P.scal = g.rty();
    v.slot = P.scalslot = m->slots++;
    v.ro = true;
    g.scope.push_back(v);
  }
  size_t base = g.scope.size();
  std::vector<Var> nl;
  int n = 4 + q(6);
  for (int i = 0; i < n; i++)
  {
    if (!g.structs.empty() && q(4) == 0)
      nl.push_back(g.declst(g.structs[q(g.structs.size())]));
    else
    {
      Ty t = g.rty();
      int an = q(3) == 0 ? 2 + q(7) : 0;
      if (an && q(2))
        t.w = 1;
      nl.push_back(g.decl(t, an));
    }
  }
  auto full = g.scope;
  g.scope.resize(base);
  for (auto &v : nl)
    init_of(g, v, init);
  g.scope = full;
  // pointers into arrays
  size_t na = nl.size();
  for (size_t i = 0; i < na; i++)
    if (nl[i].n && q(2))
    {
      Var v;
      v.name = "p" + std::to_string(g.nv++);
      v.t = nl[i].t;
      v.ptr = true;
      v.plen = 1 + q(nl[i].n);
      v.slot = m->slots++;
      m->vars.push_back(v);
      S *s = new S;
      s->op = S_SETPTR;
      s->name = v.name;
      s->slot = v.slot;
      s->n = 1;
      int o = q(nl[i].n - v.plen + 1);
      E *x = g.ne(SARG, v.t);
      x->name = "(" + nl[i].name + " + " + std::to_string(o) + ")";
      s->e = {x};
      s->idx = {nl[i].slot + o};
      init.push_back(s);
      g.scope.push_back(v);
    }
  m->body = init;
  int np = 1 + q(3);
  for (int p = 0; p < np; p++)
  {
    auto b = g.block(2 + q(6), 3);
    m->body.insert(m->body.end(), b.begin(), b.end());
    if (p + 1 < np || q(3) == 0)
    {
      bool k = r.keep();
      S *s = g.share();
      if (k)
        m->body.push_back(s);
    }
  }
  // text
  std::string o = "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n#pragma OPENCL FP_CONTRACT OFF\n";
  o += "typedef struct {";
  for (int k = 9; k >= 0; k--)
    if (KS[k] == 8)
      o += std::string(" ") + KN[k] + " " + KN[k] + "_[" + std::to_string(NIN * 16) + "];";
  for (int k = 9; k >= 0; k--)
    if (KS[k] != 8)
      o += std::string(" ") + KN[k] + " " + KN[k] + "_[" + std::to_string(NIN * 16) + "];";
  o += " } struct_in;\n";
  for (int k = 0; k < 8; k++)
    for (int f = 8; f < 10; f++)
    {
      const char *lim = KS[k] == 1 ? "100" : KS[k] == 2 ? "30000" : "1e6";
      std::string fl = f == 8 ? std::string(lim) + (KS[k] > 2 ? "f" : ".0f") : lim;
      o += std::string("static inline ") + KN[k] + " f2i_" + KN[f] + "_" + KN[k] + "(" + KN[f] + " x) { return " +
           (is_sgn(k) ? "fabs(x) < " + fl : "x >= 0 && x < " + fl) + " ? (" + KN[k] + ")x : (" + KN[k] + ")7; }\n";
    }
  for (int f = 8; f < 10; f++)
    for (int w : {1, 2, 4})
    {
      std::string t = tn(mk(f, w));
      o += t + " fmad_" + t + "(" + t + " a, " + t + " b, " + t + " c) {\n#pragma OPENCL FP_CONTRACT ON\n return a * b + c; }\n";
    }
  for (auto *s : g.structs)
    o += struct_text(s);
  for (size_t i = 0; i < g.tables.size(); i++)
  {
    auto &t = g.tables[i];
    o += "constant " + tn(t.first) + " T" + std::to_string(i) + "[" + std::to_string(t.second.size()) + "] = {";
    for (auto &v : t.second)
    {
      if (t.first.w == 1)
      {
        if (is_flt(t.first.k))
        {
          char b[64];
          double d = getf(t.first.k, v.u[0]);
          snprintf(b, sizeof b, t.first.k == F32 ? "%af" : "%a", d);
          o += std::string(b) + ", ";
        }
        else
          o += lit(t.first.k, v.u[0]) + ", ";
        continue;
      }
      o += "(" + tn(t.first) + ")(";
      for (int j = 0; j < t.first.w; j++)
      {
        if (is_flt(t.first.k))
        {
          char b[64];
          double d = getf(t.first.k, v.u[j]);
          snprintf(b, sizeof b, t.first.k == F32 ? "%af" : "%a", d);
          o += (j ? ", " : "") + std::string(b);
        }
        else
          o += (j ? ", " : "") + lit(t.first.k, v.u[j]);
      }
      o += "), ";
    }
    o += "};\n";
  }
  for (auto *f : g.funcs)
  {
    std::string rv;
    for (auto &v : f->vars)
      if (f->sret && v.slot == f->retslot)
        rv = v.name;
    o += func_text(f, rv);
  }
  o += std::string("kernel void lk(") + IN_PARAMS + ", global uchar *out";
  if (P.arg)
    o += ", " + P.arg->name + " arg";
  o += ", " + tn(P.scal) + " scal)\n{\n" + in_decls();
  o += "  size_t lid = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));\n"
       "  size_t lsz = get_local_size(0) * get_local_size(1) * get_local_size(2);\n"
       "  size_t item = (get_global_id(0) - get_global_offset(0)) + get_global_size(0) *\n"
       "    ((get_global_id(1) - get_global_offset(1)) + get_global_size(1) *\n"
       "     (get_global_id(2) - get_global_offset(2)));\n";
  for (auto &l : g.locals)
    o += "  local " + tn(l.t) + " " + l.name + "[32];\n";
  for (auto &v : m->vars)
    o += "  " + vdecl(v) + ";\n";
  o += btx(m->body, 1);
  size_t off = 0;
  for (auto &v : nl)
  {
    size_t a = v.st ? v.st->align : ty_align(v.t);
    off = (off + a - 1) / a * a;
    P.dumps.push_back({v, off});
    off += v.st ? v.st->size : ty_size(v.t) * (v.n ? v.n : 1);
  }
  off = (off + 127) / 128 * 128;
  P.rec = off;
  o += "  global uchar *o = out + item * " + std::to_string(off) + ";\n";
  for (auto &d : P.dumps)
  {
    const Var &v = d.first;
    std::string at = "(o + " + std::to_string(d.second) + ")";
    if (v.st)
      o += "  *(global " + v.st->name + "*)" + at + " = " + v.name + ";\n";
    else if (v.n)
      o += "  for (int z_ = 0; z_ < " + std::to_string(v.n) + "; z_++) ((global " + tn(v.t) + "*)" + at + ")[z_] = " +
           v.name + "[z_];\n";
    else
      o += "  *(global " + tn(v.t) + "*)" + at + " = " + v.name + ";\n";
  }
  o += "}\n";
  P.src = o;
  P.main = m;
  return P;
}

// ---------------------------------------------------------------- workload
static cl_context CTX;
static void setup(const std::string &variant)
{
  setenv("OCLGRIND_PLUGINS", BUILD_DIR "/libobs.so", 1);
  if (variant == "uninit")
    setenv("OCLGRIND_UNINITIALIZED", "1", 1);
  obs_hooks.threadsafe = 1;
  cl_setup_platform();
  CTX = cl_new_context();
  cl_build(CTX, "kernel void warm(global int *a) { a[0] = 1; }", "");
}

static void put(std::vector<uint8_t> &b, size_t off, Ty t, const V &v)
{
  for (int j = 0; j < t.w; j++)
    memcpy(&b[off + j * KS[t.k]], &v.u[j], KS[t.k]);
}
static std::string show(Ty t, const uint8_t *p)
{
  std::string s;
  char b[64];
  for (int j = 0; j < t.w; j++)
  {
    uint64_t x = 0;
    memcpy(&x, p + j * KS[t.k], KS[t.k]);
    if (is_flt(t.k))
      snprintf(b, sizeof b, "%s%g(0x%lx)", j ? "," : "", getf(t.k, x), x);
    else
      snprintf(b, sizeof b, "%s0x%lx", j ? "," : "", x);
    s += b;
  }
  return s;
}

static void run(Run &r)
{
  Rnd &q = r.rng;
  Gen g(q, r);
  Prog P = generate(r, q, g);
  // ND-range
  size_t gs[3] = {1, 1, 1}, ls[3] = {1, 1, 1}, off[3] = {0, 0, 0};
  int dims = 1 + q(3);
  bool uniform = q(2);
  for (int i = 0; i < dims; i++)
  {
    ls[i] = 1 + q(dims == 1 ? 4 : 2);
    gs[i] = ls[i] * (1 + q(dims == 1 ? 4 : 2));
    if (!uniform && gs[i] > 1 && q(2))
      gs[i]--;
    if (q(3) == 0)
      off[i] = q(100);
  }
  static const char *opts[] = {"", "-cl-opt-disable", "", "-O1", "-O2", "-O3"};
  std::string opt = opts[q(6)];
  opt += uniform ? " -cl-std=CL1.2" : " -cl-std=CL3.0";
  // inputs
  std::vector<std::vector<uint64_t>> in(10);
  std::vector<uint8_t> inb;
  auto app = [&](int k) {
    in[k].resize(NIN * 16);
    for (auto &x : in[k])
      x = g.rbits(k);
    size_t o = inb.size();
    inb.resize(o + NIN * 16 * KS[k]);
    for (size_t i = 0; i < in[k].size(); i++)
      memcpy(&inb[o + i * KS[k]], &in[k][i], KS[k]);
  };
  for (int k = 9; k >= 0; k--)
    if (KS[k] == 8)
      app(k);
  for (int k = 9; k >= 0; k--)
    if (KS[k] != 8)
      app(k);
  size_t items = gs[0] * gs[1] * gs[2];
  std::vector<uint8_t> argb;
  std::vector<V> argv;
  if (P.arg)
  {
    argb.resize(P.arg->size);
    argv.resize(P.arg->slots);
    for (auto &f : P.arg->f)
      for (int i = 0; i < (f.n ? f.n : 1); i++)
      {
        V &v = argv[f.slot + i];
        v.t = f.t;
        for (int j = 0; j < f.t.w; j++)
          v.u[j] = g.rbits(f.t.k);
        put(argb, f.off + i * ty_size(f.t), f.t, v);
      }
  }
  V sc;
  sc.t = P.scal;
  std::vector<uint8_t> scb(ty_size(P.scal));
  for (int j = 0; j < P.scal.w; j++)
    sc.u[j] = g.rbits(P.scal.k);
  put(scb, 0, P.scal, sc);

  // reference
  std::vector<Env> env(items);
  size_t ng[3];
  for (int i = 0; i < 3; i++)
    ng[i] = (gs[i] + ls[i] - 1) / ls[i];
  for (size_t z = 0; z < gs[2]; z++)
    for (size_t y = 0; y < gs[1]; y++)
      for (size_t x = 0; x < gs[0]; x++)
      {
        Env &e = env[x + gs[0] * (y + gs[1] * z)];
        e.in = &in;
        e.g = &g;
        e.st.resize(P.main->slots);
        for (auto &v : e.st)
          memset(&v, 0, sizeof v);
        for (auto &d : P.dumps)
          (void)d;
        if (P.arg)
          for (size_t i = 0; i < argv.size(); i++)
            e.st[P.argslot + i] = argv[i];
        e.st[P.scalslot] = sc;
        size_t g0 = x / ls[0];
        e.ids[0] = x + off[0];
        e.ids[1] = x % ls[0];
        e.ids[2] = g0;
        e.ids[3] = std::min(ls[0], gs[0] - g0 * ls[0]);
        e.ids[4] = gs[0];
        e.ids[5] = ng[0];
        e.ids[6] = y + off[1];
        e.ids[7] = y % ls[1];
      }
  size_t nshare = 0;
  for (auto *s : P.main->body)
  {
    if (s->op != S_SHARE)
    {
      for (auto &e : env)
        ex(e, s);
      continue;
    }
    nshare++;
    for (size_t gz = 0; gz < ng[2]; gz++)
      for (size_t gy = 0; gy < ng[1]; gy++)
        for (size_t gx = 0; gx < ng[0]; gx++)
        {
          std::vector<size_t> it;
          for (size_t z = gz * ls[2]; z < std::min(gs[2], (gz + 1) * ls[2]); z++)
            for (size_t y = gy * ls[1]; y < std::min(gs[1], (gy + 1) * ls[1]); y++)
              for (size_t x = gx * ls[0]; x < std::min(gs[0], (gx + 1) * ls[0]); x++)
                it.push_back(x + gs[0] * (y + gs[1] * z));
          std::vector<V> l;
          for (size_t i : it)
            l.push_back(env[i].st[s->slot]);
          for (size_t i = 0; i < it.size(); i++)
            env[it[i]].st[s->slot] = l[(i + s->idx[0]) % it.size()];
        }
  }
  r.d("ndrange dims=%d offset=(%zu,%zu,%zu) global=(%zu,%zu,%zu) local=(%zu,%zu,%zu) options '%s'", dims, off[0],
      off[1], off[2], gs[0], gs[1], gs[2], ls[0], ls[1], ls[2], opt.c_str());
  if (r.desc)
  {
    size_t p = 0;
    while (p < P.src.size())
    {
      size_t e = P.src.find('\n', p);
      std::string l = P.src.substr(p, e - p);
      if (l.find("f2i_") != 14 || l.compare(0, 13, "static inline"))
        r.d("%.400s", l.c_str());
      p = e + 1;
    }
  }
  int workers = 1 + q(4);
  r.d("workers=%d", workers);
  // build
  cl_int err;
  const char *sp = P.src.c_str();
  cl_program prog = clCreateProgramWithSource(CTX, 1, &sp, NULL, &err);
  err = clBuildProgram(prog, 0, NULL, opt.c_str(), NULL, NULL);
  if (err != CL_SUCCESS)
  {
    static char log[20000];
    clGetProgramBuildInfo(prog, g_device, CL_PROGRAM_BUILD_LOG, sizeof log, log, NULL);
    dsim_out("I generated kernel does not build: %.3000s\n", log);
    fprintf(stderr, "%s\n", log);
    r.fail("build", "generated kernel does not build: %.1500s", log);
  }
  capture_reset();
  std::vector<uint8_t> got(items * P.rec + 128, 0xEE);
  set_threads(workers);
  r.begin();
  cl_command_queue cq = clCreateCommandQueue(CTX, g_device, 0, &err);
  cl_kernel k = clCreateKernel(prog, "lk", &err);
  if (err == CL_INVALID_KERNEL_NAME &&
      (captured_stderr().find("Undefined external function: llvm.") != std::string::npos ||
       captured_stderr().find("Unsupported constant int size") != std::string::npos))
  {
    // an optimisation introduced an intrinsic or an integer width the
    // interpreter does not support: the program is refused with a diagnostic, not executed
    r.stat("refused_unsupported_ir");
    clReleaseCommandQueue(cq);
    r.end();
    return;
  }
  if (err != CL_SUCCESS)
    r.fail("api-status", "clCreateKernel returned %d: %.600s", err, captured_stderr().c_str());
  cl_mem mi = clCreateBuffer(CTX, CL_MEM_READ_ONLY | CL_MEM_COPY_HOST_PTR, inb.size(), inb.data(), &err);
  cl_mem mo = clCreateBuffer(CTX, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, got.size(), got.data(), &err);
  int a = 0;
  clSetKernelArg(k, a++, sizeof mi, &mi);
  clSetKernelArg(k, a++, sizeof mo, &mo);
  if (P.arg)
    r.require_cl(clSetKernelArg(k, a++, argb.size(), argb.data()), CL_SUCCESS, "clSetKernelArg struct");
  r.require_cl(clSetKernelArg(k, a++, scb.size(), scb.data()), CL_SUCCESS, "clSetKernelArg scalar");
  r.require_cl(clEnqueueNDRangeKernel(cq, k, dims, off, gs, ls, 0, NULL, NULL), CL_SUCCESS,
               "clEnqueueNDRangeKernel");
  r.require_cl(clFinish(cq), CL_SUCCESS, "clFinish");
  clEnqueueReadBuffer(cq, mo, CL_TRUE, 0, got.size(), got.data(), 0, NULL, NULL);
  clReleaseMemObject(mi);
  clReleaseMemObject(mo);
  clReleaseKernel(k);
  clReleaseCommandQueue(cq);
  r.end();
  std::string e = captured_stderr();
  if (e.find("Unsupported unsigned int size") != std::string::npos ||
      e.find("Unsupported signed int size") != std::string::npos)
  {
    r.stat("refused_unsupported_ir"); // as above, with a diagnostic
    return;
  }
  if (!e.empty())
    r.fail("unexpected-message", "diagnostic on a correct program: %.600s", e.c_str());
  auto cmp = [&](size_t item, const std::string &nm, Ty t, size_t o, const V &v) {
    for (int j = 0; j < t.w; j++)
    {
      uint64_t x = 0;
      memcpy(&x, &got[o + j * KS[t.k]], KS[t.k]);
      if (x == v.u[j])
        continue;
      if (is_flt(t.k) && std::isnan(getf(t.k, x)) && std::isnan(getf(t.k, v.u[j])))
        continue;
      std::vector<uint8_t> w(256);
      put(w, 0, t, v);
      r.fail("result", "work-item %zu variable %s (%s) component %d: got %s, reference %s", item, nm.c_str(),
             tn(t).c_str(), j, show(t, &got[o]).c_str(), show(t, w.data()).c_str());
    }
  };
  for (size_t i = 0; i < items; i++)
    for (auto &d : P.dumps)
    {
      const Var &v = d.first;
      size_t o = i * P.rec + d.second;
      if (v.st)
      {
        for (auto &f : v.st->f)
          for (int z = 0; z < (f.n ? f.n : 1); z++)
            cmp(i, v.name + "." + f.name + "[" + std::to_string(z) + "]", f.t, o + f.off + z * ty_size(f.t),
                env[i].st[v.slot + f.slot + z]);
      }
      else
        for (int z = 0; z < (v.n ? v.n : 1); z++)
          cmp(i, v.name + (v.n ? "[" + std::to_string(z) + "]" : ""), v.t, o + z * ty_size(v.t),
              env[i].st[v.slot + z]);
    }
  for (size_t i = items * P.rec; i < got.size(); i++)
    if (got[i] != 0xEE)
      r.fail("memory", "byte %zu behind the results changed", i);
  r.stat("items", items);
  r.stat("statements", P.main->body.size());
  r.stat("barriers", nshare);
  r.stat("calls_defined", g.funcs.size());
}
static RegWorkload reg("lang", setup, run);

} // namespace
