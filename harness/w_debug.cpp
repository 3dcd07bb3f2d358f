// The interactive debugger (C24). Random programs with one statement per line, random
// commands on standard input, interrupts at random points. The observer plugin records
// which work-item executed which line; a model of the debugger's commands over that
// record, and an evaluator of the program, say what must be printed and computed.
#include "h.h"
#include <array>
#include <csignal>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>

namespace
{
enum Ty { T_INT, T_UINT, T_SHORT, T_CHAR, T_LONG, T_FLOAT, T_DOUBLE, T_INT2, T_INT4, NTY, T_ARR, T_STR, T_SP };
static const char *TN[] = {"int", "uint", "short", "char", "long", "float", "double", "int2", "int4"};
static int lanes(int t) { return t == T_INT2 ? 2 : t == T_INT4 || t == T_ARR ? 4 : t == T_STR || t == T_SP ? 3 : 1; }
static bool flt(int t) { return t == T_FLOAT || t == T_DOUBLE; }
typedef std::vector<int64_t> Val; // floats in halves

struct Ex
{
  int op = 0; // 0 constant, 1 variable element, else operator
  int64_t c = 0;
  std::string var;
  int ty = 0, el = 0;
  std::shared_ptr<Ex> a, b;
};
typedef std::shared_ptr<Ex> X;
static std::string elem(const std::string &v, int ty, int el)
{
  static const char *XY[] = {".x", ".y", ".z", ".w"};
  static const char *S[] = {".x", ".y", ".w"}, *P[] = {"->x", "->y", "->w"};
  if (ty == T_ARR)
    return v + "[" + std::to_string(el) + "]";
  if (ty == T_STR)
    return v + S[el];
  if (ty == T_SP)
    return v + P[el];
  return lanes(ty) > 1 ? v + XY[el] : v;
}
static std::string text(const X &x)
{
  if (x->op == 0)
    return std::to_string(x->c);
  if (x->op == 1)
    return "(int)" + elem(x->var, x->ty, x->el);
  return "(" + text(x->a) + " " + (char)x->op + " " + text(x->b) + ")";
}
enum Kind { S_DECL, S_SET, S_CALL, S_IF, S_FOR, S_OUT, S_BAD, S_RET, S_LOC, S_BAR, S_GETL };
struct St
{
  int kind, line = 0, end = 0;
  std::string var;
  int ty = 0, el = 0, f = 0, n = 0;
  std::vector<X> e;
  std::string sp; // structure of which the address is passed
  std::vector<St> body, other;
};
struct Fn
{
  std::string name;
  std::vector<std::pair<std::string, int>> params;
  std::vector<St> body;
  int line = 0; // of the name
};
struct Frame
{
  int fn;
  std::map<std::string, Val> env;
  std::map<std::string, int> ty;
  std::vector<std::string> args; // as printed
};
struct Visit
{
  int line, kind;
  size_t frame;
  std::map<std::string, Val> before, after;
  size_t callee = 0;
};
struct Item // evaluation of a work-item
{
  std::vector<Visit> v;
  std::vector<Frame> fr; // 0: kernel
};

enum { EV_STEP, EV_LOG, EV_WGDONE, EV_WGBAR, EV_KB, EV_KE };
struct Ev
{
  int kind;
  size_t id[3];
  int line, depth, state;
  std::string fn;
  unsigned sig; // interrupts that the debugger has got
};
static std::vector<Ev> *g_ev;
static volatile unsigned g_app; // interrupts that the application has got
static void on_int(int) { g_app++; }
static void observe(int kind, const size_t *id, uint64_t a, uint64_t b, uint64_t c, const char *t)
{
  dsim_noyield(1);
  Ev e;
  e.line = e.depth = e.state = 0;
  for (int i = 0; i < 3; i++)
    e.id[i] = id[i];
  e.sig = dsim_fault_count(DF_SIGNAL) - g_app;
  switch (kind)
  {
  case OB_STEP:
    e.kind = EV_STEP;
    e.line = b & 0xffffffff;
    e.depth = b >> 32;
    e.state = c;
    e.fn = t;
    break;
  case OB_LOG:
    if (a != 3) // not an error
      return dsim_noyield(-1);
    e.kind = EV_LOG;
    break;
  case OB_WG_COMPLETE: e.kind = EV_WGDONE; break;
  case OB_WG_BARRIER: e.kind = EV_WGBAR; break;
  case OB_KERNEL_BEGIN: e.kind = EV_KB; break;
  case OB_KERNEL_END: e.kind = EV_KE; break;
  default: dsim_noyield(-1); return;
  }
  g_ev->push_back(e);
  dsim_noyield(-1);
}

struct Launch
{
  int dims;
  size_t off[3], glb[3], loc[3];
  int arg;
};
typedef std::array<size_t, 3> Id;
#define CKD(x) r.require_cl((x), CL_SUCCESS, #x)

struct Sim
{
  Run &r;
  Rnd &q;
  std::vector<Fn> fns; // the last is the kernel
  std::vector<std::string> src;
  bool cl2 = false, reuse = false;
  int nvar = 0;
  std::vector<std::string> script;
  Launch L;
  std::vector<Launch> launches;
  static const int OW = 3; // words of out per work-item
  Sim(Run &r_) : r(r_), q(r_.rng) {}

  // ------------------------------------------------------------ programs
  struct Scope
  {
    std::vector<std::pair<std::string, int>> v; // initialised variables
    std::set<std::string> fixed;                // loop counters, parameters by pointer
  };
  X leaf(Scope &s)
  {
    X x(new Ex);
    if (s.v.empty() || q(4) == 0)
    {
      x->c = q(100);
      return x;
    }
    auto &v = s.v[q(s.v.size())];
    x->op = 1;
    x->var = v.first;
    x->ty = v.second;
    x->el = q(lanes(v.second));
    return x;
  }
  X expr(Scope &s, int d = 2)
  {
    if (!d || q(3) == 0)
      return leaf(s);
    X x(new Ex);
    x->op = "+-*^&|"[q(6)];
    x->a = expr(s, d - 1);
    x->b = expr(s, d - 1);
    return x;
  }
  bool in_kernel = false;
  std::string name() { return std::string(1, "vxa"[q(3)]) + std::to_string(nvar++); }
  static std::string conv(int ty, const X &x)
  {
    std::string s = text(x);
    if (flt(ty))
      return "(" + s + " & 1023) * 0.5" + (ty == T_FLOAT ? "f" : "");
    if (ty == T_CHAR)
      return "(char)(" + s + " & 127)";
    return "(" + s + " & 32767)";
  }
  std::string rhs(const St &s)
  {
    if (lanes(s.ty) == 1 || s.e.size() == 1)
      return conv(s.ty, s.e[0]);
    std::string t = s.ty == T_ARR || s.ty == T_STR ? "{" : std::string("(") + TN[s.ty] + ")(";
    for (size_t i = 0; i < s.e.size(); i++)
      t += (i ? ", " : "") + (s.ty == T_ARR ? std::to_string(s.e[i]->c) : conv(T_INT, s.e[i]));
    return t + (s.ty == T_ARR || s.ty == T_STR ? "}" : ")");
  }
  std::vector<St> block(Scope &s, int f, int n, int depth, bool kernel)
  {
    std::vector<St> b;
    size_t mark = s.v.size();
    for (int i = 0; i < n; i++)
    {
      St t;
      int k = q(12);
      bool keep = r.keep();
      if (k < 4 || s.v.empty())
      {
        t.kind = S_DECL;
        t.var = name();
        t.ty = q(12);
        if (t.ty >= NTY)
          t.ty = t.ty == 9 ? (int)T_ARR : t.ty == 10 ? (int)T_STR : (int)T_INT;
        for (int l = lanes(t.ty); l--;)
          if (t.ty == T_ARR)
          {
            X x(new Ex);
            x->c = 1 + q(100);
            t.e.push_back(x);
          }
          else
            t.e.push_back(expr(s, 1));
        s.v.push_back({t.var, t.ty});
      }
      else if (k < 6)
      {
        auto v = s.v[q(s.v.size())];
        if (s.fixed.count(v.first))
          continue;
        t.kind = S_SET;
        t.var = v.first;
        t.ty = v.second;
        t.el = q(lanes(t.ty));
        t.e.push_back(expr(s));
      }
      else if (k < 8 && f)
      {
        t.kind = S_CALL;
        t.f = q(f);
        t.var = name();
        t.ty = T_INT;
        for (auto &p : fns[t.f].params)
          if (p.second == T_SP)
          {
            for (auto &v : s.v)
              if (v.second == T_STR)
                t.sp = v.first;
          }
          else
            t.e.push_back(expr(s, 1));
        if (t.sp.empty() && t.e.size() < fns[t.f].params.size())
          continue;
        s.v.push_back({t.var, T_INT});
      }
      else if (k == 8 && depth)
      {
        t.kind = S_IF;
        t.e.push_back(expr(s));
        t.body = block(s, f, 1 + q(3), depth - 1, false);
        if (q(2))
          t.other = block(s, f, 1 + q(2), depth - 1, false);
        if (t.body.empty())
          continue;
      }
      else if (k == 9 && depth)
      {
        t.kind = S_FOR;
        t.var = name();
        t.n = q(4);
        Scope in = s;
        in.v.push_back({t.var, T_INT});
        in.fixed.insert(t.var);
        t.body = block(in, f, 1 + q(3), depth - 1, false);
        if (t.body.empty())
          continue;
      }
      else if (in_kernel)
      {
        t.kind = S_OUT;
        t.el = q(OW);
        t.e.push_back(expr(s));
        if (q(12) == 0)
          t.kind = S_BAD;
      }
      else
        continue;
      if (!keep)
      {
        if (t.kind == S_DECL || t.kind == S_CALL)
          s.v.pop_back();
        continue;
      }
      b.push_back(t);
    }
    if (!kernel)
      s.v.resize(mark);
    return b;
  }
  void emit(const std::string &s) { src.push_back(s); }
  int line() { return (int)src.size() + 1; }
  void write(std::vector<St> &b, const std::string &in)
  {
    for (auto &t : b)
    {
      if (q(6) == 0)
        emit(q(2) ? "" : in + "// nothing");
      t.line = line();
      switch (t.kind)
      {
      case S_DECL:
        if (t.ty == T_ARR)
          emit(in + "int " + t.var + "[4] = " + rhs(t) + ";");
        else if (t.ty == T_STR)
          emit(in + "struct S " + t.var + " = " + rhs(t) + ";");
        else
          emit(in + TN[t.ty] + " " + t.var + " = " + rhs(t) + ";");
        break;
      case S_SET: emit(in + elem(t.var, t.ty, t.el) + " = " + rhs(t) + ";"); break;
      case S_CALL:
      {
        std::string s = in + "int " + t.var + " = " + fns[t.f].name + "(";
        size_t k = 0;
        for (size_t p = 0; p < fns[t.f].params.size(); p++)
        {
          s += p ? ", " : "";
          s += fns[t.f].params[p].second == T_SP ? "&" + t.sp : conv(T_INT, t.e[k++]);
        }
        emit(s + ");");
        break;
      }
      case S_IF:
        emit(in + "if (" + text(t.e[0]) + " & 1)");
        emit(in + "{");
        write(t.body, in + "  ");
        emit(in + "}");
        if (!t.other.empty())
        {
          emit(in + "else");
          emit(in + "{");
          write(t.other, in + "  ");
          emit(in + "}");
        }
        break;
      case S_FOR:
        emit(in + "for (int " + t.var + " = 0; " + t.var + " < " + std::to_string(t.n) + "; " + t.var + "++)");
        emit(in + "{");
        write(t.body, in + "  ");
        emit(in + "}");
        break;
      case S_OUT: emit(in + "out[g * " + std::to_string(OW) + " + " + std::to_string(t.el) + "] = " + conv(T_INT, t.e[0]) + ";"); break;
      case S_BAD: emit(in + "out[g + 100000] = 1;"); break;
      case S_RET: emit(in + "return " + conv(T_INT, t.e[0]) + ";"); break;
      case S_LOC: emit(in + "loc[l] = " + conv(T_INT, t.e[0]) + ";"); break;
      case S_BAR: emit(in + "barrier(CLK_LOCAL_MEM_FENCE);"); break;
      case S_GETL: emit(in + "int " + t.var + " = loc[nl - 1 - l];"); break;
      }
    }
  }
  void program()
  {
    reuse = q(2);
    cl2 = q(2);
    int nf = q(4);
    bool loc = q(2);
    for (int f = 0; f <= nf; f++)
    {
      Fn F;
      bool kernel = in_kernel = f == nf;
      F.name = kernel ? "kern" : "fun" + std::to_string(f);
      if (reuse)
        nvar = 0;
      Scope s;
      if (!kernel)
      {
        int np = 1 + q(3);
        for (int p = 0; p < np; p++)
        {
          int ty = p == 0 && q(3) == 0 ? (int)T_SP : (int)T_INT;
          F.params.push_back({(ty == T_SP ? "sp" : "p") + std::to_string(p), ty});
          s.v.push_back(F.params.back());
          if (ty == T_SP)
            s.fixed.insert(F.params.back().first);
        }
      }
      else
        s.v.push_back({"n", T_INT}), s.v.push_back({"g", T_INT}), s.fixed.insert("g"), s.fixed.insert("n");
      fns.push_back(F);
      F.body = block(s, f, 1 + q(kernel ? 8 : 4), 2, true);
      if (!kernel)
      {
        St t;
        t.kind = S_RET;
        t.e.push_back(expr(s));
        F.body.push_back(t);
      }
      else if (loc)
      {
        St t;
        t.kind = S_LOC;
        t.e.push_back(expr(s));
        F.body.push_back(t);
        t.e.clear();
        t.kind = S_BAR;
        F.body.push_back(t);
        t.kind = S_GETL;
        t.var = name();
        t.ty = T_INT;
        s.v.push_back({t.var, T_INT});
        F.body.push_back(t);
        auto more = block(s, f, q(4), 1, true);
        F.body.insert(F.body.end(), more.begin(), more.end());
      }
      fns[f] = F;
    }
    emit("struct S { int x; int y; int w; };");
    for (size_t f = 0; f < fns.size(); f++)
    {
      Fn &F = fns[f];
      std::string h = f + 1 == fns.size() ? "kernel void kern(global int *out, int n, int nx, int ny" : "int " + F.name + "(";
      for (size_t p = 0; p < F.params.size(); p++)
        h += (p ? ", " : "") + (F.params[p].second == T_SP ? "private struct S *" + F.params[p].first : "int " + F.params[p].first);
      F.line = line();
      emit(h + ")");
      emit("{");
      if (f + 1 == fns.size())
      {
        if (loc)
        {
          emit("  local int loc[64];");
          emit("  int l = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));");
          emit("  int nl = get_local_size(0) * get_local_size(1) * get_local_size(2);");
        }
        emit("  int g = (get_global_id(0) - get_global_offset(0)) + nx * ((get_global_id(1) - get_global_offset(1)) + ny * (get_global_id(2) - "
             "get_global_offset(2)));");
      }
      write(F.body, "  ");
      emit("}");
      if (q(2))
        emit("");
    }
  }

  // ------------------------------------------------------------ evaluation
  int64_t ev(const X &x, std::map<std::string, Val> &env)
  {
    if (x->op == 0)
      return x->c;
    if (x->op == 1)
    {
      int64_t v = env.at(x->var)[x->el];
      return flt(x->ty) ? v / 2 : v;
    }
    int32_t a = ev(x->a, env), b = ev(x->b, env);
    switch (x->op)
    {
    case '+': return (int32_t)((uint32_t)a + (uint32_t)b);
    case '-': return (int32_t)((uint32_t)a - (uint32_t)b);
    case '*': return (int32_t)((uint32_t)a * (uint32_t)b);
    case '^': return a ^ b;
    case '&': return a & b;
    default: return a | b;
    }
  }
  int64_t cv(int ty, int64_t v) { return flt(ty) ? v & 1023 : ty == T_CHAR ? v & 127 : v & 32767; }
  bool bad = false;
  size_t steps = 0;
  void leave(Item &it, size_t fr, const std::vector<St> &b)
  {
    for (auto &x : b)
      if (x.kind == S_DECL || x.kind == S_CALL)
        it.fr[fr].env.erase(x.var);
  }
  void stmt(Item &it, size_t fr, const St &t)
  {
    steps++;
    if (t.kind == S_IF)
    {
      auto &b = ev(t.e[0], it.fr[fr].env) & 1 ? t.body : t.other;
      for (auto &x : b)
        stmt(it, fr, x);
      leave(it, fr, b);
      return;
    }
    if (t.kind == S_FOR)
    {
      for (int i = 0; i < t.n; i++)
      {
        it.fr[fr].env[t.var] = {i};
        loops.insert({fns[it.fr[fr].fn].name, t.var});
        it.fr[fr].ty[t.var] = T_INT;
        for (auto &x : t.body)
          stmt(it, fr, x);
        leave(it, fr, t.body);
      }
      it.fr[fr].env.erase(t.var);
      return;
    }
    size_t v = it.v.size();
    it.v.push_back({t.line, t.kind, fr, it.fr[fr].env, {}, 0});
    auto &env = it.fr[fr].env;
    switch (t.kind)
    {
    case S_DECL:
    {
      Val n;
      for (auto &e : t.e)
        n.push_back(t.ty == T_ARR ? e->c : cv(lanes(t.ty) > 1 ? (int)T_INT : t.ty, ev(e, env)));
      env[t.var] = n;
      it.fr[fr].ty[t.var] = t.ty;
      break;
    }
    case S_SET: env.at(t.var)[t.el] = cv(t.ty, ev(t.e[0], env)); break;
    case S_OUT: env.at("out")[t.el] = cv(T_INT, ev(t.e[0], env)); break;
    case S_BAD: bad = true; break;
    case S_RET: env["return"] = {cv(T_INT, ev(t.e[0], env))}; break;
    case S_LOC: env["loc"] = {cv(T_INT, ev(t.e[0], env))}; break;
    case S_CALL:
    {
      Frame F;
      F.fn = t.f;
      size_t k = 0;
      for (auto &p : fns[t.f].params)
      {
        F.ty[p.first] = p.second;
        if (p.second == T_SP)
        {
          F.env[p.first] = env.at(t.sp);
          F.args.push_back(p.first + "=0x");
        }
        else
        {
          F.env[p.first] = {cv(T_INT, ev(t.e[k++], env))};
          F.args.push_back(p.first + "=" + std::to_string(F.env[p.first][0]));
        }
      }
      size_t c = it.v[v].callee = it.fr.size();
      it.fr.push_back(F);
      for (auto &x : fns[t.f].body)
        stmt(it, c, x);
      it.fr[fr].env[t.var] = it.fr[c].env["return"];
      it.fr[fr].ty[t.var] = T_INT;
      break;
    }
    }
    it.v[v].after = it.fr[fr].env;
  }
  Id gid(size_t g) const { return {g % L.glb[0] + L.off[0], g / L.glb[0] % L.glb[1] + L.off[1], g / L.glb[0] / L.glb[1] + L.off[2]}; }
  Id grp(const Id &g) const { return {(g[0] - L.off[0]) / L.loc[0], (g[1] - L.off[1]) / L.loc[1], (g[2] - L.off[2]) / L.loc[2]}; }
  std::vector<Item> evaluate(std::vector<int32_t> &out)
  {
    size_t n = L.glb[0] * L.glb[1] * L.glb[2];
    std::vector<Item> items(n);
    Fn &K = fns.back();
    for (size_t g = 0; g < n; g++)
    {
      Frame F;
      F.fn = fns.size() - 1;
      F.env["g"] = {(int64_t)g};
      F.env["n"] = {L.arg};
      F.env["nx"] = {(int64_t)L.glb[0]};
      F.env["ny"] = {(int64_t)L.glb[1]};
      for (auto &x : F.env)
        F.ty[x.first] = T_INT;
      F.args = {"out=0x", "n=" + std::to_string(L.arg), "nx=" + std::to_string(L.glb[0]), "ny=" + std::to_string(L.glb[1])};
      Val o;
      for (int i = 0; i < OW; i++)
        o.push_back(out[g * OW + i]);
      F.env["out"] = o;
      items[g].fr.push_back(F);
    }
    std::map<Id, std::vector<size_t>> groups; // in the order of the local IDs
    for (size_t g = 0; g < n; g++)
      groups[grp(gid(g))].push_back(g);
    for (auto &G : groups)
      for (size_t s = 0; s < K.body.size(); s++)
        for (size_t l = 0; l < G.second.size(); l++)
        {
          Item &it = items[G.second[l]];
          if (K.body[s].kind == S_GETL)
          {
            size_t v = it.v.size();
            it.v.push_back({K.body[s].line, S_GETL, 0, it.fr[0].env, {}, 0});
            it.fr[0].env[K.body[s].var] = items[G.second[G.second.size() - 1 - l]].fr[0].env.at("loc");
            it.fr[0].ty[K.body[s].var] = T_INT;
            it.v[v].after = it.fr[0].env;
          }
          else
            stmt(it, 0, K.body[s]);
        }
    for (size_t g = 0; g < n; g++)
      for (int i = 0; i < OW; i++)
        out[g * OW + i] = items[g].fr[0].env["out"][i];
    return items;
  }

  // ------------------------------------------------------------ commands
  std::vector<std::string> vars;
  void collect(std::vector<St> &b)
  {
    for (auto &t : b)
    {
      if (t.kind == S_DECL || t.kind == S_CALL || t.kind == S_GETL || t.kind == S_FOR)
      {
        vars.push_back(t.var);
        if (t.kind == S_DECL && t.ty == T_STR)
          for (int i = 0; i < 3; i++)
            vars.push_back(elem(t.var, T_STR, i));
      }
      collect(t.body);
      collect(t.other);
    }
  }
  std::string pick(const char *a, const char *b) { return q(2) ? a : b; }
  std::string command()
  {
    std::string n = std::to_string(src.size());
    switch (q(22))
    {
    case 0: case 1: case 2: case 3: return pick("step", "s");
    case 4: case 5: return pick("next", "n");
    case 6: case 7: return pick("continue", "c");
    case 8: return pick("break", "b");
    case 9: case 10: return pick("break ", "b ") + std::to_string(1 + q(src.size()));
    case 11:
    {
      static const char *B[] = {"0", "x", "3x", "100000", "-1", "1.5"};
      return pick("break ", "b ") + B[q(6)];
    }
    case 12: return pick("delete ", "d ") + (q(6) ? std::to_string(1 + q(4)) : q(2) ? "x" : "99");
    case 13: return q(3) ? pick("info break", "i break") : pick("delete", "d") + "\n" + (q(3) ? "n" : "y");
    case 14: return pick("info", "i") + (q(6) ? "" : " nonsense");
    case 15: return pick("list", "l") + (q(2) ? "" : q(2) ? " -" : q(5) ? " " + std::to_string(q(src.size() + 6)) : " x");
    case 16: return pick("backtrace", "bt");
    case 17: case 18:
    {
      std::string s = pick("print", "p");
      for (int k = q(8) ? 1 + q(3) : 0; k--;)
      {
        int w = q(12);
        if (w == 0)
          s += " nowhere";
        else if (w == 1)
          s += q(2) ? " g" : " n";
        else if (w == 2)
          s += " p0";
        else if (w == 3)
          s += std::string(" sp0->") + (q(2) ? "x" : "w");
        else if (w == 4)
        {
          size_t n = 0, x = q(launches[0].glb[0] * launches[0].glb[1] * launches[0].glb[2] * OW);
          if (q(5) == 0) // beyond the end
          {
            for (auto &l : launches)
              n = std::max(n, l.glb[0] * l.glb[1] * l.glb[2] * OW);
            x = n + (q(2) ? 0 : q(2000));
          }
          s += " out[" + std::to_string(x) + "]";
        }
        else if (!vars.empty())
          s += " " + vars[q(vars.size())];
      }
      return s;
    }
    case 19:
    {
      std::string s = pick("workitem", "wi");
      for (int i = 0; i < (q(20) ? launches[0].dims : 4); i++)
        if (q(30))
          s += " " + (q(15) ? std::to_string(i < 3 ? launches[0].off[i] + q(launches[0].glb[i]) : 0) : q(2) ? "99" : "y");
      return s;
    }
    case 20:
      switch (q(6))
      {
      case 0: return pick("lmem", "lm");
      case 1: return pick("pmem", "pm");
      case 2: return pick("gmem", "gm");
      case 3: return "gmem @" + std::to_string(q(8)) + " " + std::to_string(1 + q(20));
      case 4: return "gmem @" + std::to_string(q(8));
      default:
      {
        static const char *B[] = {"gmem zz", "gmem 3", "gmem 0", "lmem 0 4", "gmem @0 0", "gmem @0 x", "gmem 1 2 3", "gmem @0 18446744073709551612",
                                  "gmem @0 1000000", "pmem fffffffffffffff0 16", "gmem -4"};
        return B[q(11)];
      }
      }
    default:
      switch (q(8))
      {
      case 0: return "";
      case 1: return "   ";
      case 2: return "nonsense x";
      case 3: return "help";
      case 4: return "help " + std::string(q(2) ? "step" : "wi");
      case 5: return q(10) ? "s" : "quit";
      case 6: return " step ";
      default: return "help nonsense";
      }
    }
  }

  // ------------------------------------------------------------ model of the debugger
  struct Track // of a work-item
  {
    std::vector<size_t> cur; // visit per depth
    size_t nv = 0;           // next visit
    int line = 0, depth = 0, state = 0;
    std::string fn;
    bool any = false;
  };
  enum : size_t { NONE = (size_t)-1 };
  std::pair<size_t, size_t> stops;
  const std::vector<Ev> *E;
  const std::vector<std::vector<Item>> *A;
  std::string in, text_;
  std::vector<std::vector<size_t>> evof; // events per item of the launch
  size_t base = 0, words_ = 0;

  struct Play
  {
    size_t pos = 0, ip = 0; // in the output and in the input
    bool ok = true, eof = false;
    std::string why;
  } P;
  std::vector<Track> T;
  const std::vector<Item> *I;

  bool bad_out(const std::string &want)
  {
    if (P.ok)
    {
      size_t e = text_.find('\n', P.pos);
      std::string got = P.pos >= text_.size() ? "nothing" : "'" + text_.substr(P.pos, e == std::string::npos ? e : e - P.pos) + "'";
      P.why = "expected " + want + " but got " + got;
      P.ok = false;
    }
    return false;
  }
  bool lit(const std::string &s)
  {
    if (!P.ok)
      return false;
    if (text_.compare(P.pos, s.size(), s))
      return bad_out("'" + (s.size() && s.back() == '\n' ? s.substr(0, s.size() - 1) : s) + "'");
    P.pos += s.size();
    return true;
  }
  bool line_(const std::string &s) { return lit(s + "\n"); }
  bool starts(const char *s) const { return P.ok && !text_.compare(P.pos, strlen(s), s); }
  std::string any_line()
  {
    size_t e = text_.find('\n', P.pos);
    if (!P.ok || e == std::string::npos)
    {
      bad_out("a line");
      return "";
    }
    std::string s = text_.substr(P.pos, e - P.pos);
    P.pos = e + 1;
    return s;
  }
  void hex_()
  {
    while (P.pos < text_.size() && isxdigit(text_[P.pos]))
      P.pos++;
  }
  std::string id3(const size_t *x) const { return "(" + std::to_string(x[0]) + "," + std::to_string(x[1]) + "," + std::to_string(x[2]) + ")"; }
  size_t lin(const size_t *x) const { return (x[0] - L.off[0]) + L.glb[0] * ((x[1] - L.off[1]) + L.glb[1] * (x[2] - L.off[2])); }

  void advance(Track &t, const Item &it, const Ev &e)
  {
    t.any = true;
    t.state = e.state;
    if (e.state == 2)
    {
      if (t.nv != it.v.size() && P.ok)
        P.ok = false, P.why = "a work-item has finished after " + std::to_string(t.nv) + " of " + std::to_string(it.v.size()) + " statements";
      return;
    }
    bool ret = e.depth < t.depth;
    t.cur.resize(e.depth + 1, NONE);
    t.fn = e.fn;
    size_t &c = t.cur[e.depth];
    if (ret && c != NONE && it.v[c].callee) // the return of a constant has no line of its own
      while (t.nv < it.v.size() && it.v[t.nv].frame >= it.v[c].callee)
        t.nv++;
    if (!ret && e.line && t.nv < it.v.size() && it.v[t.nv].line == e.line && fns[it.fr[it.v[t.nv].frame].fn].name == e.fn &&
        !(c != NONE && it.v[c].line == e.line && t.line == e.line && t.depth == e.depth))
      c = t.nv++;
    t.depth = e.depth;
    if (e.line)
      t.line = e.line;
  }
  struct Now
  {
    size_t g, id[3];
    int line, state;
    bool at; // at its last event
    bool same;
  };
  size_t frame_of(const Track &t, const Item &it, int d) const
  {
    if (d < (int)t.cur.size() && t.cur[d] != NONE)
      return it.v[t.cur[d]].frame;
    if (d == 0)
      return 0;
    if (t.cur.size() >= (size_t)d && t.cur[d - 1] != NONE && it.v[t.cur[d - 1]].callee)
      return it.v[t.cur[d - 1]].callee;
    return NONE;
  }
  void function_line(const Now &n, size_t fr, int line)
  {
    const Item &it = (*I)[n.g];
    if (fr == NONE)
    {
      any_line();
      return;
    }
    lit(fns[it.fr[fr].fn].name + "(");
    for (size_t i = 0; i < it.fr[fr].args.size(); i++)
    {
      if (i)
        lit(", ");
      lit(it.fr[fr].args[i]);
      if (it.fr[fr].args[i].substr(it.fr[fr].args[i].size() - 3) == "=0x")
        hex_();
    }
    line_(") at line " + std::to_string(line));
  }
  void source(int l)
  {
    if (l)
      line_(std::to_string(l) + "\t" + src[l - 1]);
    else
    {
      line_("Source line not available.");
      any_line();
    }
  }
  static std::string fmt(int ty, const Val &v)
  {
    char b[64];
    std::string s = ty == T_STR ? "(raw) 0x" : lanes(ty) > 1 ? ty == T_ARR ? "{" : "(" : "";
    for (size_t i = 0; i < v.size(); i++)
    {
      if (ty == T_STR)
      {
        for (int k = 0; k < 4; k++)
        {
          snprintf(b, sizeof b, "%02X", (unsigned)(v[i] >> 8 * k) & 255);
          s += b;
        }
        continue;
      }
      s += i ? "," : "";
      if (flt(ty))
        snprintf(b, sizeof b, "%g", v[i] * 0.5);
      else
        snprintf(b, sizeof b, "%lld", (long long)v[i]);
      s += b;
    }
    return s + (ty == T_STR ? "" : lanes(ty) > 1 ? ty == T_ARR ? "}" : ")" : "");
  }
  // the values that a variable may have now; none: unknown
  std::vector<Val> values(size_t g, const std::string &name, int *ty, int depth, bool any_fn)
  {
    std::vector<Val> r;
    const Track &t = T[g];
    const Item &it = (*I)[g];
    if (depth < 0)
      depth = t.depth;
    if (depth >= (int)t.cur.size() || t.cur[depth] == NONE)
      return r;
    const Visit &v = it.v[t.cur[depth]];
    if (!any_fn && fns[it.fr[v.frame].fn].name != t.fn)
      return r;
    auto ti = it.fr[v.frame].ty.find(name);
    *ty = ti == it.fr[v.frame].ty.end() ? (int)T_INT : ti->second;
    auto a = v.after.find(name), b = v.before.find(name);
    if (a == v.after.end())
      return r;
    if (depth < t.depth || t.line == v.line)
    {
      if (b == v.before.end())
        return r;
      r.push_back(b->second);
    }
    else if (loops.count({fns[it.fr[v.frame].fn].name, name}))
      return r;
    r.push_back(a->second);
    return r;
  }
  std::set<std::pair<std::string, std::string>> loops; // counters
  std::vector<int64_t> cell(size_t w)                  // values that a word of out may have
  {
    size_t g = w / OW;
    std::vector<int64_t> r;
    if (g >= I->size())
      return r;
    const Item &it = (*I)[g];
    if (T[g].state == 2 && T[g].any)
      r.push_back(it.fr[0].env.at("out")[w % OW]);
    else if (T[g].cur.empty() || T[g].cur[0] == NONE)
      r.push_back(it.v.empty() ? it.fr[0].env.at("out")[w % OW] : it.v[0].before.at("out")[w % OW]);
    else
    {
      const Visit &v = it.v[T[g].cur[0]];
      r.push_back(v.before.at("out")[w % OW]);
      r.push_back(v.after.at("out")[w % OW]);
    }
    return r;
  }
  void memory_row(uint64_t from, uint64_t to, bool global, std::set<uint64_t> *rows)
  {
    // one row: address and up to four bytes
    std::string s = any_line();
    if (!P.ok)
      return;
    char *e;
    uint64_t a = strtoull(s.c_str(), &e, 16);
    size_t col = e - s.c_str();
    if (col < 16 || *e != ':' || (from && a != from))
    {
      P.pos -= s.size() + 1;
      bad_out("a row of the memory at " + std::to_string(from));
      return;
    }
    uint8_t b[4];
    int n = 0;
    for (const char *p = e + 1; *p && n < 4; p += 3, n++)
    {
      if (*p != ' ' || !isxdigit(p[1]) || !isxdigit(p[2]))
        break;
      b[n] = strtoul(p + 1, NULL, 16);
    }
    if ((int)s.size() != (int)col + 1 + 3 * n || (to && n != (int)std::min<uint64_t>(4, to - a)))
    {
      P.pos -= s.size() + 1;
      bad_out("a row of bytes");
      return;
    }
    if (rows)
      rows->insert(a);
    if (global && a >= base && a < base + words_ * 4)
    {
      auto c = cell((a - base) / 4);
      bool ok = c.empty();
      for (int64_t x : c)
      {
        uint32_t u = x;
        ok |= !memcmp(b, &u, n);
      }
      if (!ok)
      {
        P.pos -= s.size() + 1;
        bad_out("word " + std::to_string((a - base) / 4) + " of out to be " + std::to_string(c.back()));
      }
    }
  }
  bool row_next() const
  {
    size_t p = P.pos;
    while (p < text_.size() && text_[p] == ' ')
      p++;
    size_t q0 = p;
    while (p < text_.size() && isxdigit(text_[p]))
      p++;
    return p > q0 && p < text_.size() && text_[p] == ':';
  }
  bool get_line(std::string &s)
  {
    s.clear();
    if (P.eof || P.ip >= in.size())
      return false;
    size_t e = in.find('\n', P.ip);
    s = in.substr(P.ip, e - P.ip);
    P.ip = e + 1;
    return true;
  }
  void arguments(const std::vector<std::string> &t)
  {
    for (size_t i = 1; i < t.size() && P.ok; i++)
    {
      const std::string &x = t[i];
      lit(x + " = ");
      if (x == "nowhere")
      {
        line_("not found");
        continue;
      }
      std::vector<Val> v;
      int ty = T_INT;
      size_t k = x.find_first_of(".-[");
      std::string b = x.substr(0, k), el = k == std::string::npos ? "" : x.substr(k);
      std::vector<std::string> ok;
      if (now.same)
      {
        if (b == "out")
        {
          int dummy;
          if (!values(now.g, "out", &dummy, -1, false).empty())
          {
            size_t w = atoi(el.c_str() + 1);
            if (w >= words_)
              ok.push_back("invalid memory address");
            else
              for (int64_t c : cell(w))
                ok.push_back(std::to_string(c));
          }
        }
        else
          for (auto &w : values(now.g, b, &ty, -1, false))
            if (ty == T_SP) // not supported
              continue;
            else if (ty == T_STR && !el.empty())
              ok.push_back(std::to_string(w[el.back() == 'x' ? 0 : el.back() == 'y' ? 1 : 2]));
            else if (el.empty())
              ok.push_back(fmt(ty, w));
      }
      if (ok.empty())
      {
        any_line();
        continue;
      }
      size_t at = P.pos;
      std::string got = any_line();
      bool found = false;
      for (auto &o : ok)
        found |= o == got;
      if (!found)
      {
        P.pos = at;
        bad_out(x + " to be '" + ok.back() + "'");
      }
    }
  }
  Now now;
  size_t next_event(size_t g, size_t i) const
  {
    auto p = std::upper_bound(evof[g].begin(), evof[g].end(), i);
    return p == evof[g].end() ? NONE : *p;
  }

  // true: as documented, given at which event each interrupt has been noticed
  void replay(const std::vector<int> &late)
  {
    const std::vector<Ev> &ev = *E;
    P = Play();
    stops = {0, 0};
    bool running = true, force = false, cont = false, next = false;
    size_t last_break = 0, list_pos = 0, prev_depth = 0, prev_line = 0;
    std::map<size_t, size_t> bps;
    bool entry = false; // the table of breakpoints is not empty
    size_t next_bp = 1;
    int launch = -1;
    size_t resumed = NONE; // the work-item that has to go on
    std::set<Id> done;
    unsigned seen = 0, nsig = 0;
    bool sig = false, sig_next = false;
    int nl = src.size();
    int kend = 0;
    for (int i = 0; i < nl; i++)
      if (src[i] == "}")
        kend = i + 1;
    for (size_t i = 0; i < ev.size() && P.ok; i++)
    {
      const Ev &e = ev[i];
      if (e.kind == EV_KB)
      {
        launch++;
        L = launches[launch];
        I = &(*A)[launch];
        T.assign(I->size(), Track());
        evof.assign(I->size(), {});
        for (size_t j = i + 1; j < ev.size() && ev[j].kind != EV_KB; j++)
          if (ev[j].kind == EV_STEP)
            evof[lin(ev[j].id)].push_back(j);
        done.clear();
        cont = next = false;
        last_break = list_pos = prev_depth = prev_line = 0;
        resumed = NONE;
      }
      if (e.kind == EV_LOG)
        force = true;
      if (e.kind == EV_WGDONE)
        done.insert({e.id[0], e.id[1], e.id[2]});
      if (e.kind == EV_WGBAR)
        for (size_t g = 0; g < T.size(); g++)
          if (T[g].state == 1 && grp(gid(g)) == Id{e.id[0], e.id[1], e.id[2]})
            T[g].state = 0;
      if (e.kind != EV_STEP)
        continue;
      // interrupts
      sig |= sig_next;
      sig_next = false;
      bool sig_now = false;
      for (; seen < e.sig; seen++, nsig++)
        (late[nsig] == 0 ? sig : late[nsig] == 1 ? sig_next : sig_now) = true;
      size_t g = lin(e.id);
      if (resumed != NONE && resumed != g)
      {
        P.ok = false;
        size_t w[3] = {gid(resumed)[0], gid(resumed)[1], gid(resumed)[2]};
        P.why = "work-item " + id3(e.id) + " runs instead of " + id3(w);
        return;
      }
      resumed = NONE;
      advance(T[g], (*I)[g], e);
      if (!running || !P.ok)
        continue;
      now.g = g;
      memcpy(now.id, e.id, sizeof now.id);
      now.line = e.state == 2 ? 0 : e.line;
      now.state = e.state;
      now.at = now.same = true;
      int depth = e.depth;
      // is there a prompt?
      bool stop = force || sig;
      if (!stop && entry)
      {
        bool check = true;
        if (last_break)
        {
          if ((size_t)now.line != last_break)
            last_break = 0;
          else
            check = false;
        }
        if (check)
          for (auto &b : bps)
            if (b.second == (size_t)now.line)
            {
              line_("Breakpoint " + std::to_string(b.first) + " hit at line " + std::to_string(b.second) + " by work-item " + id3(e.id));
              last_break = now.line;
              stop = true;
              break;
            }
      }
      if (!stop && !cont)
        stop = e.state || (!(next && (size_t)depth > prev_depth) && now.line && (size_t)now.line != prev_line);
      if (!stop)
      {
        sig_next |= sig_now; // not seen by this check
        continue;
      }
      stops.first++;
      force = sig = false;
      if (prev_depth != (size_t)depth && e.state != 2)
      {
        lit("In function ");
        function_line(now, frame_of(T[g], (*I)[g], depth), e.line);
      }
      if (e.state != 2)
        source(now.line);
      list_pos = 0;
      cont = next = false;
      for (bool prompt = true; prompt && P.ok;)
      {
        std::string s;
        if (!get_line(s))
        {
          running = false;
          break;
        }
        std::vector<std::string> t;
        std::istringstream is(s);
        for (std::string w; is >> w;)
          t.push_back(w);
        if (t.empty())
          continue;
        stops.second++;
        const std::string &c = t[0];
        const Item &it = (*I)[now.g];
        Track &tr = T[now.g];
        if (c == "s" || c == "step" || c == "n" || c == "next")
        {
          if (now.state)
          {
            line_(now.state == 2 ? "Work-item has finished." : "Work-item is at barrier.");
            continue;
          }
          if (!now.at && next_event(now.g, i) == NONE)
          {
            P.ok = false;
            P.why = "the work-item does not go on";
            return;
          }
          prev_depth = depth;
          prev_line = now.line;
          next = c[0] == 'n';
          resumed = now.g;
          prompt = false;
        }
        else if (c == "c" || c == "continue")
        {
          cont = true;
          prompt = false;
        }
        else if (c == "q" || c == "quit")
          running = prompt = false;
        else if (c == "b" || c == "break")
        {
          size_t n = now.line;
          if (t.size() > 1)
          {
            char *x;
            n = strtoul(t[1].c_str(), &x, 10);
            if (*x || !n || n > (size_t)nl + 1)
            {
              line_("Invalid line number.");
              continue;
            }
          }
          if (n)
            bps[next_bp++] = n, entry = true;
          else
            line_("Not currently on a line.");
        }
        else if ((c == "d" || c == "delete") && t.size() > 1)
        {
          char *x;
          size_t n = strtoul(t[1].c_str(), &x, 10);
          if (*x)
            line_("Invalid breakpoint number.");
          else
          {
            entry = true;
            if (!bps.erase(n))
              line_("Breakpoint not found.");
          }
        }
        else if (c == "d" || c == "delete")
        {
          lit("Delete all breakpoints? (y/n) ");
          while (P.ip < in.size() && isspace(in[P.ip]))
            P.ip++;
          std::string w;
          while (P.ip < in.size() && !isspace(in[P.ip]))
            w += in[P.ip++];
          if (P.ip++ >= in.size())
            P.eof = true;
          if (w == "y")
            bps.clear(), entry = false;
        }
        else if ((c == "i" || c == "info") && t.size() > 1)
        {
          if (t[1] == "break")
          {
            entry = true;
            for (auto &b : bps)
              line_("Breakpoint " + std::to_string(b.first) + ": Line " + std::to_string(b.second));
          }
          else
            line_("Invalid info command: " + t[1]);
        }
        else if (c == "i" || c == "info")
        {
          line_("Running kernel 'kern'");
          line_("-> Global work size:   " + id3(L.glb));
          line_("-> Global work offset: " + id3(L.off));
          line_("-> Local work size:    " + id3(L.loc));
          line_("");
          line_("Current work-item: " + id3(now.id));
          if (now.state == 2)
            line_("Work-item has finished.");
          else
          {
            lit("In function ");
            function_line(now, now.same ? frame_of(tr, it, depth) : NONE, now.line);
            source(now.line);
          }
        }
        else if (c == "l" || c == "list")
        {
          size_t start = 0;
          bool fwd = true;
          if (t.size() > 1 && t[1] == "-")
            fwd = false;
          else if (t.size() > 1)
          {
            char *x;
            start = strtoul(t[1].c_str(), &x, 10);
            if (*x)
            {
              line_("Invalid line number.");
              continue;
            }
            start = start > 5 ? start - 5 : 1;
          }
          if (!start && fwd)
          {
            start = list_pos ? list_pos + 10 : now.line + 1;
            if (start > (size_t)nl)
            {
              list_pos = nl + 1;
              continue;
            }
          }
          else if (!start)
          {
            start = list_pos ? list_pos : now.line;
            start = start > 10 ? start - 10 : 1;
          }
          for (size_t k = start; k < start + 10 && k <= (size_t)nl; k++)
            source(k);
          list_pos = start;
        }
        else if (c == "bt" || c == "backtrace")
        {
          if (now.state == 2)
            continue;
          if (!now.same)
          {
            bool first = true;
            for (int k = 0; first || (k >= 0 && starts("#")); first = false)
            {
              lit("#");
              k = atoi(text_.c_str() + P.pos);
              any_line();
              if (!k || !P.ok)
                break;
            }
            continue;
          }
          for (int d = depth; d >= 0; d--)
          {
            lit("#" + std::to_string(d) + " ");
            size_t v = d < (int)tr.cur.size() ? tr.cur[d] : NONE;
            if (d < depth && v == NONE)
              any_line();
            else
              function_line(now, frame_of(tr, it, d), d == depth ? now.line : it.v[v].line);
          }
        }
        else if (c == "p" || c == "print")
        {
          if (t.size() == 1)
            line_("Variable name(s) required.");
          else
            arguments(t);
        }
        else if (c == "wi" || c == "workitem")
        {
          size_t id[3] = {L.off[0], L.off[1], L.off[2]};
          bool valid = t.size() <= 4;
          for (size_t k = 1; k < t.size() && valid; k++)
          {
            char *x;
            id[k - 1] = strtoul(t[k].c_str(), &x, 10);
            valid = !*x && id[k - 1] >= L.off[k - 1] && id[k - 1] < L.off[k - 1] + L.glb[k - 1];
          }
          if (!valid)
          {
            line_("Invalid global ID.");
            continue;
          }
          size_t n = lin(id);
          if (done.count(grp(gid(n))))
          {
            line_("Work-item has already finished, unable to load state.");
            continue;
          }
          line_("Switched to work-item: " + id3(id));
          Track &o = T[n];
          size_t x = next_event(n, i);
          now.g = n;
          memcpy(now.id, id, sizeof id);
          now.state = o.state;
          now.at = n == g;
          now.same = true;
          if (o.state == 2)
          {
            now.line = 0;
            line_("Work-item has finished execution.");
            continue;
          }
          if (n == g)
          {
            now.line = e.line;
            depth = e.depth;
          }
          else if (x == NONE)
          {
            P.ok = false;
            P.why = "the work-item does not go on";
            return;
          }
          else
          {
            now.line = ev[x].state == 2 ? kend : ev[x].depth < o.depth ? o.line : ev[x].line;
            now.same = o.any && ev[x].state != 2 && ev[x].depth == o.depth;
            depth = ev[x].state == 2 ? 0 : ev[x].depth < o.depth ? o.depth : ev[x].depth;
          }
          source(now.line);
        }
        else if (c == "gm" || c == "gmem" || c == "lm" || c == "lmem" || c == "pm" || c == "pmem")
        {
          if (t.size() == 1)
          {
            std::set<uint64_t> rows;
            line_("");
            while (P.ok && row_next())
              memory_row(0, 0, c[0] == 'g', &rows);
            if (c[0] == 'g')
              for (size_t w = 0; w < words_ && P.ok; w++)
                if (!rows.count(base + w * 4))
                  bad_out("word " + std::to_string(w) + " of out");
            continue;
          }
          char *x;
          uint64_t a = strtoull(t[1].c_str(), &x, 16), n = 8;
          bool valid = !*x && t.size() <= 3 && t[1][0] != '-';
          if (t.size() == 3)
          {
            n = strtoull(t[2].c_str(), &x, 10);
            valid &= !*x;
          }
          valid &= a % 4 == 0 && n && c[0] == 'g' && a >= base && a <= base + words_ * 4 && n <= base + words_ * 4 - a;
          if (!valid)
          {
            lit("Invalid ");
            any_line();
            continue;
          }
          line_("");
          for (uint64_t k = 0; k < n; k += 4)
            memory_row(a + k, a + n, true, NULL);
          line_("");
        }
        else if (c == "h" || c == "help")
        {
          if (t.size() == 1)
            while (P.ok && any_line() != "(type 'help command' for more information)")
              ;
          else if (t[1] == "nonsense")
            line_("Unrecognized command 'nonsense'");
          else
            for (int k = t[1] == "wi" ? 2 : 1; k--;)
              any_line();
        }
        else
          line_("Unrecognized command '" + c + "'");
      }
    }
    if (P.ok && P.pos != text_.size())
      bad_out("no more output");
  }
  void show(const std::string &text)
  {
    r.d("output:");
    std::istringstream is(text);
    for (std::string l; std::getline(is, l);)
      r.d("| %s", l.c_str());
    is.clear();
    is.str(captured_stderr());
    for (std::string l; std::getline(is, l);)
      r.d("! %s", l.c_str());
  }
  void check(const std::string &text, const std::string &input, const std::vector<Ev> &evs, const std::vector<std::vector<Item>> &items, size_t addr)
  {
    E = &evs;
    A = &items;
    in = input;
    text_ = text;
    base = addr;
    unsigned sigs = evs.empty() ? 0 : evs.back().sig;
    size_t best = 0;
    std::string why;
    unsigned combos = 1;
    for (unsigned k = 0; k < sigs; k++)
      combos *= 3;
    for (unsigned m = 0; m < combos; m++)
    {
      // before the check for a prompt, after the prompt, or between the two
      std::vector<int> late;
      for (unsigned k = 0, x = m; k < sigs; k++, x /= 3)
        late.push_back(x % 3);
      replay(late);
      if (P.ok)
      {
        r.stat("interrupts", sigs);
        return;
      }
      if (P.pos >= best)
        best = P.pos, why = P.why;
    }
    show(text);
    r.fail("debug-output", "%s (at output offset %zu)", why.c_str(), best);
  }

  void go()
  {
    program();
    for (auto &f : fns)
      collect(f.body);
    int nl = 1 + q(2);
    int dims = 1 + q(3);
    for (int k = 0; k < nl; k++)
    {
      Launch l;
      l.dims = dims;
      l.arg = q(1000);
      for (int d = 0; d < 3; d++)
      {
        l.off[d] = 0;
        l.glb[d] = l.loc[d] = 1;
        if (d < dims)
        {
          l.loc[d] = 1 + q(3);
          l.glb[d] = l.loc[d] * (1 + q(dims == 1 ? 3 : 2));
          if (cl2 && q(3) == 0 && l.glb[d] > 1)
            l.glb[d] -= q(l.loc[d]);
          if (l.loc[d] > l.glb[d])
            l.loc[d] = l.glb[d];
          if (q(4) == 0)
            l.off[d] = q(10);
        }
      }
      launches.push_back(l);
    }
    int nc = q(60);
    for (int i = 0; i < nc; i++)
    {
      std::string c = command();
      if (r.keep())
        script.push_back(c);
    }
    bool cut = q(4) == 0; // input ends here; else the debugger runs on
    if (!cut)
      script.push_back("delete\ny\nc");
    for (size_t i = 0; i < src.size(); i++)
      r.d("%3zu %s", i + 1, src[i].c_str());
    for (auto &l : launches)
      r.d("launch: %zu,%zu,%zu groups of %zu,%zu,%zu at %zu,%zu,%zu n=%d", l.glb[0], l.glb[1], l.glb[2], l.loc[0], l.loc[1], l.loc[2], l.off[0],
          l.off[1], l.off[2], l.arg);
    for (auto &s : script)
    {
      std::istringstream is(s);
      for (std::string l; std::getline(is, l);)
        r.d("> %s", l.c_str());
    }
    cl_context c = cl_new_context();
    std::string all;
    for (auto &s : src)
      all += s + "\n";
    cl_program p = cl_build(c, all.c_str(), cl2 ? "-cl-std=CL2.0" : "");
    cl_int e;
    cl_kernel k = clCreateKernel(p, "kern", &e);
    r.require_cl(e, CL_SUCCESS, "clCreateKernel");
    cl_command_queue cq = clCreateCommandQueue(c, g_device, 0, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateCommandQueue");
    size_t words = 0;
    for (auto &l : launches)
      words = std::max(words, l.glb[0] * l.glb[1] * l.glb[2] * OW);
    words_ = words;
    std::vector<int32_t> out(words, 0), want = out;
    std::vector<Ev> evs;
    g_ev = &evs;
    obs_start((1u << OB_LOG) | (1u << OB_WG_COMPLETE) | (1u << OB_WG_BARRIER) | (1u << OB_KERNEL_BEGIN) | (1u << OB_KERNEL_END) | (1u << OB_STEP) |
              (1u << OB_ALLOC));
    obs_hooks.fn = [](int k, const size_t *id, uint64_t a, uint64_t b, uint64_t c, const char *t) {
      if (k == OB_ALLOC)
        g_last = a;
      else
        observe(k, id, a, b, c, t);
    };
    cl_mem m = clCreateBuffer(c, CL_MEM_COPY_HOST_PTR, words * 4, out.data(), &e);
    r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
    size_t addr = g_last;
    // standard input
    std::string input;
    char ab[40];
    for (auto &s : script)
    {
      size_t at = s.find('@');
      if (at != std::string::npos)
      {
        size_t n = 0, v = strtoul(s.c_str() + at + 1, NULL, 10);
        while (isdigit(s[at + 1 + n]))
          n++;
        snprintf(ab, sizeof ab, "%zx", addr + v * 4);
        s = s.substr(0, at) + ab + s.substr(at + 1 + n);
      }
      input += s + "\n";
    }
    int fd = memfd_create("in", 0);
    if (write_all(fd, input))
      abort();
    lseek(fd, 0, SEEK_SET);
    dup2(fd, 0);
    close(fd);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_int;
    g_app = 0;
    sigaction(SIGINT, &sa, NULL);
    r.cfg.signo = SIGINT;
    int ns = q(3) ? 0 : 1 + q(3);
    uint64_t at = 0;
    for (int i = 0; i < ns; i++)
      r.cfg.sig_step[i] = at += q(2) ? q(20000) : q(200000);
    r.cfg.nsig = ns;
    capture_reset();
    set_threads(1 + q(3));
    r.begin();
    std::vector<int> handler;
    for (auto &l : launches)
    {
      L = l;
      cl_int nx = l.glb[0], ny = l.glb[1];
      CKD(clSetKernelArg(k, 0, sizeof m, &m));
      CKD(clSetKernelArg(k, 1, 4, &l.arg));
      CKD(clSetKernelArg(k, 2, 4, &nx));
      CKD(clSetKernelArg(k, 3, 4, &ny));
      CKD(clEnqueueNDRangeKernel(cq, k, l.dims, l.off, l.glb, l.loc, 0, NULL, NULL));
      CKD(clFinish(cq));
      struct sigaction now;
      sigaction(SIGINT, NULL, &now);
      handler.push_back(now.sa_handler == on_int);
    }
    CKD(clEnqueueReadBuffer(cq, m, CL_TRUE, 0, words * 4, out.data(), 0, NULL, NULL));
    r.cfg.nsig = 0;
    r.end();
    obs_stop();
    for (int h : handler)
      if (!h)
        r.fail("debug-signal", "the application's SIGINT handler is not in place after the kernel");
    std::string text = captured_stdout();
    std::vector<std::vector<Item>> all_items;
    for (auto &l : launches)
    {
      L = l;
      all_items.push_back(evaluate(want));
    }
    bool wrong = false;
    for (size_t i = 0; i < words && !wrong; i++)
      wrong = out[i] != want[i];
    if (wrong)
      show(text);
    for (size_t i = 0; i < words; i++)
      if (out[i] != want[i])
        r.fail("debug-result", "out[%zu] is %d instead of %d", i, out[i], want[i]);
    check(text, input, evs, all_items, addr);
    r.nontrivial(fnv(text.data(), text.size()));
    r.stat("commands", stops.second);
    r.stat("stops", stops.first);
    if (bad)
      r.stat("with_errors");
  }
  static size_t g_last;
  static bool write_all(int fd, const std::string &s) { return ::write(fd, s.data(), s.size()) != (ssize_t)s.size(); }
};
size_t Sim::g_last;

static void setup(const std::string &)
{
  setenv("OCLGRIND_INTERACTIVE", "1", 1);
  setenv("OCLGRIND_PLUGINS", BUILD_DIR "/libobs.so", 1);
  obs_hooks.threadsafe = 1;
  cl_setup_platform();
}
static void run(Run &r)
{
  Sim s(r);
  s.go();
}
static RegWorkload reg("debug", setup, run);
} // namespace
