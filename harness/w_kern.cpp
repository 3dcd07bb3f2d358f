// Kernel-side workloads: C01 model, C02 atomics, C03 ids, C04 barrier,
// C05 async, C10 count, C13 printf.
#include "model.h"
#include <array>

namespace
{

static KDev DEV;
static std::string VAR;

static void setup(const std::string &v)
{
  VAR = v;
  if (v == "count")
    setenv("OCLGRIND_INST_COUNTS", "1", 1);
  setenv("OCLGRIND_PLUGINS", BUILD_DIR "/libobs.so", 1);
  obs_hooks.threadsafe = 1;
  cl_setup_platform();
  DEV = kdev_setup();
}

static void no_messages(Run &r)
{
  std::string e = captured_stderr();
  if (!e.empty())
    r.fail("unexpected-message", "diagnostic on a correct program: %.600s",
           e.c_str());
}

static void compare(Run &r, const GenState &s, const KState &got,
                    const KState &want, const std::vector<bool> *skip = NULL)
{
  const NDR &n = s.n;
  auto skipped = [&](size_t g) { return skip && (*skip)[g]; };
  for (size_t i = 0; i < want.G.size(); i++)
  {
    if (i >= (size_t)(GRO + GAT) && skipped((i - GRO - GAT) / GPRIV))
      continue;
    if (got.G[i] != want.G[i])
      r.fail("memory", "global cell %zu is 0x%x, reference 0x%x", i, got.G[i],
             want.G[i]);
  }
  for (size_t i = 0; i < want.G8.size(); i++)
    if (got.G8[i] != want.G8[i])
      r.fail("memory", "global 64-bit cell %zu is 0x%lx, reference 0x%lx", i,
             got.G8[i], want.G8[i]);
  for (size_t g = 0; g < n.groups(); g++)
  {
    if (skipped(g))
      continue;
    for (int it : n.group_items(g))
    {
      for (int k = 0; k < KREG; k++)
        if (got.out[it * KREG + k] != want.out[it * KREG + k])
          r.fail("result", "work-item %d (group %zu) register %d is 0x%x, "
                           "reference 0x%x",
                 it, g, k, got.out[it * KREG + k], want.out[it * KREG + k]);
      for (int k = 0; k < OUTN; k++)
        if (got.outr[it * OUTN + k] != want.outr[it * OUTN + k])
          r.fail("result", "work-item %d (group %zu) slot %d is 0x%x, "
                           "reference 0x%x",
                 it, g, k, got.outr[it * OUTN + k], want.outr[it * OUTN + k]);
    }
  }
}

static void run_model(Run &r, bool async_heavy)
{
  Rnd &q = r.rng;
  GenState s;
  GenOpts o;
  if (async_heavy)
  {
    o.max_items = 20;
    o.max_ops = 4;
  }
  gen_init(r, q, o, s);
  for (size_t g = 0; g < s.n.groups(); g++)
    gen_group(r, q, o, s, g);
  describe(r, s);
  int workers = 1 + q(6);
  r.d("workers=%d", workers);
  KState got = s.st, want = s.st;
  Model m(s.n, s.p, want);
  m.run();
  krun_begin(r, workers);
  kern_exec(r, DEV, s.n, s.p, got);
  r.end();
  no_messages(r);
  compare(r, s, got, want);
  r.stat("barriers", m.barriers);
  r.stat("async_copies", m.copies);
  r.stat("groups", s.n.groups());
  r.stat("items", s.n.items());
}

// ------------------------------------------------------------ async copies
// Copies of every shape; groups where one item passes different arguments
// must be diagnosed, all others must transfer exactly the right elements.
static void run_async(Run &r)
{
  Rnd &q = r.rng;
  GenOpts o;
  GenState s;
  o.max_items = 16;
  gen_init(r, q, o, s);
  const NDR &n = s.n;
  std::vector<bool> div(n.groups(), false);
  std::vector<bool> expcopy(n.groups(), false);
  for (size_t g = 0; g < n.groups(); g++)
  {
    bool kg = r.keep();
    std::vector<int> it = n.group_items(g);
    int N = it.size();
    int gb = GRO + GAT + g * GPRIV;
    auto all = [&](KI i) {
      if (kg)
        for (int k = 0; k < N; k++)
          s.p.items[it[k]].push_back(i);
    };
    // local cells 0..LCELLS-1 initialised by item 0 of the group
    for (int c = 0; c < LCELLS; c++)
    {
      int k = q(N);
      if (kg)
      {
        s.p.items[it[k]].push_back({K_IMM, 0, (uint32_t)q.next(), 0});
        s.p.items[it[k]].push_back({K_STL, 0, (uint32_t)c, 0});
      }
      else
        q.next();
    }
    all({K_BARLG, 0, 0, 0});
    int rounds = 1 + q(4);
    bool diverge = N > 1 && q(5) == 0;
    int dround = q(rounds);
    for (int rd = 0; rd < rounds; rd++)
    {
      bool k1 = r.keep();
      int kind = q(4);
      bool g2l = kind == 0 || kind == 2;
      int slot = q(2);
      std::vector<KI> as;
      int dn = 1 + q(2);
      if (diverge && rd == dround)
        dn = 1;
      bool chain = false;
      // distinct destination ranges per copy
      int lhalf = LCELLS / 2;
      for (int e = 0; e < dn; e++)
      {
        int stride = kind >= 2 ? 1 + q(3) : 1;
        int num = q(12) == 0 ? 0 : 1 + q(3);
        int span = num ? (num - 1) * stride + 1 : 0;
        while (span > GPRIV / 2)
        {
          num--;
          span = num ? (num - 1) * stride + 1 : 0;
        }
        int gc = gb + e * (GPRIV / 2) + q(GPRIV / 2 - span + 1);
        int lc = e * lhalf + q(lhalf - num + 1);
        uint32_t op = kind == 0   ? K_AS_GL
                      : kind == 1 ? K_AS_LG
                      : kind == 2 ? K_ASS_GL
                                  : K_ASS_LG;
        uint32_t sl = e == 0 ? slot : !slot;
        if (e == 1 && op == K_AS_GL && q(2))
        {
          op = K_AS_GL_CHAIN;
          sl = slot;
          chain = true;
        }
        uint32_t dst = g2l ? lc : gc, src = g2l ? gc : lc;
        as.push_back({op, sl, dst | src << 16,
                      (uint32_t)num | (uint32_t)stride << 16});
      }
      if (!k1)
      {
        continue;
      }
      int how = q(5);
      int who = q(N);
      for (int k = 0; k < N; k++)
        for (KI i : as)
        {
          if (diverge && rd == dround && k == who && kg)
          {
            div[g] = true;
            expcopy[g] = true;
            if (how == 0)
            { // different element count
              if ((i.b & 0xffff) == 0)
                i.b += 1;
              else
                i.b -= 1;
            }
            else if (how == 1)
            { // different local address, still in range
              uint32_t l = g2l ? i.a & 0xffff : i.a >> 16;
              l = l ? l - 1 : l + 1;
              i.a = g2l ? (i.a & 0xffff0000) | l : (i.a & 0xffff) | l << 16;
            }
            else if (how == 2 && kind >= 2 &&
                     ((i.b >> 16) > 1 || (i.b & 0xffff) <= 1))
            { // different stride, still in range
              int st = i.b >> 16;
              st = st > 1 ? st - 1 : st + 1;
              i.b = (i.b & 0xffff) | (uint32_t)st << 16;
            }
            else if (how == 3)
            { // different global address, still in range
              uint32_t a = g2l ? i.a >> 16 : i.a & 0xffff;
              a = a > (uint32_t)gb ? a - 1 : a + 1;
              i.a = g2l ? (i.a & 0xffff) | a << 16 : (i.a & 0xffff0000) | a;
            }
            else
            { // different copy
              if (i.op == K_AS_GL || i.op == K_ASS_GL)
              {
                i.op = i.op == K_AS_GL ? K_ASS_GL : K_AS_GL;
              }
              else
                i.op = i.op == K_AS_LG ? K_ASS_LG : K_AS_LG;
            }
          }
          if (kg)
            s.p.items[it[k]].push_back(i);
        }
      if (dn == 2 && !chain)
        all({K_WAIT2, 0, 0, 0});
      else
        all({K_WAIT1, (uint32_t)slot, 0, 0});
      all({K_BARLG, 0, 0, 0});
      // everybody looks at some cells
      int looks = q(3);
      for (int l = 0; l < looks; l++)
      {
        uint32_t c = q(LCELLS), c2 = gb + q(GPRIV);
        all({K_LDL, (uint32_t)l, c, 0});
        all({K_LDG, (uint32_t)(l + 3), c2, 0});
      }
      all({K_BARLG, 0, 0, 0});
    }
    for (int c = 0; c < 6; c++)
    {
      all({K_LDL, (uint32_t)(c % 7), (uint32_t)q(LCELLS), 0});
      all({K_OUTR, (uint32_t)(c % 7), (uint32_t)c, 0});
    }
  }
  describe(r, s);
  int workers = 1 + q(5);
  r.d("workers=%d", workers);
  KState got = s.st, want = s.st;
  Model m(n, s.p, want);
  m.run();
  obs_start(1 << OB_LOG);
  krun_begin(r, workers);
  kern_exec(r, DEV, n, s.p, got);
  r.end();
  compare(r, s, got, want, &div);
  std::set<size_t> seen;
  for (auto &msg : g_logs)
  {
    size_t p = msg.find("Work-group: (");
    unsigned long a, b, c;
    if (msg.find("Work-group divergence detected (async copy)") ==
          std::string::npos ||
        p == std::string::npos ||
        sscanf(msg.c_str() + p, "Work-group: (%lu,%lu,%lu)", &a, &b, &c) != 3)
      r.fail("unexpected-message", "%.300s", msg.c_str());
    seen.insert(a + n.ng[0] * (b + n.ng[1] * c));
  }
  for (size_t g = 0; g < n.groups(); g++)
    if (div[g] != (bool)seen.count(g))
      r.fail("divergence", "group %zu: async divergence %s but %s", g,
             div[g] ? "occurred" : "did not occur",
             seen.count(g) ? "was reported" : "was not reported");
  r.stat("async_copies", m.copies);
  for (size_t g = 0; g < n.groups(); g++)
    r.stat(div[g] ? "divergent_groups" : "conforming_groups");
}

// ------------------------------------------------------------------ atomics
struct AOp
{
  int item, seq;
  uint32_t op;
  uint64_t arg, cmp, old;
};
static uint64_t aop_apply(uint32_t op, uint64_t old, const AOp &a)
{
  uint32_t o = old, b = a.arg;
  if (op >= K_LA_ADD && op <= K_LA_XOR)
    op = op - K_LA_ADD + K_GA_ADD;
  switch (op)
  {
  case K_GA_ADD: return (uint32_t)(o + b);
  case K_GA_SUB: return (uint32_t)(o - b);
  case K_GA_INC: return (uint32_t)(o + 1);
  case K_GA_DEC: return (uint32_t)(o - 1);
  case K_GA_XCHG: return b;
  case K_GA_CAS: return o == (uint32_t)a.cmp ? b : o;
  case K_GA_MIN: return std::min(o, b);
  case K_GA_MAX: return std::max(o, b);
  case K_GA_AND: return o & b;
  case K_GA_OR: return o | b;
  case K_GA_XOR: return o ^ b;
  case K_GA_IMIN: return (uint32_t)std::min((int32_t)o, (int32_t)b);
  case K_GA_IMAX: return (uint32_t)std::max((int32_t)o, (int32_t)b);
  case K_G8_ADD: return old + a.arg;
  case K_G8_XCHG: return a.arg;
  case K_G8_CAS: return old == a.cmp ? a.arg : old;
  case K_G8_MAX: return std::max(old, a.arg);
  case K_G8_INC: return old + 1;
  }
  return old;
}
// Is there an interleaving of the per-item sequences that explains every
// returned value and the final value?
static bool linearizable(const std::vector<std::vector<AOp>> &seqs,
                         uint64_t init, uint64_t fin, bool wide,
                         uint64_t &states)
{
  std::set<std::vector<uint64_t>> seen;
  std::vector<uint64_t> st(seqs.size() + 1, 0);
  st.back() = init;
  std::vector<std::vector<uint64_t>> todo{st};
  while (!todo.empty())
  {
    std::vector<uint64_t> c = todo.back();
    todo.pop_back();
    if (!seen.insert(c).second)
      continue;
    if (++states > 400000)
      return true; // undecided: never an alarm
    bool done = true;
    for (size_t i = 0; i < seqs.size(); i++)
    {
      if (c[i] == seqs[i].size())
        continue;
      done = false;
      const AOp &a = seqs[i][c[i]];
      uint32_t vis = (uint32_t)c.back();
      if (vis != (uint32_t)a.old)
        continue;
      std::vector<uint64_t> n = c;
      n[i]++;
      n.back() = aop_apply(a.op, c.back(), a);
      todo.push_back(n);
    }
    if (done && c.back() == fin)
      return true;
  }
  return false;
}

static void run_atomics(Run &r)
{
  Rnd &q = r.rng;
  NDR n;
  n.dims = 1;
  n.ls[0] = 1 + q(2);
  n.ng[0] = 2 + q(5);
  if (n.ls[0] == 1 && q(3) == 0)
    n.ng[0] = 8;
  n.gs[0] = n.ls[0] * n.ng[0];
  n.uniform = q(2);
  GenState s;
  s.n = n;
  s.p.items.resize(n.items());
  int ncell = 1 + q(3);
  s.st.G.resize(8);
  s.st.G8.resize(G8N);
  for (auto &x : s.st.G)
    x = q(3) ? q(6) : q.next();
  for (auto &x : s.st.G8)
    x = q(3) ? q(6) : q.next();
  int theme = q(6);
  // per item: up to OUTN ops, each old value recorded
  for (size_t i = 0; i < n.items(); i++)
  {
    int nop = 1 + q(n.items() > 8 ? 3 : 6);
    int slot = 0;
    for (int j = 0; j < nop; j++)
    {
      KI o = {0, 0, 0, 0};
      uint32_t v = q(3) ? q(6) : q.next(), cv = q(3) ? q(6) : q.next();
      int c = q(ncell);
      int kind = q(10);
      if (theme == 0)
        o = {K_GA_INC, 0, (uint32_t)c, 0};
      else if (theme == 1)
        o = {K_GA_CAS, 0, (uint32_t)c, v};
      else if (theme == 2 || kind < 6)
        o = {(uint32_t)(K_GA_ADD + q(13)), 0, (uint32_t)c, v};
      else if (theme == 3 || kind < 8)
        o = {(uint32_t)(K_G8_ADD + q(5)), 0, (uint32_t)(c % G8N), v};
      else
      {
        o = {(uint32_t)(K_LA_ADD + q(11)), 0, (uint32_t)c, v};
      }
      if (!r.keep())
        continue;
      auto &code = s.p.items[i];
      if (o.op == K_GA_CAS || o.op == K_LA_CAS || o.op == K_G8_CAS)
        code.push_back({K_IMM, 0, cv, 0});
      code.push_back(o);
      code.push_back({K_OUTR, 0, (uint32_t)slot++, 0});
    }
  }
  // local cells start from a known value: item 0 of each group initialises
  for (size_t g = 0; g < n.groups(); g++)
  {
    auto it = n.group_items(g);
    for (size_t k = 0; k < it.size(); k++)
    {
      std::vector<KI> pre;
      if (k == 0)
        for (int c = 0; c < ncell; c++)
        {
          pre.push_back({K_IMM, 0, (uint32_t)(c + 2), 0});
          pre.push_back({K_STL, 0, (uint32_t)c, 0});
        }
      pre.push_back({K_BARL, 0, 0, 0});
      auto &code = s.p.items[it[k]];
      code.insert(code.begin(), pre.begin(), pre.end());
      code.push_back({K_BARL, 0, 0, 0});
      if (k == 0)
        for (int c = 0; c < ncell; c++)
          code.push_back({K_LDL, (uint32_t)(c + 1), (uint32_t)c, 0});
    }
  }
  describe(r, s);
  int workers = 2 + q(5);
  r.d("workers=%d", workers);
  KState got = s.st;
  krun_begin(r, workers);
  kern_exec(r, DEV, n, s.p, got);
  r.end();
  no_messages(r);

  // histories per location
  std::map<std::pair<int, int>, std::vector<std::vector<AOp>>> hist;
  uint64_t states = 0;
  for (size_t g = 0; g < n.groups(); g++)
    for (int it : n.group_items(g))
    {
      uint32_t cmp = 0;
      int slot = 0;
      std::map<std::pair<int, int>, std::vector<AOp>> mine;
      for (auto &k : s.p.items[it])
      {
        if (k.op == K_IMM)
          cmp = k.a;
        std::pair<int, int> loc;
        if (k.op >= K_GA_ADD && k.op <= K_GA_IMAX)
          loc = {0, k.a};
        else if (k.op >= K_G8_ADD && k.op <= K_G8_INC)
          loc = {1, k.a};
        else if (k.op >= K_LA_ADD && k.op <= K_LA_XOR)
          loc = {2 + (int)g, k.a};
        else
          continue;
        AOp a;
        a.item = it;
        a.seq = slot;
        a.op = k.op;
        a.arg = k.b;
        a.cmp = cmp;
        a.old = got.outr[it * OUTN + slot];
        slot++;
        mine[loc].push_back(a);
      }
      for (auto &x : mine)
        hist[x.first].push_back(x.second);
    }
  for (auto &h : hist)
  {
    uint64_t init, fin;
    int sp = h.first.first, c = h.first.second;
    if (sp == 0)
      init = s.st.G[c], fin = got.G[c];
    else if (sp == 1)
      init = s.st.G8[c], fin = got.G8[c];
    else
    {
      init = c + 2;
      int it0 = n.group_items(sp - 2)[0];
      fin = got.out[it0 * KREG + c + 1];
    }
    if (!linearizable(h.second, init, fin, sp == 1, states))
    {
      std::string t;
      for (auto &v : h.second)
      {
        char b[120];
        snprintf(b, sizeof b, "[item %d:", v[0].item);
        t += b;
        for (auto &a : v)
        {
          snprintf(b, sizeof b, " %s(%lx,cmp %lx)->%lx",
                   kop_str({a.op, 0, (uint32_t)c, 0}).c_str(), a.arg, a.cmp,
                   a.old);
          t += b;
        }
        t += "] ";
      }
      r.fail("linearizability",
             "%s cell %d: no order of the atomic operations explains the "
             "results: initial 0x%lx final 0x%lx %s",
             sp == 0 ? "global" : sp == 1 ? "global64" : "local", c, init, fin,
             t.c_str());
    }
    r.stat("histories");
  }
  for (size_t c = ncell; c < s.st.G.size(); c++)
    if (got.G[c] != s.st.G[c])
      r.fail("memory", "cell %zu changed although no operation names it", c);
  r.stat("lin_states", states);
}

// ---------------------------------------------------------------------- ids
static void run_ids(Run &r)
{
  Rnd &q = r.rng;
  NDR n = gen_ndr(q, 60, 30, true, true);
  int workers = 1 + q(6);
  int reps = 1 + q(2);
  size_t items = n.items();
  std::vector<uint64_t> out(items * 28, 0);
  std::vector<uint32_t> cnt(items + 4, 0);
  r.d("ndrange dims=%d offset=(%zu,%zu,%zu) global=(%zu,%zu,%zu) "
      "local=(%zu,%zu,%zu) %s workers=%d launches=%d",
      n.dims, n.off[0], n.off[1], n.off[2], n.gs[0], n.gs[1], n.gs[2], n.ls[0],
      n.ls[1], n.ls[2], n.uniform ? "CL1.2" : "CL2.0", workers, reps);
  obs_start(1 << OB_KERNEL_BEGIN | 1 << OB_KERNEL_END | 1 << OB_WG_BEGIN |
            1 << OB_WG_COMPLETE | 1 << OB_WI_BEGIN | 1 << OB_WI_COMPLETE |
            1 << OB_LOG);
  krun_begin(r, workers);
  cl_int e;
  cl_command_queue cq = clCreateCommandQueue(DEV.ctx, g_device, 0, &e);
  cl_kernel k = clCreateKernel(n.uniform ? DEV.p12 : DEV.p20, "idk", &e);
  r.require_cl(e, CL_SUCCESS, "clCreateKernel");
  cl_mem mo = clCreateBuffer(DEV.ctx, CL_MEM_COPY_HOST_PTR, out.size() * 8,
                             out.data(), &e);
  cl_mem mc = clCreateBuffer(DEV.ctx, CL_MEM_COPY_HOST_PTR, cnt.size() * 4,
                             cnt.data(), &e);
  clSetKernelArg(k, 0, sizeof mo, &mo);
  clSetKernelArg(k, 1, sizeof mc, &mc);
  for (int i = 0; i < reps; i++)
    r.require_cl(clEnqueueNDRangeKernel(cq, k, n.dims, n.off, n.gs, n.ls, 0,
                                        NULL, NULL),
                 CL_SUCCESS, "clEnqueueNDRangeKernel");
  r.require_cl(clFinish(cq), CL_SUCCESS, "clFinish");
  clEnqueueReadBuffer(cq, mo, CL_TRUE, 0, out.size() * 8, out.data(), 0, NULL,
                      NULL);
  clEnqueueReadBuffer(cq, mc, CL_TRUE, 0, cnt.size() * 4, cnt.data(), 0, NULL,
                      NULL);
  r.end();
  obs_stop();
  if (!g_logs.empty())
    r.fail("unexpected-message", "%.300s", g_logs[0].c_str());
  for (size_t g = 0; g < n.groups(); g++)
  {
    size_t id[3], sz[3];
    n.group_id(g, id);
    n.group_size(g, sz);
    auto it = n.group_items(g);
    for (size_t j = 0; j < it.size(); j++)
    {
      size_t l[3] = {j % sz[0], j / sz[0] % sz[1], j / sz[0] / sz[1]};
      uint64_t *o = &out[it[j] * 28];
      if (cnt[it[j]] != (uint32_t)reps)
        r.fail("exactly-once", "work-item %d executed %u times in %d launches",
               it[j], cnt[it[j]], reps);
      for (int i = 0; i < 3; i++)
      {
        uint64_t want[8] = {n.off[i] + id[i] * n.ls[i] + l[i],
                            l[i],
                            id[i],
                            n.gs[i],
                            sz[i],
                            n.ng[i],
                            n.off[i],
                            n.uniform ? 0 : n.ls[i]};
        static const char *nm[8] = {"global_id",     "local_id",
                                    "group_id",      "global_size",
                                    "local_size",    "num_groups",
                                    "global_offset", "enqueued_local_size"};
        for (int f = 0; f < 8; f++)
          if (o[f * 3 + i] != want[f])
            r.fail("ids", "work-item %d: get_%s(%d) = %lu, expected %lu",
                   it[j], nm[f], i, o[f * 3 + i], want[f]);
      }
      if (o[24] != (uint64_t)n.dims || o[27] != 0xabcdef)
        r.fail("ids", "work-item %d: work_dim %lu marker %lx", it[j], o[24],
               o[27]);
      if (!n.uniform &&
          (o[25] != (uint64_t)it[j] || o[26] != (uint64_t)j))
        r.fail("ids", "work-item %d: linear ids %lu %lu, expected %d %zu",
               it[j], o[25], o[26], it[j], j);
    }
  }
  for (size_t i = items; i < cnt.size(); i++)
    if (cnt[i])
      r.fail("exactly-once", "work-item beyond the ND-range executed");
  // bracketing of plugin callbacks
  typedef std::array<size_t, 3> A3;
  int kdepth = 0, launches = 0;
  std::map<A3, int> wg, wi;
  std::map<A3, int> wgopen;
  std::map<int, A3> thr;
  uint64_t wi_base = 0;
  bool wi_base_set = false;
  for (auto &ev : g_obs)
  {
    A3 id = {ev.id[0], ev.id[1], ev.id[2]};
    switch (ev.kind)
    {
    case OB_KERNEL_BEGIN:
      if (kdepth++)
        r.fail("bracketing", "kernelBegin twice");
      launches++;
      break;
    case OB_KERNEL_END:
      kdepth--;
      for (auto &x : wg)
        if (x.second != launches)
          r.fail("bracketing", "kernelEnd before all work-groups completed");
      if (wg.size() != n.groups() || wi.size() != items)
        r.fail("bracketing", "%zu of %zu work-groups and %zu of %zu work-items "
                             "were reported before kernelEnd",
               wg.size(), n.groups(), wi.size(), items);
      break;
    case OB_WG_BEGIN:
      if (!kdepth || wgopen[id])
        r.fail("bracketing", "workGroupBegin outside its kernel or twice");
      if (ev.b != id[0] + n.ng[0] * (id[1] + n.ng[1] * id[2]))
        r.fail("ids", "work-group (%zu,%zu,%zu) has index %lu", id[0], id[1], id[2], ev.b);
      wgopen[id] = 1;
      thr[ev.thread] = id;
      break;
    case OB_WG_COMPLETE:
      if (!wgopen[id])
        r.fail("bracketing", "workGroupComplete without begin");
      wgopen[id] = 0;
      wg[id]++;
      break;
    case OB_WI_BEGIN:
    case OB_WI_COMPLETE:
    {
      A3 gid;
      for (int i = 0; i < 3; i++)
        gid[i] = (id[i] - n.off[i]) / n.ls[i];
      if (!wgopen[gid] || thr[ev.thread] != gid)
        r.fail("bracketing", "work-item callback outside its work-group");
      if (ev.kind == OB_WI_BEGIN)
      {
        // linear in the position within the ND-range
        uint64_t base = ev.b - (id[0] - n.off[0] + n.gs[0] * (id[1] - n.off[1] + n.gs[1] * (id[2] - n.off[2])));
        if (wi_base_set && base != wi_base)
          r.fail("ids", "work-item (%zu,%zu,%zu) has index %lu", id[0], id[1], id[2], ev.b);
        wi_base = base;
        wi_base_set = true;
      }
      if (ev.kind == OB_WI_COMPLETE)
        wi[id]++;
      break;
    }
    }
  }
  if (launches != reps || kdepth)
    r.fail("bracketing", "%d kernelBegin callbacks for %d launches", launches,
           reps);
  for (auto &x : wi)
    if (x.second != reps)
      r.fail("exactly-once", "work-item completed %d times in %d launches",
             x.second, reps);
  for (auto &x : wg)
    if (x.second != reps)
      r.fail("exactly-once", "work-group completed %d times in %d launches",
             x.second, reps);
  r.stat("groups", n.groups());
  r.stat("items", items);
}

// ----------------------------------------------------------------- barriers
static void run_barrier(Run &r)
{
  Rnd &q = r.rng;
  GenState s;
  GenOpts o;
  o.max_items = 20;
  o.shared_atomics = true;
  gen_init(r, q, o, s);
  const NDR &n = s.n;
  for (size_t g = 0; g < n.groups(); g++)
  {
    if (q(2))
    {
      gen_group(r, q, o, s, g);
      continue;
    }
    // barrier skeleton, possibly divergent
    auto it = n.group_items(g);
    int N = it.size();
    int rounds = 1 + q(4);
    bool kg = r.keep();
    for (int rd = 0; rd < rounds; rd++)
    {
      uint32_t site = K_BARL + q(4), flags = 1 + q(3);
      int style = q(5);
      std::set<int> who; // the items that may deviate
      int nwho = q(3) ? 1 : 1 + q(N);
      while ((int)who.size() < nwho)
        who.insert(q(N));
      uint32_t wflags = 1 + q(3), wsite = site == K_BARX && q(3) ? site : K_BARL + q(4);
      bool k1 = r.keep();
      for (int k = 0; k < N; k++)
      {
        uint32_t my = site;
        bool skip = false;
        if (style == 0 && who.count(k))
          my = wsite;
        else if (style == 1 && who.count(k))
          skip = true;
        if (!kg || !k1)
          continue;
        auto &code = s.p.items[it[k]];
        code.push_back({K_MIX, (uint32_t)q(7), (uint32_t)q(7), (uint32_t)q(7)});
        if (!skip)
          code.push_back({my, 0, my != K_BARX ? 0 : style == 0 && who.count(k) ? wflags : flags, 0});
      }
    }
    if (kg)
      for (int k = 0; k < N; k++)
        s.p.items[it[k]].push_back({K_IMM, 7, 0, 0});
  }
  describe(r, s);
  int workers = 1 + q(6);
  r.d("workers=%d", workers);
  KState got = s.st, want = s.st;
  Model m(n, s.p, want);
  m.run();
  obs_start(1 << OB_LOG | 1 << OB_WG_BARRIER);
  krun_begin(r, workers);
  kern_exec(r, DEV, n, s.p, got);
  r.end();
  obs_stop();
  std::set<size_t> seen;
  for (auto &msg : g_logs)
  {
    size_t p = msg.find("Work-group: (");
    unsigned long a, b, c;
    if (msg.find("Work-group divergence detected (barrier)") ==
          std::string::npos ||
        p == std::string::npos ||
        sscanf(msg.c_str() + p, "Work-group: (%lu,%lu,%lu)", &a, &b, &c) != 3)
      r.fail("unexpected-message", "%.300s", msg.c_str());
    seen.insert(a + n.ng[0] * (b + n.ng[1] * c));
  }
  for (size_t g = 0; g < n.groups(); g++)
    if (m.divergent[g] != (bool)seen.count(g))
      r.fail("divergence", "group %zu: barrier divergence %s but %s", g,
             m.divergent[g] ? "occurred" : "did not occur",
             seen.count(g) ? "was reported" : "was not reported");
  compare(r, s, got, want);
  uint64_t nb = 0;
  for (auto &e : g_obs)
    if (e.kind == OB_WG_BARRIER)
      nb++;
  if (nb != m.barriers)
    r.fail("barrier-count", "%lu barrier releases, reference %lu", nb,
           m.barriers);
  r.stat("barriers", m.barriers);
  for (size_t g = 0; g < n.groups(); g++)
    r.stat(m.divergent[g] ? "divergent_groups" : "conforming_groups");
}

// ------------------------------------------------------------------- printf
static void run_printf(Run &r)
{
  Rnd &q = r.rng;
  GenState s;
  GenOpts o;
  o.max_items = 14;
  gen_init(r, q, o, s);
  const NDR &n = s.n;
  std::vector<std::vector<std::string>> want(n.items());
  for (size_t i = 0; i < n.items(); i++)
  {
    int c = q(5);
    bool bar = false;
    for (int j = 0; j < c; j++)
    {
      uint32_t op = K_PRINT + q(4), b = q(1000);
      if (op == K_PRINTS && q(2))
        op = K_PRINT;
      uint32_t a = i * 64 + j;
      if (!r.keep())
        continue;
      char t[200];
      if (op == K_PRINT)
        snprintf(t, sizeof t, "<%u:%u>", a, b);
      else if (op == K_PRINT2)
        snprintf(t, sizeof t, "<%d:%x:%c:%%:%s>", (int)a, b, 'k', "str");
      else if (op == K_PRINTV)
        snprintf(t, sizeof t, "<%u,%u,%u,%u:%u,%u>", a, b, a + 1, b + 1, a, b);
      else
        snprintf(t, sizeof t, "<plain text, no conversions at all>");
      want[i].push_back(t);
      s.p.items[i].push_back({op, 0, a, b});
    }
    (void)bar;
  }
  // one uniform barrier in some groups
  for (size_t g = 0; g < n.groups(); g++)
    if (q(2))
      for (int it : n.group_items(g))
      {
        auto &c = s.p.items[it];
        c.insert(c.begin() + c.size() / 2, {K_BARL, 0, 0, 0});
      }
  describe(r, s);
  int workers = 1 + q(6);
  r.d("workers=%d", workers);
  KState got = s.st;
  krun_begin(r, workers);
  kern_exec(r, DEV, n, s.p, got);
  r.end();
  no_messages(r);
  std::vector<std::string> lines = split_lines(captured_stdout());
  std::vector<size_t> pos(n.items(), 0);
  uint64_t plain = 0, wplain = 0;
  for (auto &w : want)
    for (auto &t : w)
      wplain += t[1] == 'p';
  for (auto &l : lines)
  {
    if (l == "<plain text, no conversions at all>")
    {
      plain++;
      continue;
    }
    unsigned a;
    if (sscanf(l.c_str(), "<%u", &a) != 1 || a / 64 >= n.items())
      r.fail("printf", "unexpected line '%s' in the printf output", l.c_str());
    size_t i = a / 64;
    while (pos[i] < want[i].size() && want[i][pos[i]][1] == 'p')
      pos[i]++;
    if (pos[i] >= want[i].size())
      r.fail("printf", "line '%s' printed more often than executed", l.c_str());
    if (want[i][pos[i]] != l)
      r.fail("printf", "line '%s' where work-item %zu printed '%s' next",
             l.c_str(), i, want[i][pos[i]].c_str());
    pos[i]++;
  }
  uint64_t total = 0;
  for (auto &w : want)
    total += w.size();
  if (plain != wplain || lines.size() != total)
    r.fail("printf", "%zu lines printed, %lu executed", lines.size(), total);
  r.stat("printfs", total);
}

// -------------------------------------------------------- instruction counts
static std::map<std::string, uint64_t> parse_counts(const std::string &s)
{
  std::map<std::string, uint64_t> m;
  for (auto &l : split_lines(s))
  {
    size_t p = l.find(" - ");
    if (p == std::string::npos)
      continue;
    m[l.substr(p + 3)] += strtoull(l.c_str(), NULL, 10);
  }
  return m;
}
extern "C"
{
  const char *(*obs_inst_name_fn)(uint64_t inst, uint64_t *bytes);
}
#define obs_inst_name obs_inst_name_fn
static void run_count(Run &r)
{
  Rnd &q = r.rng;
  GenState s;
  GenOpts o;
  o.max_items = 14;
  o.max_phases = 2;
  gen_init(r, q, o, s);
  for (size_t g = 0; g < s.n.groups(); g++)
  {
    // some groups use only few of the callable builtins
    gen_group(r, q, o, s, g);
    if (q(3) == 0)
      for (int it : s.n.group_items(g))
      {
        uint32_t c = q(GRO + 0);
        (void)c;
        s.p.items[it].push_back(
          {(uint32_t)(K_GA_ADD + q(4)), 7, GRO, (uint32_t)q(9)});
        s.p.items[it].push_back({K_IMM, 7, 0, 0});
      }
  }
  describe(r, s);
  int workers = 1 + q(6);
  r.d("workers=%d", workers);
  KState got = s.st;
  obs_start(1 << OB_INST);
  krun_begin(r, workers);
  kern_exec(r, DEV, s.n, s.p, got);
  r.end();
  obs_stop();
  std::string text = captured_stdout();
  std::map<std::string, uint64_t> cnt = parse_counts(text), want;
  std::map<uint64_t, uint64_t> per;
  for (auto &e : g_obs)
    if (e.kind == OB_INST)
      per[e.b]++;
  std::map<std::string, uint64_t> bytes;
  std::map<std::string, uint64_t> raw;
  for (auto &p : per)
  {
    uint64_t b = 0;
    std::string nm = obs_inst_name(p.first, &b);
    if (nm.compare(0, 14, "call llvm.dbg.") == 0)
      continue;
    raw[nm] += p.second;
    bytes[nm] += b * p.second;
  }
  for (auto &x : raw)
  {
    std::string nm = x.first;
    if (nm.compare(0, 5, "load ") == 0 || nm.compare(0, 6, "store ") == 0)
      nm += " (" + std::to_string(bytes[x.first]) + " bytes)";
    want[nm] = x.second;
  }
  if (text.find("Instructions executed for kernel 'simk':") == std::string::npos)
    r.fail("count", "no instruction count report");
  for (auto &x : want)
    if (!cnt.count(x.first) || cnt[x.first] != x.second)
    {
      std::string have;
      for (auto &y : cnt)
        if (y.first.substr(0, 8) == x.first.substr(0, 8))
          have += y.first + "=" + std::to_string(y.second) + " ";
      r.fail("count", "'%s' executed %lu times, reported: %s", x.first.c_str(),
             x.second, have.c_str());
    }
  for (auto &x : cnt)
    if (!want.count(x.first))
      r.fail("count", "'%s' reported %lu times but never executed",
             x.first.c_str(), x.second);
  uint64_t tot = 0;
  for (auto &x : want)
    tot += x.second;
  r.stat("instructions", tot);
}

static void run(Run &r)
{
  if (VAR == "count")
    return run_count(r);
  if (r.mode == "async")
    return run_async(r);
  if (r.mode == "atomics")
    return run_atomics(r);
  if (r.mode == "ids")
    return run_ids(r);
  if (r.mode == "barrier")
    return run_barrier(r);
  if (r.mode == "printf")
    return run_printf(r);
  run_model(r, false);
}
static RegWorkload reg("kern", setup, run);
} // namespace
