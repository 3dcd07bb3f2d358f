// C05: async copies of every element type, with several outstanding events,
// chained events, waits on lists of events, and every way in which the items
// of a group can disagree.
#include "kern.h"

namespace
{

struct AType
{
  const char *name;
  unsigned size;
};
static const AType TYPES[] = {
  {"uchar", 1},   {"char", 1},   {"ushort", 2}, {"short", 2},  {"uint", 4},
  {"int", 4},     {"ulong", 8},  {"long", 8},   {"float", 4},  {"double", 8},
  {"uchar2", 2},  {"short4", 8}, {"uint2", 8},  {"float4", 16}, {"int8", 32},
  {"ulong2", 16}, {"uchar3", 4}, {"float3", 16}, {"char16", 16}, {"double4", 32},
  {"ushort8", 16}, {"long16", 128}};
static const int NT = sizeof TYPES / sizeof *TYPES;
static const int RS = 640;  // bytes per group in global, and in local memory
static const int NOUT = 8;
enum { A_END, A_CP1, A_CP2, A_W1, A_W2, A_FILL, A_STL, A_STG, A_LDL, A_LDG, A_BAR };
static const int NSLOT = 4;

struct Rec
{
  uint32_t v[8];
};

static cl_context CTX;
static cl_program PRG[2];

static std::string source()
{
  std::string s = R"CLC(
#pragma OPENCL EXTENSION cl_khr_fp64 : enable
#define C(n, T) \
  case n * 4: e = async_work_group_copy((local T *)(L + o.s3), (global const T *)(G + o.s4), o.s5, e); break; \
  case n * 4 + 1: e = async_work_group_copy((global T *)(G + o.s3), (local const T *)(L + o.s4), o.s5, e); break; \
  case n * 4 + 2: e = async_work_group_strided_copy((local T *)(L + o.s3), (global const T *)(G + o.s4), o.s5, o.s6, e); break; \
  case n * 4 + 3: e = async_work_group_strided_copy((global T *)(G + o.s3), (local const T *)(L + o.s4), o.s5, o.s6, e); break;
kernel void ak(global uchar *G, global const uint8 *prog, global const uint *start,
               global uchar *out, local uchar *L)
{
  event_t z = 0;
  event_t ev[5];
  for (int i = 0; i < 5; i++)
    ev[i] = z;
  size_t item = (get_global_id(0) - get_global_offset(0)) + get_global_size(0) *
    ((get_global_id(1) - get_global_offset(1)) + get_global_size(1) *
     (get_global_id(2) - get_global_offset(2)));
  uint li = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));
  uint ln = get_local_size(0) * get_local_size(1) * get_local_size(2);
  uint pc = start[item];
  bool run = true;
  while (run)
  {
    uint8 o = prog[pc++];
    switch (o.s0)
    {
    case 0: run = false; break;
    case 1:
    case 2:
    {
      event_t e = ev[o.s2 >> 8];
      if (o.s0 == 1)
      {
        switch (o.s1) { ALLTYPES }
      }
      else
      {
        switch (o.s1) { ALLTYPES }
      }
      ev[o.s2 & 255] = e;
      break;
    }
    case 3:
    case 4:
    {
      event_t w[8];
      for (uint i = 0; i < o.s5; i++)
        w[i] = ev[(o.s3 >> (4 * i)) & 15];
      if (o.s0 == 3)
        wait_group_events(o.s5, w);
      else
        wait_group_events(o.s5, w);
      break;
    }
    case 5:
      for (uint i = li; i < RS / 8; i += ln)
        ((local ulong *)L)[i] = (ulong)(i + 1) * 0x9e3779b97f4a7c15UL + o.s3;
      break;
    case 6: L[o.s3] = o.s4; break;
    case 7: G[o.s3] = o.s4; break;
    case 8: out[item * 8 + o.s4] = L[o.s3]; break;
    case 9: out[item * 8 + o.s4] = G[o.s3]; break;
    case 10: barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE); break;
    }
  }
}
)CLC";
  std::string all;
  for (int i = 0; i < NT; i++)
    all += "C(" + std::to_string(i) + ", " + TYPES[i].name + ") ";
  std::string def = "#define RS " + std::to_string(RS) + "\n#define ALLTYPES " + all + "\n";
  return def + s;
}

static void setup(const std::string &)
{
  setenv("OCLGRIND_PLUGINS", BUILD_DIR "/libobs.so", 1);
  obs_hooks.threadsafe = 1;
  cl_setup_platform();
  CTX = cl_new_context();
  PRG[0] = cl_build(CTX, source().c_str(), "-cl-std=CL1.2");
  PRG[1] = cl_build(CTX, source().c_str(), "-cl-std=CL2.0 -cl-opt-disable");
}

struct Copy
{
  int type, ev;
  bool g2l, strided;
  uint32_t dst, src, num, stride; // dst/src without the group base
  size_t sstep() const { return (strided && g2l ? stride : 1) * TYPES[type].size; }
  size_t dstep() const { return (strided && !g2l ? stride : 1) * TYPES[type].size; }
  bool fits() const
  {
    size_t sz = TYPES[type].size;
    if (dst % sz || src % sz)
      return false;
    if (num == 0)
      return dst < (size_t)RS && src < (size_t)RS;
    return dst + (num - 1) * dstep() + sz <= (size_t)RS &&
           src + (num - 1) * sstep() + sz <= (size_t)RS;
  }
  template <class F> void each(bool isdst, F f) const
  {
    size_t sz = TYPES[type].size;
    for (uint32_t i = 0; i < num; i++)
      for (size_t b = 0; b < sz; b++)
        f((isdst ? dst : src) + i * (isdst ? dstep() : sstep()) + b);
  }
  Rec rec(uint32_t site, int slot, int chain, uint32_t gb) const
  {
    return {{site ? (uint32_t)A_CP2 : (uint32_t)A_CP1,
             (uint32_t)(type * 4 + (strided ? 2 : 0) + (g2l ? 0 : 1)),
             (uint32_t)(slot | chain << 8), g2l ? dst : gb + dst,
             g2l ? gb + src : src, num, strided ? stride : 1, 0}};
  }
};

static Copy random_copy(Rnd &q)
{
  Copy c;
  while (true)
  {
    c.type = q(NT);
    c.g2l = q(2);
    c.strided = q(2);
    unsigned sz = TYPES[c.type].size;
    unsigned lim = RS / sz;
    c.num = q(16) == 0 ? 0 : 1 + q(q(2) ? std::min(lim, 5u) : std::min(lim, 80u));
    c.stride = c.strided ? (q(12) == 0 ? 0 : 1 + q(5)) : 1;
    // a stride of zero reads (or writes) one element over and over; only
    // reading it is defined
    if (c.stride == 0 && !c.g2l)
      c.stride = 1;
    c.dst = q(lim) * sz;
    c.src = q(lim) * sz;
    if (c.fits())
      return c;
  }
}

static void run(Run &r)
{
  Rnd &q = r.rng;
  int opt = q(3) == 0;
  NDR n = gen_ndr(q, 14, 6, true, true);
  if (!n.uniform)
    opt = 1;
  size_t NG = n.groups();
  std::vector<uint8_t> G(NG * RS), want, out(n.items() * NOUT, 0xEE), wout;
  for (auto &x : G)
    x = q.next();
  want = G;
  wout = out;
  std::vector<std::vector<Rec>> code(n.items());
  std::vector<std::string> expect(NG);
  std::vector<bool> skip(NG, false);
  uint64_t ncopies = 0;
  r.d("ndrange dims=%d global=(%zu,%zu,%zu) local=(%zu,%zu,%zu) offset=(%zu,%zu,"
      "%zu) program %d", n.dims, n.gs[0], n.gs[1], n.gs[2], n.ls[0], n.ls[1],
      n.ls[2], n.off[0], n.off[1], n.off[2], opt);
  for (size_t g = 0; g < NG; g++)
  {
    auto it = n.group_items(g);
    int N = it.size();
    uint32_t gb = g * RS;
    bool kg = r.keep();
    std::vector<uint8_t> L(RS);
    uint8_t *gm = &want[gb];
    std::vector<uint8_t> stL(RS, 0), stG(RS, 0);
    std::vector<std::pair<Copy, int>> pend; // copy, event number
    int slot_ev[NSLOT] = {-1, -1, -1, -1}, nev = 0;
    auto all = [&](Rec x) {
      for (int k = 0; k < N; k++)
        code[it[k]].push_back(x);
    };
    auto bar = [&] { all({{A_BAR, 0, 0, 0, 0, 0, 0, 0}}); };
    auto pick_items = [&](std::set<int> &who) {
      // a nonempty proper subset
      int c = q(3) ? 1 : 1 + q(N - 1);
      while ((int)who.size() < c)
        who.insert(q(N));
    };
    uint32_t fs = q.next();
    if (!kg)
    {
      r.d("group %zu: nothing", g);
      continue;
    }
    all({{A_FILL, 0, 0, fs, 0, 0, 0, 0}});
    bar();
    for (int i = 0; i < RS / 8; i++)
    {
      uint64_t v = (uint64_t)(i + 1) * 0x9e3779b97f4a7c15ull + fs;
      memcpy(&L[i * 8], &v, 8);
    }
    int steps = 1 + q(6);
    int dstep = N > 1 && q(3) == 0 ? (int)q(steps) : -1;
    int misuse = dstep < 0 && q(10) == 0 ? 1 + q(2) : 0;
    bool diverged = false;
    std::vector<int> outn(N, 0);
    auto look = [&](int cnt) {
      for (int c = 0; c < cnt; c++)
      {
        int k = q(N);
        bool loc = q(2);
        uint32_t a = q(RS);
        if (outn[k] >= NOUT || (loc ? stL : stG)[a] >= 2)
          continue;
        code[it[k]].push_back({{loc ? (uint32_t)A_LDL : (uint32_t)A_LDG, 0, 0,
                                loc ? a : gb + a, (uint32_t)outn[k], 0, 0, 0}});
        wout[it[k] * NOUT + outn[k]] = loc ? L[a] : gm[a];
        r.d("group %zu: item %d load %d = %s[%u]", g, it[k], outn[k], loc ? "L" : "G", a);
        outn[k]++;
      }
    };
    auto do_wait = [&](std::vector<int> list, int site, const std::string &how,
                       const std::set<int> &who) {
      Rec x = {{site ? (uint32_t)A_W2 : (uint32_t)A_W1, 0, 0, 0, 0,
                (uint32_t)list.size(), 0, 0}};
      for (size_t i = 0; i < list.size(); i++)
        x.v[3] |= list[i] << (4 * i);
      for (int k = 0; k < N; k++)
      {
        Rec y = x;
        if (who.count(k))
        {
          if (how == "skip-wait")
            continue;
          if (how == "wait-site")
            y.v[0] = A_W1 + A_W2 - y.v[0];
          else if (how == "wait-fewer")
            y.v[5]--;
          else if (how == "wait-event")
          { // another event, or none
            int i = list.size() - 1, alt = 4;
            for (int s2 = 0; s2 < NSLOT; s2++)
              if (slot_ev[s2] >= 0 && slot_ev[s2] != slot_ev[list[i]] && q(2))
                alt = s2;
            y.v[3] &= ~(15u << (4 * i));
            y.v[3] |= alt << (4 * i);
          }
          else if (how == "wait-order")
          {
            int i = list.size() - 1;
            uint32_t a = y.v[3] >> (4 * i) & 15, b = y.v[3] & 15;
            y.v[3] &= ~(15u << (4 * i)) & ~15u;
            y.v[3] |= b << (4 * i) | a;
          }
        }
        code[it[k]].push_back(y);
      }
      for (int s : list)
        for (auto &p : pend)
          if (p.second == slot_ev[s] && p.first.ev >= 0)
          {
            const Copy &c = p.first;
            const uint8_t *src = c.g2l ? gm : &L[0];
            uint8_t *dst = c.g2l ? &L[0] : gm;
            size_t sz = TYPES[c.type].size;
            for (uint32_t i = 0; i < c.num; i++)
              memcpy(dst + c.dst + i * c.dstep(), src + c.src + i * c.sstep(), sz);
            p.first.ev = -1;
            ncopies++;
          }
      std::vector<std::pair<Copy, int>> rest;
      for (auto &p : pend)
        if (p.first.ev >= 0)
          rest.push_back(p);
      pend = rest;
      std::fill(stL.begin(), stL.end(), 0);
      std::fill(stG.begin(), stG.end(), 0);
      for (auto &p : pend)
      {
        p.first.each(false, [&](size_t b) { uint8_t &s = (p.first.g2l ? stG : stL)[b]; s |= 1; });
        p.first.each(true, [&](size_t b) { (p.first.g2l ? stL : stG)[b] |= 2; });
      }
      std::set<int> live;
      for (auto &p : pend)
        live.insert(p.second);
      for (int s = 0; s < NSLOT; s++)
        if (!live.count(slot_ev[s]))
          slot_ev[s] = -1;
    };
    auto wait_some = [&](bool everything, const std::string &how,
                         const std::set<int> &who) {
      std::vector<int> c;
      for (int s = 0; s < NSLOT; s++)
        if (slot_ev[s] >= 0)
          c.push_back(s);
      for (size_t i = c.size(); i > 1; i--)
        std::swap(c[i - 1], c[q(i)]);
      if (!everything && !c.empty())
        c.resize(1 + q(c.size()));
      if (c.empty())
        return;
      do_wait(c, q(2), how, who);
    };
    for (int st = 0; st < steps; st++)
    {
      bool dv = st == dstep;
      bool k1 = r.keep();
      if (!k1)
        continue;
      // some items store somewhere
      int ns = q(4);
      std::set<std::pair<bool, uint32_t>> stored;
      if (ns)
        bar();
      for (int c = 0; c < ns; c++)
      {
        int k = q(N);
        bool loc = q(2);
        uint32_t a = q(RS), v = q.next() & 255;
        if ((loc ? stL : stG)[a] || !stored.insert({loc, a}).second)
          continue;
        code[it[k]].push_back({{loc ? (uint32_t)A_STL : (uint32_t)A_STG, 0, 0,
                                loc ? a : gb + a, v, 0, 0, 0}});
        (loc ? L[a] : gm[a]) = v;
      }
      if (ns)
        bar();
      int nc = 1 + q(3);
      std::string how;
      std::set<int> who;
      int dcopy = -1;
      if (dv)
      {
        static const char *HOW[] = {"num", "dst", "src", "stride", "type", "dir",
                                    "site", "missing", "extra", "skip-wait",
                                    "wait-site", "wait-fewer", "wait-order",
                                    "wait-event"};
        how = HOW[q(14)];
        pick_items(who);
        dcopy = q(nc);
      }
      for (int c = 0; c < nc; c++)
      {
        Copy cp;
        bool ok = false;
        for (int t = 0; t < 20 && !ok; t++)
        {
          cp = random_copy(q);
          ok = !(dv && c == dcopy && how == "stride" && (!cp.strided || (t < 10 && cp.g2l == (who.size() + nc) % 2)));
          cp.each(false, [&](size_t b) { if ((cp.g2l ? stG : stL)[b] & 2) ok = false; });
          cp.each(true, [&](size_t b) { if ((cp.g2l ? stL : stG)[b]) ok = false; });
        }
        if (!ok)
          continue;
        // free slot or chain onto a pending event
        std::vector<int> fr, us;
        for (int s = 0; s < NSLOT; s++)
          (slot_ev[s] < 0 ? fr : us).push_back(s);
        int slot, chain = 4;
        if (!us.empty() && (fr.empty() || q(3) == 0 ||
                            (c == dcopy && (how == "missing" || how == "extra"))))
        {
          chain = q.pick(us);
          slot = q(3) || fr.empty() ? chain : q.pick(fr);
          cp.ev = slot_ev[chain];
        }
        else
        {
          slot = q.pick(fr);
          cp.ev = nev++;
        }
        int site = q(2);
        Copy alt = cp;
        int asite = site;
        bool differs = false;
        if (dv && c == dcopy)
        {
          unsigned sz = TYPES[cp.type].size;
          // one more or one less, whatever fits
          auto vary = [&](uint32_t &x, uint32_t by) {
            uint32_t old = x;
            bool up = q(2);
            for (int t = 0; t < 2; t++, up = !up)
            {
              x = up ? old + by : old - by;
              if (x <= 1000000 && alt.num <= 1000 && alt.dst <= (uint32_t)RS &&
                  alt.src <= (uint32_t)RS && alt.fits() && (alt.g2l || alt.stride))
                break;
            }
          };
          if (how == "num")
            vary(alt.num, 1);
          else if (how == "dst")
            vary(alt.dst, sz);
          else if (how == "src")
            vary(alt.src, sz);
          else if (how == "stride" && cp.strided)
            vary(alt.stride, 1);
          else if (how == "type")
          {
            for (int t = 0; t < 10; t++)
            {
              alt.type = q(NT);
              if (TYPES[alt.type].size != sz)
                break;
            }
          }
          else if (how == "dir" && cp.g2l)
            alt.g2l = !cp.g2l;
          else if (how == "site")
            asite = !site;
          else if ((how == "missing" || how == "extra") && chain != 4)
            ;
          else
            how = how.compare(0, 4, "wait") && how != "skip-wait" ? "site" : how,
            asite = how == "site" ? !site : site;
          if (how != "site" && how != "missing" && how != "extra" &&
              how.compare(0, 4, "wait") && how != "skip-wait" &&
              (alt.num > 1000 || alt.dst > (uint32_t)RS || alt.src > (uint32_t)RS ||
               !alt.fits() ||
               (how == "type" && TYPES[alt.type].size == sz)))
          {
            alt = cp;
            how = "site";
            asite = !site;
          }
          differs = how.compare(0, 4, "wait") && how != "skip-wait";
          if (differs)
          {
            expect[g] = "async copy";
            diverged = true;
            r.d("group %zu: %zu of %d items diverge: %s", g, who.size(), N, how.c_str());
          }
        }
        r.d("group %zu step %d: %s%s %s num %u stride %u dst %u src %u slot %d%s", g, st,
            cp.strided ? "strided " : "", TYPES[cp.type].name,
            cp.g2l ? "global->local" : "local->global", cp.num, cp.stride, cp.dst,
            cp.src, slot, chain == 4 ? "" : " chained");
        for (int k = 0; k < N; k++)
        {
          bool me = differs && who.count(k);
          if (me && how == "missing")
            continue;
          if (differs && how == "extra" && !me)
            continue;
          // a chained copy must leave the item's own variables alike
          code[it[k]].push_back((me ? alt : cp).rec(me ? asite : site, slot, chain, gb));
        }
        if (differs && (how == "missing" || how == "extra"))
        {
          // the items that did not copy still know the event
          slot_ev[slot] = cp.ev;
          pend.push_back({cp, cp.ev});
          if (slot != chain)
            for (int k = 0; k < N; k++)
              if ((how == "missing") == (bool)who.count(k))
                ; // their slot keeps a stale event: waits on it may diverge too
          break;
        }
        slot_ev[slot] = cp.ev;
        pend.push_back({cp, cp.ev});
        cp.each(false, [&](size_t b) { (cp.g2l ? stG : stL)[b] |= 1; });
        cp.each(true, [&](size_t b) { (cp.g2l ? stL : stG)[b] |= 2; });
        if (q(3) == 0)
          look(2);
      }
      if (dv && !diverged)
      {
        // disagree about the wait
        std::set<int> evs;
        std::vector<int> c;
        for (int s = 0; s < NSLOT; s++)
          if (slot_ev[s] >= 0 && evs.insert(slot_ev[s]).second)
            c.push_back(s);
        if (!c.empty())
        {
          for (size_t i = c.size(); i > 1; i--)
            std::swap(c[i - 1], c[q(i)]);
          c.resize(1 + q(c.size()));
          if (how != "skip-wait" && how != "wait-event" &&
              (c.size() < 2 || how.compare(0, 4, "wait")))
            how = "wait-site";
          expect[g] = "barrier";
          diverged = true;
          r.d("group %zu: %zu of %d items diverge: %s (%zu events)", g, who.size(),
              N, how.c_str(), c.size());
          do_wait(c, q(2), how, who);
          bar();
        }
      }
      else if (diverged && dv)
        wait_some(true, "", {});
      else if (q(3))
        wait_some(q(2), "", {});
      look(q(4));
      if (q(2))
        bar();
    }
    wait_some(true, "", {});
    look(4);
    bar();
    if (misuse == 1)
    {
      Copy cp = random_copy(q);
      cp.ev = nev++;
      all(cp.rec(q(2), q(NSLOT), 4, gb));
      expect[g] = "without waiting";
      if (!cp.g2l)
        skip[g] = true;
      r.d("group %zu: copy without a wait", g);
    }
    else if (misuse == 2)
    {
      all({{A_W1, 0, 0, 4, 0, 1, 0, 0}});
      expect[g] = "Invalid wait event";
      r.d("group %zu: wait for no event", g);
    }
    if (diverged)
      skip[g] = true;
  }
  std::vector<Rec> prog;
  std::vector<uint32_t> start;
  for (auto &c : code)
  {
    start.push_back(prog.size());
    prog.insert(prog.end(), c.begin(), c.end());
    prog.push_back({{A_END, 0, 0, 0, 0, 0, 0, 0}});
  }
  int workers = 1 + q(5);
  r.d("workers=%d", workers);
  obs_start(1 << OB_LOG);
  krun_begin(r, workers);
  cl_int e;
  cl_command_queue cq = clCreateCommandQueue(CTX, g_device, 0, &e);
  r.require_cl(e, CL_SUCCESS, "clCreateCommandQueue");
  cl_kernel k = clCreateKernel(PRG[opt], "ak", &e);
  r.require_cl(e, CL_SUCCESS, "clCreateKernel");
  auto mk = [&](size_t s, const void *p) {
    cl_mem m = clCreateBuffer(CTX, CL_MEM_COPY_HOST_PTR, s, (void *)p, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
    return m;
  };
  cl_mem mg = mk(G.size(), G.data()), mp = mk(prog.size() * sizeof(Rec), prog.data()),
         ms = mk(start.size() * 4, start.data()), mo = mk(out.size(), out.data());
  clSetKernelArg(k, 0, sizeof mg, &mg);
  clSetKernelArg(k, 1, sizeof mp, &mp);
  clSetKernelArg(k, 2, sizeof ms, &ms);
  clSetKernelArg(k, 3, sizeof mo, &mo);
  r.require_cl(clSetKernelArg(k, 4, RS, NULL), CL_SUCCESS, "clSetKernelArg");
  r.require_cl(clEnqueueNDRangeKernel(cq, k, n.dims, n.off, n.gs, n.ls, 0, NULL, NULL),
               CL_SUCCESS, "clEnqueueNDRangeKernel");
  r.require_cl(clFinish(cq), CL_SUCCESS, "clFinish");
  clEnqueueReadBuffer(cq, mg, CL_TRUE, 0, G.size(), G.data(), 0, NULL, NULL);
  clEnqueueReadBuffer(cq, mo, CL_TRUE, 0, out.size(), out.data(), 0, NULL, NULL);
  r.end();
  obs_stop();
  std::vector<std::vector<std::string>> got(NG);
  for (auto &m : g_logs)
  {
    unsigned long a, b, c;
    size_t p = m.find("Work-group: (");
    bool ok = p != std::string::npos &&
              sscanf(m.c_str() + p, "Work-group: (%lu,%lu,%lu)", &a, &b, &c) == 3;
    if (!ok)
    {
      p = m.find("Group(");
      ok = p != std::string::npos &&
           sscanf(m.c_str() + p, "Group(%lu,%lu,%lu)", &a, &b, &c) == 3;
    }
    size_t g = ok ? a + n.ng[0] * (b + n.ng[1] * c) : NG;
    if (g >= NG || expect[g].empty())
      r.fail("unexpected-message", "%.500s", m.c_str());
    got[g].push_back(m);
  }
  for (size_t g = 0; g < NG; g++)
  {
    if (expect[g].empty())
    {
      r.stat("conforming_groups");
    }
    else
    {
      bool found = false;
      for (auto &m : got[g])
        if (m.find(expect[g]) != std::string::npos)
          found = true;
      if (!found)
        r.fail("divergence", "group %zu: no '%s' diagnostic among %zu messages",
               g, expect[g].c_str(), got[g].size());
      if (!skip[g] && got[g].size() != 1)
        r.fail("divergence", "group %zu: %zu messages for one misuse: %.300s", g,
               got[g].size(), got[g][1].c_str());
      r.stat("diagnosed_groups");
    }
    if (skip[g])
      continue;
    for (int i = 0; i < RS; i++)
      if (G[g * RS + i] != want[g * RS + i])
        r.fail("memory", "group %zu: global byte %d is %02x, reference %02x", g, i,
               G[g * RS + i], want[g * RS + i]);
  }
  for (size_t g = 0; g < NG; g++)
    if (expect[g].empty() || !skip[g])
      for (int i : n.group_items(g))
        for (int o = 0; o < NOUT; o++)
          if (out[i * NOUT + o] != wout[i * NOUT + o])
            r.fail("result", "work-item %d: load %d returned %02x, reference %02x", i,
                   o, out[i * NOUT + o], wout[i * NOUT + o]);
  r.stat("async_copies", ncopies);
  r.nontrivial(fnv(prog.data(), prog.size() * sizeof(Rec)));
}

static RegWorkload reg("async", setup, run);

} // namespace
