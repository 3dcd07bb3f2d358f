// C06: data race detector.  Random programs with racy, ordered and atomic
// accesses; the reported races must be exactly those a happens-before model of
// the work-items finds.
#include "model.h"

namespace
{

static KDev DEV;
static bool STRICT;

static void setup(const std::string &v)
{
  STRICT = v == "strict";
  setenv("OCLGRIND_DATA_RACES", "1", 1);
  if (STRICT)
    setenv("OCLGRIND_UNIFORM_WRITES", "1", 1);
  setenv("OCLGRIND_PLUGINS", BUILD_DIR "/libobs.so", 1);
  setenv("OCLGRIND_MAX_ERRORS", "5", 1);
  obs_hooks.threadsafe = 1;
  cl_setup_platform();
  DEV = kdev_setup();
}

static int op_line(uint32_t op)
{
  static std::map<uint32_t, int> m;
  if (m.empty())
  {
    int l = 1;
    const char *p = KERN_SRC;
    while (*p)
    {
      unsigned c;
      if (sscanf(p, "    case %u:", &c) == 1 && !m.count(c))
        m[c] = l;
      p = strchr(p, '\n');
      if (!p)
        break;
      p++;
      l++;
    }
  }
  return m[op];
}

struct Acc
{
  int ent;  // item, or -1-group for the group itself
  int group;
  int win;
  bool store, atomic;
  int val;  // stored byte, -1: unknown
  int line; // 0 for group entities
};

static bool strict_pair(const Acc &a, const Acc &b)
{
  if (a.ent == b.ent)
    return false;
  if (a.group == b.group && a.win != b.win)
    return false;
  return (a.store || b.store) && !(a.atomic && b.atomic);
}
// 0: no, 1: maybe, 2: yes
static int must_pair(const Acc &a, const Acc &b)
{
  if (!strict_pair(a, b))
    return 0;
  if (!a.store || !b.store || STRICT || a.atomic || b.atomic)
    return 2;
  if (a.val < 0 || b.val < 0)
    return 1;
  return a.val != b.val ? 2 : 0;
}

struct Rep
{
  bool global, ww;
  uint64_t off;
  int ent[2], line[2];
  int group;
};

static void run(Run &r)
{
  Rnd &q = r.rng;
  GenState s;
  GenOpts o;
  o.max_items = 12;
  o.max_groups = 6;
  gen_init(r, q, o, s);
  NDR &n = s.n;
  int NG = 6 + q(20), NL = 2 + q(6);
  s.st.G.assign(NG + 1, 0);
  for (auto &x : s.st.G)
    x = q(3) ? 0 : q.next();
  size_t gbytes = s.st.G.size() * 4;
  static const uint32_t vals[] = {0, 1, 5, 0x01010101, 0x05000005, 0xffffffff};
  int hot = 1 + q(3); // few cells shared by everyone
  bool sparse = q(2);
  std::map<uint64_t, std::vector<Acc>> gb;
  std::map<std::pair<int, uint64_t>, std::vector<Acc>> lb;

  for (size_t g = 0; g < n.groups(); g++)
  {
    std::vector<int> it = n.group_items(g);
    int phases = 1 + q(4);
    int gw = 0, lw = 0;
    for (int ph = 0; ph < phases; ph++)
    {
      for (size_t k = 0; k < it.size(); k++)
      {
        int nop = q(4);
        for (int j = 0; j < nop; j++)
        {
          bool local = q(3) == 0;
          uint32_t c = local    ? q(NL)
                       : q(3)   ? q(hot)
                       : sparse ? hot + it[k] % (NG - hot)
                                : q(NG);
          if (local && q(2))
            c = k % NL;
          int kind = q(10);
          uint32_t v = vals[q(6)];
          KI op;
          bool st = false, at = false;
          if (kind < 4)
            op = {local ? (uint32_t)K_LDL : (uint32_t)K_LDG, 0, c, 0};
          else if (kind < 8)
          {
            op = {local ? (uint32_t)K_STL : (uint32_t)K_STG, 1, c, 0};
            st = true;
          }
          else
          {
            static const uint32_t ga[] = {K_GA_ADD, K_GA_INC, K_GA_XCHG, K_GA_OR, K_GA_MAX};
            uint32_t a = ga[q(5)];
            op = {local ? a - K_GA_ADD + (uint32_t)K_LA_ADD : a, 0, c, v};
            at = true;
          }
          if (!r.keep())
            continue;
          auto &code = s.p.items[it[k]];
          if (st)
            code.push_back({K_IMM, 1, v, 0});
          code.push_back(op);
          for (int b = 0; b < 4; b++)
          {
            Acc a = {it[k], (int)g, local ? lw : gw, st, at,
                     (int)(v >> (8 * b) & 0xff), op_line(op.op)};
            auto &vec = local ? lb[{(int)g, c * 4 + b}] : gb[c * 4 + b];
            if (at)
            {
              a.store = false;
              vec.push_back(a);
              a.store = true;
              a.val = -1;
            }
            vec.push_back(a);
          }
        }
      }
      int sync = q(5);
      if (sync < 3)
      {
        if (!r.keep())
          continue;
        for (int i : it)
          s.p.items[i].push_back({(uint32_t)(K_BARL + sync), 0, 0, 0});
        if (sync != 1)
          lw++;
        if (sync != 0)
          gw++;
      }
      else if (sync == 3 && q(2))
      {
        // asynchronous copy by the group
        bool g2l = q(2);
        int num = 1 + q(2);
        uint32_t gc = q(NG - num), lc = q(NL - num + 1 > 0 ? NL - num + 1 : 1);
        if (lc + num > (uint32_t)NL)
          continue;
        if (!r.keep())
          continue;
        uint32_t dst = g2l ? lc : gc, src = g2l ? gc : lc;
        for (int i : it)
        {
          s.p.items[i].push_back({g2l ? (uint32_t)K_AS_GL : (uint32_t)K_AS_LG,
                                  0, dst | src << 16, (uint32_t)num | 1u << 16});
          s.p.items[i].push_back({K_WAIT1, 0, 0, 0});
        }
        for (int b = 0; b < num * 4; b++)
        {
          Acc a = {-1 - (int)g, (int)g, gw, !g2l, false, -1, 0};
          gb[gc * 4 + b].push_back(a);
          a.win = lw;
          a.store = g2l;
          lb[{(int)g, lc * 4 + b}].push_back(a);
        }
        lw++;
        gw++;
        r.stat("async_copies");
      }
    }
  }
  describe(r, s);
  int workers = 1 + q(6);
  r.d("workers=%d uniform_writes=%d", workers, (int)STRICT);
  KState got = s.st;
  obs_start(1 << OB_LOG | 1 << OB_ALLOC);
  krun_begin(r, workers);
  kern_exec(r, DEV, n, s.p, got);
  r.end();
  obs_stop();

  // third buffer that kern_exec creates
  uint64_t gbase = 0;
  int na = 0;
  for (auto &e : g_obs)
    if (e.kind == OB_ALLOC && ++na == 3)
    {
      gbase = e.a;
      if (e.b != gbytes)
        r.fail("harness", "unexpected allocation order");
    }

  // parse the reports
  std::vector<Rep> reps;
  for (auto &m : g_logs)
  {
    Rep p;
    char type[20], space[20];
    unsigned long addr;
    if (sscanf(m.c_str(), "%19s data race at %19s memory address 0x%lx", type,
               space, &addr) != 3 ||
        m.find("Kernel: simk\n") == std::string::npos)
      r.fail("unexpected-message", "%.300s", m.c_str());
    p.ww = !strcmp(type, "Write-write");
    if (!p.ww && strcmp(type, "Read-write"))
      r.fail("unexpected-message", "%.300s", m.c_str());
    p.global = !strcmp(space, "global");
    if (!p.global && strcmp(space, "local"))
      r.fail("unexpected-message", "%.300s", m.c_str());
    size_t f[2] = {m.find("First entity:  "), m.find("Second entity: ")};
    p.group = -1;
    for (int i = 0; i < 2; i++)
    {
      if (f[i] == std::string::npos)
        r.fail("unexpected-message", "%.300s", m.c_str());
      const char *t = m.c_str() + f[i] + 15;
      unsigned long a[9];
      if (sscanf(t, "Global(%lu,%lu,%lu) Local(%lu,%lu,%lu) Group(%lu,%lu,%lu)",
                 a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7,
                 a + 8) == 9)
      {
        size_t lin = 0, gl = 0;
        for (int d = 2; d >= 0; d--)
        {
          if (a[d] < n.off[d] || a[d] - n.off[d] >= n.gs[d] ||
              (a[d] - n.off[d]) / n.ls[d] != a[6 + d] ||
              (a[d] - n.off[d]) % n.ls[d] != a[3 + d])
            r.fail("race-entity",
                   "reported work-item does not exist: %.120s in a %zu,%zu,%zu "
                   "range of groups of %zu,%zu,%zu at offset %zu,%zu,%zu",
                   t, n.gs[0], n.gs[1], n.gs[2], n.ls[0], n.ls[1], n.ls[2],
                   n.off[0], n.off[1], n.off[2]);
          lin = lin * n.gs[d] + (a[d] - n.off[d]);
          gl = gl * n.ng[d] + a[6 + d];
        }
        p.ent[i] = lin;
        p.group = gl;
      }
      else if (sscanf(t, "Group(%lu,%lu,%lu)", a, a + 1, a + 2) == 3)
      {
        size_t gl = 0;
        for (int d = 2; d >= 0; d--)
        {
          if (a[d] >= n.ng[d])
            r.fail("race-entity", "reported work-group does not exist: %.80s",
                   t);
          gl = gl * n.ng[d] + a[d];
        }
        p.ent[i] = -1 - (int)gl;
        p.group = gl;
      }
      else
        r.fail("unexpected-message", "%.300s", m.c_str());
      size_t e = i == 0 ? f[1] : m.size();
      size_t at = m.find("At line ", f[i]);
      p.line[i] = at != std::string::npos && at < e ? atoi(m.c_str() + at + 8) : 0;
    }
    p.off = p.global ? addr - gbase : addr & 0xffffffffffffull;
    if (p.global && p.off >= gbytes)
      r.fail("false-race", "race reported outside the shared buffer: %.300s",
             m.c_str());
    reps.push_back(p);
  }
  auto bytes = [&](const Rep &p, uint64_t off) -> std::vector<Acc> & {
    return p.global ? gb[off] : lb[{p.group, off}];
  };
  auto explains = [&](const Rep &p, const std::vector<Acc> &v) {
    for (auto &a : v)
      for (auto &b : v)
        if (a.ent == p.ent[0] && b.ent == p.ent[1] && a.line == p.line[0] &&
            b.line == p.line[1] && strict_pair(a, b) &&
            (a.store && b.store) == p.ww)
          return true;
    return false;
  };
  auto must = [&](const std::vector<Acc> &v) {
    int m = 0;
    for (size_t i = 0; i < v.size(); i++)
      for (size_t j = 0; j < i; j++)
        m = std::max(m, must_pair(v[i], v[j]));
    return m;
  };
  for (auto &p : reps)
  {
    auto &v = bytes(p, p.off);
    if (!explains(p, v))
      r.fail("false-race",
             "reported %s race at %s byte %lu between entity %d (line %d) and "
             "entity %d (line %d), but those accesses do not race",
             p.ww ? "write-write" : "read-write", p.global ? "global" : "local",
             p.off, p.ent[0], p.line[0], p.ent[1], p.line[1]);
    if (!must(v))
      r.fail("false-race", "race reported at %s byte %lu where all writes agree",
             p.global ? "global" : "local", p.off);
  }
  uint64_t racy = 0;
  auto covered = [&](bool global, int group, uint64_t off,
                     const std::vector<Acc> &v) {
    if (must(v) < 2)
      return;
    racy++;
    for (auto &p : reps)
      if (p.global == global && (global || p.group == group) && p.off <= off &&
          explains(p, v))
        return;
    std::string t;
    for (auto &a : v)
    {
      char b[100];
      snprintf(b, sizeof b, " [entity %d group %d window %d %s%s val %d line %d]",
               a.ent, a.group, a.win, a.atomic ? "atomic " : "",
               a.store ? "store" : "load", a.val, a.line);
      t += b;
    }
    r.fail("missed-race", "race at %s byte %lu not reported:%s",
           global ? "global" : "local", off, t.c_str());
  };
  for (auto &x : gb)
    covered(true, -1, x.first, x.second);
  for (auto &x : lb)
    covered(false, x.first.first, x.first.second, x.second);
  r.stat("racy_bytes", racy);
  r.stat("reports", reps.size());
  r.stat(racy ? "racy_runs" : "race_free_runs");
  r.stat("groups", n.groups());
}
static RegWorkload reg("race", setup, run);
} // namespace
