// C07: memory checker.  Random programs of valid and invalid accesses; the
// diagnostics of every work-item and group must be exactly those the accesses
// call for, rejected accesses must have no effect, everything else must work.
#include "kern.h"
#include <sys/mman.h>

namespace
{

static const char *SRC = R"CLC(
#pragma OPENCL EXTENSION cl_khr_int64_base_atomics : enable
typedef struct { uint u[6]; } S24;
constant uint KT[8] = {11, 22, 33, 44, 55, 66, 77, 88};
#define OFF(o) ((long)(int)(o).z + ((long)(int)(o).w << 32))
#define LDS(B, SP, X) \
  case B + 0: r[d] = *(SP uchar*)(X + OFF(o)); break; \
  case B + 1: r[d] = *(SP ushort*)(X + OFF(o)); break; \
  case B + 2: r[d] = *(SP uint*)(X + OFF(o)); break; \
  case B + 3: { ulong v = *(SP ulong*)(X + OFF(o)); r[d] = (uint)v ^ (uint)(v >> 32); break; } \
  case B + 4: { uint4 v = *(SP uint4*)(X + OFF(o)); r[d] = v.x + 3 * v.y + 5 * v.z + 7 * v.w; break; } \
  case B + 5: { uint3 v = vload3(0, (SP uint*)(X + OFF(o))); r[d] = v.x + 3 * v.y + 5 * v.z; break; } \
  case B + 6: { S24 s = *(SP S24*)(X + OFF(o)); r[d] = s.u[0] + 2 * s.u[1] + 3 * s.u[2] + 4 * s.u[3] + 5 * s.u[4] + 6 * s.u[5]; break; }
#define STS(B, SP, X) \
  case B + 8: *(SP uchar*)(X + OFF(o)) = r[d]; break; \
  case B + 9: *(SP ushort*)(X + OFF(o)) = r[d]; break; \
  case B + 10: *(SP uint*)(X + OFF(o)) = r[d]; break; \
  case B + 11: *(SP ulong*)(X + OFF(o)) = (ulong)r[d] | ((ulong)(r[d] * 7) << 32); break; \
  case B + 12: *(SP uint4*)(X + OFF(o)) = (uint4)(r[d], r[d] + 1, r[d] + 2, r[d] + 3); break; \
  case B + 13: vstore3((uint3)(r[d], r[d] + 1, r[d] + 2), 0, (SP uint*)(X + OFF(o))); break; \
  case B + 14: { S24 s; for (int i = 0; i < 6; i++) s.u[i] = r[d] + i; *(SP S24*)(X + OFF(o)) = s; break; }
#define ATS(B, SP, X) \
  case B + 16: r[d] = atomic_add((volatile SP uint*)(X + OFF(o)), r[e]); break; \
  case B + 17: r[d] = atomic_cmpxchg((volatile SP uint*)(X + OFF(o)), r[e], r[f]); break; \
  case B + 18: r[d] = atomic_xchg((volatile SP uint*)(X + OFF(o)), r[e]); break; \
  case B + 19: r[d] = atomic_max((volatile SP uint*)(X + OFF(o)), r[e]); break;
private uint *dangling(void) { uint q[2]; q[0] = 1; q[1] = 2; private uint * volatile p = q; return p; }
kernel void memk(global const uint4 *prog, global const uint *start,
                 global uchar *A, global uchar *RO, global uchar *WO,
                 global uchar *M, global uchar *NUL, constant uchar *C,
                 local uchar *L, global uint *X, local uint *LX,
                 global ulong *base, global uint *out)
{
  uint r[8]; uint PW[8]; uint PA[8]; uint P2[4][2]; local uint SLA[32];
  for (int i = 0; i < 8; i++) { r[i] = 0; PW[i] = 50 + i; PA[i] = 70 + i; P2[i >> 1][i & 1] = 90 + i; }
  private uchar *P = (private uchar*)PW;
  event_t ev;
  size_t item = (get_global_id(0) - get_global_offset(0)) + get_global_size(0) *
    ((get_global_id(1) - get_global_offset(1)) + get_global_size(1) *
     (get_global_id(2) - get_global_offset(2)));
  uint lin = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));
  for (int i = 0; i < 16; i++) L[lin * 16 + i] = 0;
  SLA[lin & 31] = 30 + lin;
  if (lin == 0) for (int i = 0; i < 8; i++) LX[i] = 100 + i;
  barrier(CLK_LOCAL_MEM_FENCE);
  global ulong *bs = base + item * 12;
  bs[0] = (ulong)A; bs[1] = (ulong)RO; bs[2] = (ulong)WO; bs[3] = (ulong)M;
  bs[4] = (ulong)NUL; bs[5] = (ulong)C; bs[6] = (ulong)L; bs[7] = (ulong)P;
  bs[8] = (ulong)X; bs[9] = (ulong)LX; bs[10] = (ulong)SLA; bs[11] = (ulong)PA;
  base += get_global_size(0) * get_global_size(1) * get_global_size(2) * 12;
  base[item * 2] = (ulong)P2; base[item * 2 + 1] = (ulong)KT;
  uint pc = start[item];
  bool run = true;
  while (run)
  {
    uint4 o = prog[pc++];
    uint d = o.y & 7, e = (o.y >> 4) & 7, f = (o.y >> 8) & 7;
    switch (o.x)
    {
    case 0: run = false; break;
    case 1: r[d] = o.z; break;
    case 2: r[d] = r[e] * 31 + r[f] + 1; break;
    case 3: barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE); break;
    case 4: ev = async_work_group_strided_copy(LX + (int)o.z, X + (int)o.w, (size_t)(o.y & 0xff), (size_t)(o.y >> 8), 0);
            wait_group_events(1, &ev); break;
    case 5: ev = async_work_group_strided_copy(X + (int)o.w, LX + (int)o.z, (size_t)(o.y & 0xff), (size_t)(o.y >> 8), 0);
            wait_group_events(1, &ev); break;
    case 6: r[d] = PA[(int)o.z]; break;
    case 7: PA[(int)o.z] = r[d]; break;
    case 8: r[d] = P2[(int)o.z][(int)o.w]; break;
    case 9: P2[(int)o.z][(int)o.w] = r[d]; break;
    case 10: r[d] = SLA[(int)o.z]; break;
    case 11: SLA[(int)o.z] = r[d]; break;
    case 12: r[d] = KT[(int)o.z]; break;
    case 13: { private uint *q = dangling(); r[d] = *q; break; }
    case 14: r[d] = LX[o.z]; break;
    LDS(100, global, A) STS(100, global, A) ATS(100, global, A)
    LDS(120, global, RO) STS(120, global, RO) ATS(120, global, RO)
    LDS(140, global, WO) STS(140, global, WO) ATS(140, global, WO)
    LDS(160, global, M) STS(160, global, M) ATS(160, global, M)
    LDS(180, global, NUL) STS(180, global, NUL) ATS(180, global, NUL)
    LDS(200, constant, C)
    LDS(220, local, L) STS(220, local, L) ATS(220, local, L)
    LDS(240, private, P) STS(240, private, P)
    default: break;
    }
  }
  for (int i = 0; i < 8; i++) out[item * 8 + i] = r[i];
}
)CLC";

static cl_context CTX;
static cl_program P12, P20;

static void setup(const std::string &)
{
  setenv("OCLGRIND_PLUGINS", BUILD_DIR "/libobs.so", 1);
  setenv("OCLGRIND_MAX_ERRORS", "5", 1);
  obs_hooks.threadsafe = 1;
  cl_setup_platform();
  CTX = cl_new_context();
  P12 = cl_build(CTX, SRC, "-cl-std=CL1.2 -cl-opt-disable");
  P20 = cl_build(CTX, SRC, "-cl-std=CL2.0 -cl-opt-disable");
}

enum Sp { A_, RO_, WO_, M_, NUL_, C_, L_, P_, X_, LX_, SLA_, PA_, P2_, KT_, NSP };
static const char *spname[NSP] = {"global", "global", "global", "global",
                                  "global", "global", "local", "private",
                                  "global", "local", "local", "private",
                                  "private", "global"};

struct Op
{
  uint32_t op, d, a, b;
};
// an expected message: text with the address left to be filled in
struct Exp
{
  std::string head;
  int sp = -1;
  int64_t off = 0;
  int item = 0;
  std::string cspace;
};

struct Region
{
  size_t off, size;
  cl_map_flags flags;
  void *ptr = NULL;
};

struct Store
{
  std::vector<uint8_t> v;
  std::vector<bool> poison;
  void init(size_t n, Rnd &q)
  {
    v.resize(n);
    for (auto &x : v)
      x = q.next();
    poison.assign(n, false);
  }
};

static const int tsize[7] = {1, 2, 4, 8, 16, 12, 24};
static const int talign[7] = {1, 2, 4, 8, 16, 1, 1};

static uint32_t fold(int t, const uint8_t *p)
{
  uint32_t u[6] = {0};
  memcpy(u, p, tsize[t]);
  switch (t)
  {
  case 0: return p[0];
  case 1: return u[0] & 0xffff;
  case 2: return u[0];
  case 3: return u[0] ^ u[1];
  case 4: return u[0] + 3 * u[1] + 5 * u[2] + 7 * u[3];
  case 5: return u[0] + 3 * u[1] + 5 * u[2];
  }
  return u[0] + 2 * u[1] + 3 * u[2] + 4 * u[3] + 5 * u[4] + 6 * u[5];
}
static void unfold(int t, uint32_t r, uint8_t *p)
{
  uint32_t u[6];
  switch (t)
  {
  case 0: case 1: case 2: u[0] = r; break;
  case 3: u[0] = r; u[1] = r * 7; break;
  default:
    for (int i = 0; i < 6; i++)
      u[i] = r + i;
  }
  memcpy(p, u, tsize[t]);
}

struct World
{
  NDR n;
  std::vector<std::vector<Op>> items;
  Store mem[NSP]; // global spaces only
  std::vector<Region> regions;
  bool ro_written = false;
};

static const int SL = 32;  // global slice per item
static const int LSL = 16; // local slice per item

static void run(Run &r)
{
  Rnd &q = r.rng;
  World w;
  NDR &n = w.n;
  do
    n = gen_ndr(q, 12, 6, true, true);
  while (n.ls[0] * n.ls[1] * n.ls[2] > 12);
  size_t items = n.items(), groups = n.groups();
  size_t lsz = n.ls[0] * n.ls[1] * n.ls[2] * LSL + q(6);
  size_t size[NSP] = {0};
  size[A_] = items * SL + q(8);
  size[RO_] = 20 + q(30);
  size[WO_] = items * SL + q(8);
  size[M_] = items * SL + q(8);
  size[C_] = 20 + q(30);
  size[L_] = lsz;
  size[P_] = 32;
  size[X_] = groups * 32;
  size[LX_] = 32;
  for (int s : {A_, RO_, WO_, M_, C_, X_})
    w.mem[s].init(size[s], q);
  Store init[NSP];
  for (int s = 0; s < NSP; s++)
    init[s] = w.mem[s];
  bool usehost = q(3) == 0;

  // map regions of M, disjoint starts
  int nreg = q(4);
  std::set<size_t> starts;
  for (int i = 0; i < nreg; i++)
  {
    Region g;
    g.off = q(2) ? q(items + 1) * SL : q(size[M_]);
    if (g.off >= size[M_])
      g.off = 0;
    g.size = q(2) ? SL : 1 + q(48);
    if (g.off + g.size > size[M_])
      g.size = size[M_] - g.off;
    int f = q(4);
    g.flags = f == 0   ? CL_MAP_READ
              : f == 1 ? CL_MAP_WRITE
              : f == 2 ? CL_MAP_READ | CL_MAP_WRITE
                       : CL_MAP_WRITE_INVALIDATE_REGION;
    if (!r.keep() || !starts.insert(g.off).second)
      continue;
    w.regions.push_back(g);
    r.d("map M [%zu,%zu) flags %lu", g.off, g.off + g.size, g.flags);
  }

  std::vector<Region> gone;
  for (int i = q(3); i > 0; i--)
  {
    Region g;
    g.off = q(size[M_]);
    g.size = 1 + q(size[M_] - g.off);
    g.flags = q(2) ? CL_MAP_READ : CL_MAP_WRITE;
    if (r.keep() && starts.insert(g.off).second)
    {
      gone.push_back(g);
      r.d("map and unmap M [%zu,%zu)", g.off, g.off + g.size);
    }
  }

  // programs
  w.items.resize(items);
  int phases = 1 + q(3);
  uint64_t p_bad = q(4) == 0 ? 0 : 10 + q(50);
  for (size_t g = 0; g < groups; g++)
  {
    std::vector<int> it = n.group_items(g);
    for (int ph = 0; ph < phases; ph++)
    {
      for (size_t k = 0; k < it.size(); k++)
      {
        int nop = q(7);
        for (int j = 0; j < nop; j++)
        {
          Op o = {0, 0, 0, 0};
          uint32_t d = q(8), e = q(8), f = q(8);
          o.d = d | e << 4 | f << 8;
          int kind = q(20);
          bool bad = q(100) < p_bad;
          if (kind < 3)
          {
            o.op = q(2) ? 1 : 2;
            o.a = q(3) ? q(100) : q.next();
          }
          else if (kind < 6)
          {
            int w4 = q(8);
            o.op = 6 + w4;
            if (o.op == 6 || o.op == 7 || o.op == 12)
            {
              o.a = q(8);
              if (bad)
                o.a = q(2) ? 8 + q(q(2) ? 3 : 1000) : -1 - q(q(2) ? 3 : 100);
            }
            else if (o.op == 8 || o.op == 9)
            {
              o.a = q(4);
              o.b = q(2);
              if (bad && q(3))
                o.b = q(2) ? 2 + q(8) : -1 - q(4);
              if (bad && q(2))
                o.a = q(2) ? 4 + q(4) : -1 - q(4);
            }
            else if (o.op == 10 || o.op == 11)
            {
              o.a = k;
              if (bad)
                o.a = q(2) ? 32 + q(q(2) ? 3 : 1000) : -1 - q(q(2) ? 3 : 100);
            }
          }
          else
          {
            int sp = q(8);
            int t = q(7);
            int acc = q(5); // 0,1 load, 2,3 store, 4 atomic
            if (sp == C_ || (sp == P_ && acc == 4))
              acc = 0;
            if (acc == 4 || (t == 5 && !n.uniform))
              t = 2; // vload3 needs generic pointers in CL2.0
            int at = q(4);
            size_t lo = 0, hi = 0;
            if (sp == A_ || sp == WO_ || sp == M_)
              lo = it[k] * SL, hi = lo + SL;
            else if (sp == L_)
              lo = k * LSL, hi = lo + LSL;
            else if (sp == P_)
              lo = 0, hi = 32;
            else if (sp == RO_ || sp == C_)
              lo = 0, hi = size[sp];
            int sz = tsize[t], al = acc == 4 ? 4 : talign[t];
            if (sp == RO_ && acc >= 2 && !bad)
              acc = 0;
            if (sp == WO_ && acc != 2 && acc != 3 && !bad)
              acc = 2;
            int64_t off;
            for (int tries = 0;; tries++)
            {
              if (sp == NUL_)
                off = q(3) ? q(200) : (int64_t)q(1 << 20) << q(20);
              else if (bad && tries < 8)
              {
                switch (q(6))
                {
                case 0: off = (int64_t)size[sp] - (int64_t)q(sz + 1); break;
                case 1: off = size[sp] + q(4); break;
                case 2: off = (int64_t)size[sp] + ((int64_t)q(1 << 20) << q(26)); break;
                case 3: off = -(int64_t)(1 + q(sz)); break;
                case 4: off = -(int64_t)(1 + q(1 << 20)) * (int64_t)(1 + q(1 << 20)); break;
                default: off = lo + q(hi - lo); break;
                }
              }
              else
              {
                if ((int64_t)hi - (int64_t)lo < sz)
                {
                  t = 2; sz = 4; al = 4;
                }
                off = lo + q(hi - lo - sz + 1);
              }
              if (acc == 4 || q(6))
                off &= ~(int64_t)(al - 1);
              bool valid = off >= 0 && off + sz <= (int64_t)size[sp];
              if (!valid)
                break;
              if (off >= (int64_t)lo && off + sz <= (int64_t)hi)
                break;
              // the unused tail may be read
              if (acc < 2 && (sp == A_ || sp == M_) &&
                  off >= (int64_t)items * SL)
                break;
            }
            if (sp == NUL_ && !bad)
              continue;
            static const uint32_t basei[8] = {100, 120, 140, 160, 180, 200, 220, 240};
            o.op = basei[sp] + (acc < 2 ? t : acc < 4 ? 8 + t : 16 + at);
            o.a = (uint32_t)off;
            o.b = (uint32_t)((off - (int64_t)(int32_t)off) >> 32);
          }
          if (!r.keep())
            continue;
          w.items[it[k]].push_back(o);
        }
      }
      // group phase
      int gp = q(3);
      if (gp && ph + 1 < phases + 1)
      {
        bool kp = r.keep();
        Op o = {3, 0, 0, 0};
        std::vector<Op> ops;
        if (kp)
          ops.push_back(o);
        if (gp == 2)
        {
          bool bad = q(100) < p_bad;
          bool g2l = q(2);
          int num = 1 + q(4), stride = 1 + q(3);
          int l = 0, x = 0;
          for (int tries = 0; tries < 40; tries++)
          {
            l = q(8);
            x = g * 8 + q(8);
            if (bad && q(2))
              l = q(2) ? 8 + (int)q(20) : -(int)(1 + q(20));
            if (bad && q(2))
              x = q(2) ? (int)groups * 8 + (int)q(20) : -(int)(1 + q(20));
            bool ok = true, oob = false;
            for (int i = 0; i < num; i++)
            {
              int xi = x + i * stride, li = l + i;
              bool xv = xi >= 0 && xi < (int)groups * 8;
              if (xv && (xi < (int)g * 8 || xi >= (int)g * 8 + 8))
                ok = false;
              if (!xv || li < 0 || li >= 8)
                oob = true;
            }
            if (ok && (bad || !oob))
              break;
            num = 1 + q(3);
            stride = 1 + q(2);
            l = 0;
            x = g * 8;
          }
          Op c = {g2l ? 4u : 5u, (uint32_t)(num | stride << 8), (uint32_t)l,
                  (uint32_t)x};
          if (r.keep() && kp)
          {
            ops.push_back(c);
            ops.push_back(o);
          }
        }
        for (int i : it)
          w.items[i].insert(w.items[i].end(), ops.begin(), ops.end());
      }
    }
    for (int i : it)
      w.items[i].push_back({14, (uint32_t)(q(8)), (uint32_t)q(8), 0});
  }
  for (size_t i = 0; i < items; i++)
    for (auto &o : w.items[i])
      r.d("item %zu: op %u d=0x%x a=%d b=%d", i, o.op, o.d, (int)o.a, (int)o.b);

  // reference execution: messages per entity and final memory
  std::map<std::string, std::vector<Exp>> want;
  std::vector<uint32_t> wout(items * 8);
  std::vector<bool> pout(items * 8, false);
  uint64_t nbad = 0;
  for (auto &it : w.items)
    for (auto &o : it)
    {
      bool st = (o.op >= 128 && o.op < 140);
      if (st)
        w.ro_written = true;
    }
  auto entity = [&](int item, size_t g) {
    char b[200];
    size_t gid[3];
    n.group_id(g, gid);
    if (item < 0)
    {
      snprintf(b, sizeof b, "Group(%zu,%zu,%zu)", gid[0], gid[1], gid[2]);
      return std::string(b);
    }
    size_t c[3] = {item % n.gs[0], item / n.gs[0] % n.gs[1],
                   item / n.gs[0] / n.gs[1]};
    size_t l[3];
    for (int i = 0; i < 3; i++)
      l[i] = c[i] - gid[i] * n.ls[i], c[i] += n.off[i];
    snprintf(b, sizeof b,
             "Global(%zu,%zu,%zu) Local(%zu,%zu,%zu) Group(%zu,%zu,%zu)", c[0],
             c[1], c[2], l[0], l[1], l[2], gid[0], gid[1], gid[2]);
    return std::string(b);
  };
  for (size_t g = 0; g < groups; g++)
  {
    std::vector<int> it = n.group_items(g);
    size_t N = it.size();
    struct St
    {
      uint32_t r[8] = {0};
      bool p[8] = {false};
      Store P, PA, P2;
      size_t pc = 0;
      bool done = false, at = false;
    };
    std::vector<St> st(N);
    Store L, LX, SLA;
    Rnd dummy(1);
    L.init(size[L_], dummy);
    std::fill(L.v.begin(), L.v.end(), 0);
    for (size_t i = N * LSL; i < L.v.size(); i++)
      L.poison[i] = true;
    LX.init(32, dummy);
    SLA.init(128, dummy);
    for (int i = 0; i < 8; i++)
    {
      uint32_t v = 100 + i;
      memcpy(&LX.v[i * 4], &v, 4);
    }
    for (size_t i = 0; i < 32; i++)
    {
      uint32_t v = 30 + i;
      memcpy(&SLA.v[i * 4], &v, 4);
    }
    for (size_t k = 0; k < N; k++)
    {
      auto ini = [&](Store &s, uint32_t b) {
        s.init(32, dummy);
        for (uint32_t i = 0; i < 8; i++)
        {
          uint32_t v = b + i;
          memcpy(&s.v[i * 4], &v, 4);
        }
      };
      ini(st[k].P, 50);
      ini(st[k].PA, 70);
      ini(st[k].P2, 90);
    }
    while (true)
    {
      for (size_t k = 0; k < N; k++)
      {
        St &s = st[k];
        int item = it[k];
        std::string me = entity(item, g);
        auto &code = w.items[item];
        auto msg = [&](const std::string &h, int sp = -1, int64_t off = 0) {
          Exp e;
          e.head = h;
          e.sp = sp;
          e.off = off;
          e.item = item;
          want[me].push_back(e);
          nbad++;
        };
        auto mem = [&](int sp) -> Store * {
          switch (sp)
          {
          case L_: return &L;
          case P_: return &s.P;
          case SLA_: return &SLA;
          case PA_: return &s.PA;
          case P2_: return &s.P2;
          case LX_: return &LX;
          case NUL_: return NULL;
          }
          return &w.mem[sp];
        };
        auto valid = [&](int sp, int64_t off, int sz) {
          Store *m = mem(sp);
          return m && off >= 0 && off + sz <= (int64_t)m->v.size();
        };
        auto ldcheck = [&](int sp, int64_t off, int sz) {
          if (!valid(sp, off, sz))
          {
            msg("Invalid read of size " + std::to_string(sz) + " at " +
                  spname[sp] + " memory address",
                sp, off);
            return false;
          }
          if (sp == WO_)
            msg("Invalid read from write-only buffer");
          if (sp == M_)
            for (auto &g : w.regions)
              if (!(g.flags == CL_MAP_READ) && off < (int64_t)(g.off + g.size) &&
                  off + sz > (int64_t)g.off)
                msg("Invalid read from buffer mapped for writing");
          return true;
        };
        auto stcheck = [&](int sp, int64_t off, int sz) {
          if (!valid(sp, off, sz))
          {
            msg("Invalid write of size " + std::to_string(sz) + " at " +
                  spname[sp] + " memory address",
                sp, off);
            return false;
          }
          if (sp == RO_)
            msg("Invalid write to read-only buffer");
          if (sp == M_)
            for (auto &g : w.regions)
              if (off < (int64_t)(g.off + g.size) && off + sz > (int64_t)g.off)
                msg("Invalid write to mapped buffer");
          return true;
        };
        auto load = [&](int sp, int64_t off, int sz, uint8_t *buf) {
          if (!ldcheck(sp, off, sz))
            return false;
          bool clean = !(sp == WO_) && !(sp == RO_ && w.ro_written);
          Store *m = mem(sp);
          memcpy(buf, &m->v[off], sz);
          for (int i = 0; i < sz; i++)
            if (m->poison[off + i])
              clean = false;
          return clean;
        };
        auto store = [&](int sp, int64_t off, int sz, const uint8_t *buf,
                         bool poison) {
          if (!stcheck(sp, off, sz))
            return;
          Store *m = mem(sp);
          memcpy(&m->v[off], buf, sz);
          for (int i = 0; i < sz; i++)
            m->poison[off + i] = poison;
        };
        while (!s.done && !s.at)
        {
          if (s.pc >= code.size())
          {
            s.done = true;
            for (int i = 0; i < 8; i++)
              wout[item * 8 + i] = s.r[i], pout[item * 8 + i] = s.p[i];
            break;
          }
          Op &o = code[s.pc];
          int d = o.d & 7, e = o.d >> 4 & 7, f = o.d >> 8 & 7;
          uint8_t buf[32] = {0};
          auto arr = [&](bool ld, int sp, int64_t off,
                         std::vector<std::pair<int64_t, int>> idx) {
            if (ld)
            {
              s.p[d] = !load(sp, off, 4, buf);
              memcpy(&s.r[d], buf, 4);
            }
            else
              store(sp, off, 4, (uint8_t *)&s.r[d], s.p[d]);
            for (auto &x : idx)
              if (x.first < 0 || x.first >= x.second)
                msg("Index (" + std::to_string(x.first) +
                    ") exceeds static array size (" + std::to_string(x.second) +
                    ")");
          };
          int64_t ia = (int32_t)o.a, ib = (int32_t)o.b;
          if (o.op == 3 || o.op == 4 || o.op == 5)
          {
            s.at = true;
            break;
          }
          s.pc++;
          switch (o.op)
          {
          case 1: s.r[d] = o.a; s.p[d] = false; break;
          case 2:
            s.r[d] = s.r[e] * 31 + s.r[f] + 1;
            s.p[d] = s.p[e] || s.p[f];
            break;
          case 6: arr(true, PA_, ia * 4, {{ia, 8}}); break;
          case 7: arr(false, PA_, ia * 4, {{ia, 8}}); break;
          case 8: arr(true, P2_, ia * 8 + ib * 4, {{ib, 2}, {ia, 4}}); break;
          case 9: arr(false, P2_, ia * 8 + ib * 4, {{ib, 2}, {ia, 4}}); break;
          case 10: arr(true, SLA_, ia * 4, {{ia, 32}}); break;
          case 11: arr(false, SLA_, ia * 4, {{ia, 32}}); break;
          case 12:
            if (ia >= 0 && ia < 8)
              s.r[d] = 11 * (ia + 1), s.p[d] = false;
            else
            {
              msg("Invalid read of size 4 at global memory address", KT_,
                  ia * 4);
              s.p[d] = true;
              arr(true, PA_, 0, {});
              s.p[d] = true;
              msg("Index (" + std::to_string(ia) +
                  ") exceeds static array size (8)");
            }
            break;
          case 13:
            msg("Invalid read of size 4 at private memory address", -2);
            s.p[d] = true;
            break;
          case 14:
            s.p[d] = !load(LX_, o.a * 4, 4, buf);
            memcpy(&s.r[d], buf, 4);
            break;
          default:
            if (o.op >= 100)
            {
              int sp = (o.op - 100) / 20, k2 = (o.op - 100) % 20;
              int64_t off = ia + (ib << 32);
              int t = k2 & 7;
              bool un = false;
              if (k2 == 17)
              {
                // outcome must be known for the expected messages
                Store *m = mem(sp);
                bool known = !s.p[e] && !s.p[f] &&
                             !(sp == RO_ && w.ro_written);
                if (valid(sp, off, 4))
                  for (int i = 0; i < 4; i++)
                    if (m->poison[off + i])
                      known = false;
                if (!known)
                {
                  o = {1, (uint32_t)d, 7, 0};
                  s.r[d] = 7;
                  s.p[d] = false;
                  break;
                }
              }
              // bases are at least 16-byte aligned
              if (k2 < 16 && (off & (talign[t] - 1)))
                un = true;
              if (k2 < 7)
              {
                if (un)
                  msg("Invalid memory load - source pointer is not aligned to "
                      "the pointed type");
                bool ok = load(sp, off, tsize[t], buf);
                s.r[d] = fold(t, buf);
                s.p[d] = !ok;
              }
              else if (k2 < 15)
              {
                if (un)
                  msg("Invalid memory store - source pointer is not aligned to "
                      "the pointed type");
                unfold(t, s.r[d], buf);
                store(sp, off, tsize[t], buf, s.p[d]);
              }
              else
              {
                bool ok = ldcheck(sp, off, 4);
                Store *m = mem(sp);
                uint32_t old = 0, nv;
                bool pold = true, wr = true;
                if (ok)
                {
                  memcpy(&old, &m->v[off], 4);
                  pold = m->poison[off] || m->poison[off + 1] ||
                         m->poison[off + 2] || m->poison[off + 3];
                }
                bool pn = pold || s.p[e];
                switch (k2)
                {
                case 16: nv = old + s.r[e]; break;
                case 17:
                  wr = ok && old == s.r[e];
                  pn = pold || s.p[e] || s.p[f];
                  nv = s.r[f];
                  break;
                case 18: nv = s.r[e]; pn = s.p[e]; break;
                default: nv = std::max(old, s.r[e]); break;
                }
                if (wr)
                {
                  if (stcheck(sp, off, 4))
                  {
                    memcpy(&m->v[off], &nv, 4);
                    for (int i = 0; i < 4; i++)
                      m->poison[off + i] = pn;
                  }
                }
                s.r[d] = old;
                s.p[d] = !ok || pold || sp == WO_ ||
                         (sp == RO_ && w.ro_written);
              }
            }
          }
        }
      }
      bool all = true;
      for (auto &s : st)
        if (!s.done)
          all = false;
      if (all)
        break;
      const Op &o = w.items[it[0]][st[0].pc];
      if (o.op != 3)
      {
        std::string me = entity(-1, g);
        int num = o.d & 0xff, stride = o.d >> 8;
        for (int i = 0; i < num; i++)
        {
          int64_t x = ((int32_t)o.b + i * stride) * 4, l = ((int32_t)o.a + i) * 4;
          bool g2l = o.op == 4;
          auto chk = [&](bool rd, int sp, int64_t off) {
            size_t sz = sp == X_ ? size[X_] : 32;
            if (off >= 0 && off + 4 <= (int64_t)sz)
              return true;
            Exp e;
            e.head = std::string("Invalid ") + (rd ? "read" : "write") +
                     " of size 4 at " + spname[sp] + " memory address";
            e.sp = sp;
            e.off = off;
            e.item = it[0];
            want[me].push_back(e);
            nbad++;
            return false;
          };
          int ss = g2l ? X_ : LX_, ds = g2l ? LX_ : X_;
          int64_t so = g2l ? x : l, dof = g2l ? l : x;
          Store &S = g2l ? w.mem[X_] : LX, &D = g2l ? LX : w.mem[X_];
          bool a = chk(true, ss, so), b = chk(false, ds, dof);
          if (b)
            for (int k = 0; k < 4; k++)
            {
              D.v[dof + k] = a ? S.v[so + k] : 0;
              D.poison[dof + k] = !a || S.poison[so + k];
            }
        }
        r.stat("async_copies");
      }
      for (auto &s : st)
        if (!s.done)
        {
          s.pc++;
          s.at = false;
        }
    }
  }
  int workers = 1 + q(6);
  r.d("workers=%d host_ptr=%d expected messages=%lu", workers, usehost, nbad);

  // the real thing
  std::vector<Op> code;
  std::vector<uint32_t> start;
  for (auto &it : w.items)
  {
    start.push_back(code.size());
    for (auto &o : it)
      code.push_back(o);
    code.push_back({0, 0, 0, 0});
  }
  std::vector<uint32_t> out(items * 8, 0xEEEEEEEE);
  std::vector<uint64_t> base(items * 14, 0);
  std::vector<uint8_t> hostA(size[A_] + 128, 0xA5);
  memcpy(&hostA[64], init[A_].v.data(), size[A_]);
  obs_start(1 << OB_LOG);
  set_threads(workers);
  r.begin();
  cl_int e;
  cl_command_queue cq = clCreateCommandQueue(CTX, g_device, 0, &e);
  cl_kernel k = clCreateKernel(n.uniform ? P12 : P20, "memk", &e);
  r.require_cl(e, CL_SUCCESS, "clCreateKernel");
  auto mk = [&](size_t sz, const void *p, cl_mem_flags f) {
    cl_mem m = clCreateBuffer(CTX, f, sz, (void *)p, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
    return m;
  };
  cl_mem_flags cp = CL_MEM_COPY_HOST_PTR;
  cl_mem mp = mk(code.size() * 16, code.data(), cp),
         ms = mk(start.size() * 4, start.data(), cp);
  cl_mem ma = usehost ? mk(size[A_], &hostA[64], CL_MEM_USE_HOST_PTR)
                      : mk(size[A_], init[A_].v.data(), cp);
  cl_mem mro = mk(size[RO_], init[RO_].v.data(), cp | CL_MEM_READ_ONLY);
  cl_mem mwo = mk(size[WO_], init[WO_].v.data(), cp | CL_MEM_WRITE_ONLY);
  cl_mem mm = mk(size[M_], init[M_].v.data(), cp);
  cl_mem mc = mk(size[C_], init[C_].v.data(), cp);
  cl_mem mx = mk(size[X_], init[X_].v.data(), cp);
  cl_mem mb = mk(base.size() * 8, base.data(), cp);
  cl_mem mo = mk(out.size() * 4, out.data(), cp);
  cl_mem args[] = {mp, ms, ma, mro, mwo, mm, NULL, mc};
  for (int i = 0; i < 8; i++)
    r.require_cl(clSetKernelArg(k, i, sizeof(cl_mem), args[i] ? &args[i] : NULL),
                 CL_SUCCESS, "clSetKernelArg");
  clSetKernelArg(k, 8, lsz, NULL);
  clSetKernelArg(k, 9, sizeof mx, &mx);
  clSetKernelArg(k, 10, 32, NULL);
  clSetKernelArg(k, 11, sizeof mb, &mb);
  r.require_cl(clSetKernelArg(k, 12, sizeof mo, &mo), CL_SUCCESS,
               "clSetKernelArg");
  for (auto &g : w.regions)
  {
    g.ptr = clEnqueueMapBuffer(cq, mm, CL_TRUE, g.flags, g.off, g.size, 0, NULL,
                               NULL, &e);
    r.require_cl(e, CL_SUCCESS, "clEnqueueMapBuffer");
    if (memcmp(g.ptr, &init[M_].v[g.off], g.size))
      r.fail("map", "mapped pointer does not show the buffer contents");
  }
  // regions that are mapped and unmapped again leave no trace
  for (auto &g : gone)
  {
    g.ptr = clEnqueueMapBuffer(cq, mm, CL_TRUE, g.flags, g.off, g.size, 0, NULL,
                               NULL, &e);
    r.require_cl(e, CL_SUCCESS, "clEnqueueMapBuffer");
    r.require_cl(clEnqueueUnmapMemObject(cq, mm, g.ptr, 0, NULL, NULL),
                 CL_SUCCESS, "clEnqueueUnmapMemObject");
  }
  r.require_cl(clFinish(cq), CL_SUCCESS, "clFinish");
  r.require_cl(clEnqueueNDRangeKernel(cq, k, n.dims, n.off, n.gs, n.ls, 0, NULL,
                                      NULL),
               CL_SUCCESS, "clEnqueueNDRangeKernel");
  r.require_cl(clFinish(cq), CL_SUCCESS, "clFinish");
  std::vector<uint8_t> got[NSP];
  auto rd = [&](cl_mem m, size_t sz, void *p) {
    r.require_cl(clEnqueueReadBuffer(cq, m, CL_TRUE, 0, sz, p, 0, NULL, NULL),
                 CL_SUCCESS, "clEnqueueReadBuffer");
  };
  std::pair<int, cl_mem> bufs[] = {{A_, ma}, {RO_, mro}, {WO_, mwo},
                                   {M_, mm}, {C_, mc},   {X_, mx}};
  for (auto &b : bufs)
  {
    got[b.first].resize(size[b.first]);
    rd(b.second, size[b.first], got[b.first].data());
  }
  rd(mo, out.size() * 4, out.data());
  rd(mb, base.size() * 8, base.data());
  std::vector<uint8_t> gp(code.size() * 16);
  rd(mp, gp.size(), gp.data());
  r.end();
  obs_stop();

  // diagnostics
  std::map<std::string, std::vector<std::string>> have;
  for (auto &m : g_logs)
  {
    size_t nl = m.find('\n'), en = m.find("Entity: ");
    if (en == std::string::npos || m.find("Kernel: memk\n") == std::string::npos)
      r.fail("unexpected-message", "%.400s", m.c_str());
    size_t ee = m.find('\n', en);
    have[m.substr(en + 8, ee - en - 8)].push_back(m.substr(0, nl));
  }
  for (auto &x : have)
    if (!want.count(x.first))
      r.fail("false-diagnostic", "unexpected diagnostic for %s: %s",
             x.first.c_str(), x.second[0].c_str());
  for (auto &x : want)
  {
    auto &h = have[x.first];
    for (size_t i = 0; i < std::max(h.size(), x.second.size()); i++)
    {
      std::string t = "nothing";
      if (i < x.second.size())
      {
        const Exp &ex = x.second[i];
        t = ex.head;
        if (ex.sp >= 0)
        {
          uint64_t b;
          static const int bi[NSP] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, -1, -2};
          if (bi[ex.sp] >= 0)
            b = base[ex.item * 12 + bi[ex.sp]];
          else
            b = base[items * 12 + ex.item * 2 + (-1 - bi[ex.sp])];
          char z[40];
          snprintf(z, sizeof z, " 0x%lx", b + ex.off);
          t += z;
        }
        else if (ex.sp == -2 && i < h.size() &&
                 h[i].compare(0, t.size(), t) == 0)
          t = h[i];
      }
      std::string a = i < h.size() ? h[i] : "nothing";
      if (a != t)
        r.fail(a == "nothing"   ? "missing-diagnostic"
               : t == "nothing" ? "false-diagnostic"
                                : "diagnostic",
               "%s: diagnostic %zu is '%s', expected '%s'", x.first.c_str(), i,
               a.c_str(), t.c_str());
    }
  }
  // memory
  for (auto &b : bufs)
  {
    int s = b.first;
    if (s == RO_ && w.ro_written)
      continue;
    for (size_t i = 0; i < size[s]; i++)
      if (!w.mem[s].poison[i] && got[s][i] != w.mem[s].v[i])
        r.fail("memory", "buffer %d byte %zu is 0x%x, reference 0x%x", s, i,
               got[s][i], w.mem[s].v[i]);
  }
  for (size_t i = 0; i < 64; i++)
    if (hostA[i] != 0xA5 || hostA[64 + size[A_] + i] != 0xA5)
      r.fail("corruption", "host memory next to the buffer changed");
  if (memcmp(gp.data(), code.data(), gp.size()))
    r.fail("corruption", "another buffer changed");
  for (size_t i = 0; i < out.size(); i++)
    if (!pout[i] && out[i] != wout[i])
      r.fail("result", "work-item %zu register %zu is 0x%x, reference 0x%x",
             i / 8, i % 8, out[i], wout[i]);
  r.stat("expected_messages", nbad);
  if (nbad)
    r.stat("runs_with_invalid_accesses");
  r.stat("mapped_regions", w.regions.size());
}
static RegWorkload reg("mem", setup, run);
} // namespace
