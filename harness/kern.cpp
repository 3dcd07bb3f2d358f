#include "kern.h"

const uint32_t KTAB[8] = {3, 1, 4, 1, 5, 9, 2, 6};
const char *KERN_SRC = R"CLC(
#pragma OPENCL EXTENSION cl_khr_int64_base_atomics : enable
#pragma OPENCL EXTENSION cl_khr_int64_extended_atomics : enable
#define OUTN 12
constant uint KT[8] = {3, 1, 4, 1, 5, 9, 2, 6};
typedef struct { uint a; uint b; uint c[2]; } pair_t;
pair_t step1(pair_t p) { p.a = p.a * 1664525u + 1013904223u; p.b++; p.c[p.b & 1] += p.a; return p; }
uint helper(uint x, uint n)
{
  pair_t p; p.a = x; p.b = 0; p.c[0] = 7; p.c[1] = 9;
  for (uint i = 0; i < n; i++) p = step1(p);
  return p.a ^ (p.c[0] + 3 * p.c[1]);
}
kernel void simk(global const uint4 *prog, global const uint *start,
                 global uint *G, global ulong *G8, global uint *out,
                 global uint *outr, local uint *L, local ulong *L8, uint nl)
{
  uint r[8]; uint P[8] __attribute__((aligned(16)));
  for (int i = 0; i < 8; i++) { r[i] = 0; P[i] = 0; }
  event_t ev[2];
  size_t item = (get_global_id(0) - get_global_offset(0)) + get_global_size(0) *
    ((get_global_id(1) - get_global_offset(1)) + get_global_size(1) *
     (get_global_id(2) - get_global_offset(2)));
  uint pc = start[item];
  bool run = true;
  while (run)
  {
    uint4 o = prog[pc++];
    uint d = o.y & 7, a = o.z, b = o.w;
    switch (o.x)
    {
    case 0: run = false; break;
    case 1: r[d] = G[a]; break;
    case 2: G[a] = r[d]; break;
    case 3: r[d] = L[a]; break;
    case 4: L[a] = r[d]; break;
    case 5: r[d] = a; break;
    case 6: r[d] = r[a & 7] * 31 + r[b & 7] + 1; break;
    case 7: P[a & 7] = r[d]; break;
    case 8: r[d] = P[a & 7]; break;
    case 9: r[d] = KT[r[a & 7] & 7]; break;
    case 10: r[d] = helper(r[a & 7], b); break;
    case 11: { uint4 v = *(private uint4*)(P + (a & 4)); v = v.wzyx * 3u + r[d];
               *(private uint4*)(P + (b & 4)) = v; r[d] = v.x ^ v.w; break; }
    case 12: barrier(CLK_LOCAL_MEM_FENCE); break;
    case 13: barrier(CLK_GLOBAL_MEM_FENCE); break;
    case 14: barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE); break;
    case 15: barrier(a); break;
    case 20: r[d] = atomic_add(G + a, b); break;
    case 21: r[d] = atomic_sub(G + a, b); break;
    case 22: r[d] = atomic_inc(G + a); break;
    case 23: r[d] = atomic_dec(G + a); break;
    case 24: r[d] = atomic_xchg(G + a, b); break;
    case 25: r[d] = atomic_cmpxchg(G + a, r[d], b); break;
    case 26: r[d] = atomic_min(G + a, b); break;
    case 27: r[d] = atomic_max(G + a, b); break;
    case 28: r[d] = atomic_and(G + a, b); break;
    case 29: r[d] = atomic_or(G + a, b); break;
    case 30: r[d] = atomic_xor(G + a, b); break;
    case 31: r[d] = (uint)atomic_min((global int*)(G + a), (int)b); break;
    case 32: r[d] = (uint)atomic_max((global int*)(G + a), (int)b); break;
    case 40: r[d] = atomic_add(L + a, b); break;
    case 41: r[d] = atomic_sub(L + a, b); break;
    case 42: r[d] = atomic_inc(L + a); break;
    case 43: r[d] = atomic_dec(L + a); break;
    case 44: r[d] = atomic_xchg(L + a, b); break;
    case 45: r[d] = atomic_cmpxchg(L + a, r[d], b); break;
    case 46: r[d] = atomic_min(L + a, b); break;
    case 47: r[d] = atomic_max(L + a, b); break;
    case 48: r[d] = atomic_and(L + a, b); break;
    case 49: r[d] = atomic_or(L + a, b); break;
    case 50: r[d] = atomic_xor(L + a, b); break;
    case 60: r[d] = (uint)atom_add(G8 + a, (ulong)b); break;
    case 61: r[d] = (uint)atom_xchg(G8 + a, (ulong)b); break;
    case 62: r[d] = (uint)atom_cmpxchg(G8 + a, (ulong)r[d], (ulong)b); break;
    case 63: r[d] = (uint)atom_max(G8 + a, (ulong)b); break;
    case 64: r[d] = (uint)atom_inc(G8 + a); break;
    case 70: ev[d & 1] = async_work_group_copy(L + (a & 0xffff), G + (a >> 16), b & 0xffff, 0); break;
    case 71: ev[d & 1] = async_work_group_copy(G + (a & 0xffff), L + (a >> 16), b & 0xffff, 0); break;
    case 72: ev[d & 1] = async_work_group_strided_copy(L + (a & 0xffff), G + (a >> 16), b & 0xffff, b >> 16, 0); break;
    case 73: ev[d & 1] = async_work_group_strided_copy(G + (a & 0xffff), L + (a >> 16), b & 0xffff, b >> 16, 0); break;
    case 74: wait_group_events(1, ev + (d & 1)); break;
    case 75: wait_group_events(2, ev); break;
    case 76: ev[d & 1] = async_work_group_copy(L + (a & 0xffff), G + (a >> 16), b & 0xffff, ev[d & 1]); break;
    case 80: printf("<%u:%u>\n", a, b); break;
    case 81: printf("<%d:%x:%c:%%:%s>\n", (int)a, b, 'k', "str"); break;
    case 82: printf("<%v4u:%v2u>\n", (uint4)(a, b, a + 1, b + 1), (uint2)(a, b)); break;
    case 83: printf("<plain text, no conversions at all>\n"); break;
    case 90: outr[item * OUTN + (a % OUTN)] = r[d]; break;
    case 95: __builtin_trap(); break;
    default: break;
    }
  }
  for (int i = 0; i < 8; i++) out[item * 8 + i] = r[i];
}

kernel void idk(global ulong *out, global uint *count)
{
  size_t item = (get_global_id(0) - get_global_offset(0)) + get_global_size(0) *
    ((get_global_id(1) - get_global_offset(1)) + get_global_size(1) *
     (get_global_id(2) - get_global_offset(2)));
  atomic_inc(count + item);
  global ulong *o = out + item * 28;
  for (uint i = 0; i < 3; i++)
  {
    o[i] = get_global_id(i);
    o[3 + i] = get_local_id(i);
    o[6 + i] = get_group_id(i);
    o[9 + i] = get_global_size(i);
    o[12 + i] = get_local_size(i);
    o[15 + i] = get_num_groups(i);
    o[18 + i] = get_global_offset(i);
#if __OPENCL_C_VERSION__ >= 200
    o[21 + i] = get_enqueued_local_size(i);
#else
    o[21 + i] = 0;
#endif
  }
  o[24] = get_work_dim();
#if __OPENCL_C_VERSION__ >= 200
  o[25] = get_global_linear_id();
  o[26] = get_local_linear_id();
#else
  o[25] = o[26] = 0;
#endif
  // dimensions beyond the last
  uint x = 3 + (item & 1) * 5;
  o[27] = 0xabcdef + get_global_id(x) + get_local_id(x) * 2 + get_group_id(x) * 4 +
    get_global_offset(x) * 8 + ((get_global_size(x) - 1) << 24) + ((get_local_size(x) - 1) << 32) +
    ((get_num_groups(x) - 1) << 40);
}
)CLC";

uint32_t khelper(uint32_t x, uint32_t n)
{
  uint32_t a = x, b = 0, c[2] = {7, 9};
  for (uint32_t i = 0; i < n; i++)
  {
    a = a * 1664525u + 1013904223u;
    b++;
    c[b & 1] += a;
  }
  return a ^ (c[0] + 3 * c[1]);
}

std::string kop_str(const KI &i)
{
  static const std::map<uint32_t, const char *> nm = {
    {K_END, "end"}, {K_LDG, "ldg"}, {K_STG, "stg"}, {K_LDL, "ldl"},
    {K_STL, "stl"}, {K_IMM, "imm"}, {K_MIX, "mix"}, {K_PST, "pst"},
    {K_PLD, "pld"}, {K_KT, "const"}, {K_CALL, "call"}, {K_VEC, "vec"},
    {K_BARL, "barrier(L)"}, {K_BARG, "barrier(G)"}, {K_BARLG, "barrier(LG)"},
    {K_BARX, "barrier(flags)"},
    {K_GA_ADD, "ga.add"}, {K_GA_SUB, "ga.sub"}, {K_GA_INC, "ga.inc"},
    {K_GA_DEC, "ga.dec"}, {K_GA_XCHG, "ga.xchg"}, {K_GA_CAS, "ga.cas"},
    {K_GA_MIN, "ga.min"}, {K_GA_MAX, "ga.max"}, {K_GA_AND, "ga.and"},
    {K_GA_OR, "ga.or"}, {K_GA_XOR, "ga.xor"}, {K_GA_IMIN, "ga.imin"},
    {K_GA_IMAX, "ga.imax"}, {K_LA_ADD, "la.add"}, {K_LA_SUB, "la.sub"},
    {K_LA_INC, "la.inc"}, {K_LA_DEC, "la.dec"}, {K_LA_XCHG, "la.xchg"},
    {K_LA_CAS, "la.cas"}, {K_LA_MIN, "la.min"}, {K_LA_MAX, "la.max"},
    {K_LA_AND, "la.and"}, {K_LA_OR, "la.or"}, {K_LA_XOR, "la.xor"},
    {K_G8_ADD, "g8.add"}, {K_G8_XCHG, "g8.xchg"}, {K_G8_CAS, "g8.cas"},
    {K_G8_MAX, "g8.max"}, {K_G8_INC, "g8.inc"}, {K_AS_GL, "async.g2l"},
    {K_AS_LG, "async.l2g"}, {K_ASS_GL, "asyncs.g2l"}, {K_ASS_LG, "asyncs.l2g"},
    {K_WAIT1, "wait1"}, {K_WAIT2, "wait2"}, {K_AS_GL_CHAIN, "async.chain"},
    {K_PRINT, "printf"}, {K_PRINT2, "printf2"}, {K_PRINTV, "printfv"},
    {K_PRINTS, "prints"}, {K_OUTR, "outr"}, {K_FATAL, "trap"}};
  char b[96];
  auto it = nm.find(i.op);
  snprintf(b, sizeof b, "%s d%u %u %u", it == nm.end() ? "?" : it->second, i.d,
           i.a, i.b);
  return b;
}

// --------------------------------------------------------------- ND-ranges
void NDR::group_id(size_t g, size_t *id) const
{
  id[0] = g % ng[0];
  id[1] = g / ng[0] % ng[1];
  id[2] = g / ng[0] / ng[1];
}
void NDR::group_size(size_t g, size_t *sz) const
{
  size_t id[3];
  group_id(g, id);
  for (int i = 0; i < 3; i++)
    sz[i] = std::min(ls[i], gs[i] - id[i] * ls[i]);
}
std::vector<int> NDR::group_items(size_t g) const
{
  size_t id[3], sz[3];
  group_id(g, id);
  group_size(g, sz);
  std::vector<int> v;
  for (size_t k = 0; k < sz[2]; k++)
    for (size_t j = 0; j < sz[1]; j++)
      for (size_t i = 0; i < sz[0]; i++)
        v.push_back((int)((id[0] * ls[0] + i) +
                          gs[0] * ((id[1] * ls[1] + j) +
                                   gs[1] * (id[2] * ls[2] + k))));
  return v;
}
NDR gen_ndr(Rnd &q, int max_items, int max_groups, bool nonuni, bool offs)
{
  while (true)
  {
    NDR n;
    n.dims = 1 + q(3);
    n.uniform = !nonuni || q(2);
    for (int i = 0; i < n.dims; i++)
    {
      n.ls[i] = 1 + q(n.dims == 1 ? 6 : 3);
      n.ng[i] = 1 + q(n.dims == 1 ? max_groups : 4);
      n.gs[i] = n.ls[i] * n.ng[i];
      if (!n.uniform && n.ls[i] > 1 && q(2))
        n.gs[i] -= q(n.ls[i]);
      if (offs && q(3) == 0)
        n.off[i] = q(4) ? q(20) : q(100000);
    }
    if ((int)n.groups() > max_groups || (int)n.items() > max_items)
      continue;
    return n;
  }
}

KDev kdev_setup()
{
  KDev d;
  d.ctx = cl_new_context();
  d.p12 = cl_build(d.ctx, KERN_SRC, "-cl-std=CL1.2");
  d.p20 = cl_build(d.ctx, KERN_SRC, "-cl-std=CL2.0");
  return d;
}

void krun_begin(Run &r, int workers)
{
  set_threads(workers);
  r.begin();
}

static cl_mem mkbuf(Run &r, cl_context c, size_t n, const void *p)
{
  cl_int e;
  cl_mem m = clCreateBuffer(c, CL_MEM_READ_WRITE | (p ? CL_MEM_COPY_HOST_PTR : 0),
                            n, (void *)p, &e);
  r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
  return m;
}

void kern_exec(Run &r, KDev &dev, const NDR &n, const KProg &p, KState &st,
               cl_event *evout)
{
  std::vector<KI> code;
  std::vector<uint32_t> start;
  for (auto &it : p.items)
  {
    start.push_back(code.size());
    for (auto &k : it)
      code.push_back(k);
    code.push_back({K_END, 0, 0, 0});
  }
  st.out.assign(n.items() * KREG, 0xEEEEEEEE);
  st.outr.assign(n.items() * OUTN, 0xEEEEEEEE);
  cl_int e;
  cl_command_queue q = clCreateCommandQueue(dev.ctx, g_device, 0, &e);
  r.require_cl(e, CL_SUCCESS, "clCreateCommandQueue");
  cl_kernel k = clCreateKernel(n.uniform ? dev.p12 : dev.p20, "simk", &e);
  r.require_cl(e, CL_SUCCESS, "clCreateKernel");
  cl_mem mp = mkbuf(r, dev.ctx, code.size() * sizeof(KI), code.data());
  cl_mem ms = mkbuf(r, dev.ctx, start.size() * 4, start.data());
  cl_mem mg = mkbuf(r, dev.ctx, st.G.size() * 4, st.G.data());
  cl_mem m8 = mkbuf(r, dev.ctx, st.G8.size() * 8, st.G8.data());
  cl_mem mo = mkbuf(r, dev.ctx, st.out.size() * 4, st.out.data());
  cl_mem mr = mkbuf(r, dev.ctx, st.outr.size() * 4, st.outr.data());
  uint32_t nl = LCELLS;
  clSetKernelArg(k, 0, sizeof mp, &mp);
  clSetKernelArg(k, 1, sizeof ms, &ms);
  clSetKernelArg(k, 2, sizeof mg, &mg);
  clSetKernelArg(k, 3, sizeof m8, &m8);
  clSetKernelArg(k, 4, sizeof mo, &mo);
  clSetKernelArg(k, 5, sizeof mr, &mr);
  clSetKernelArg(k, 6, LCELLS * 4, NULL);
  clSetKernelArg(k, 7, L8CELLS * 8, NULL);
  r.require_cl(clSetKernelArg(k, 8, 4, &nl), CL_SUCCESS, "clSetKernelArg");
  r.require_cl(clEnqueueNDRangeKernel(q, k, n.dims, n.off, n.gs, n.ls, 0, NULL,
                                      evout),
               CL_SUCCESS, "clEnqueueNDRangeKernel");
  r.require_cl(clFinish(q), CL_SUCCESS, "clFinish");
  r.require_cl(clEnqueueReadBuffer(q, mg, CL_TRUE, 0, st.G.size() * 4,
                                   st.G.data(), 0, NULL, NULL),
               CL_SUCCESS, "clEnqueueReadBuffer");
  clEnqueueReadBuffer(q, m8, CL_TRUE, 0, st.G8.size() * 8, st.G8.data(), 0,
                      NULL, NULL);
  clEnqueueReadBuffer(q, mo, CL_TRUE, 0, st.out.size() * 4, st.out.data(), 0,
                      NULL, NULL);
  clEnqueueReadBuffer(q, mr, CL_TRUE, 0, st.outr.size() * 4, st.outr.data(), 0,
                      NULL, NULL);
  clReleaseMemObject(mp);
  clReleaseMemObject(ms);
  clReleaseMemObject(mg);
  clReleaseMemObject(m8);
  clReleaseMemObject(mo);
  clReleaseMemObject(mr);
  clReleaseKernel(k);
  clReleaseCommandQueue(q);
}
