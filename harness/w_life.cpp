// C18 API errors, C19 object lifetimes, C20 failing allocations.
//
// A single host thread performs a random history of create / retain / release
// / enqueue / query calls on every kind of object.  The model knows, for every
// object, whether something must or may still hold it.  The history is run
// twice in one simulation window, and the second iteration must leave exactly
// as many live heap blocks as it found.
#include "h.h"
#include <CL/cl_ext.h>
#include <memory>

namespace
{
typedef std::vector<uint8_t> Bytes;

static const char *SRC = R"CLC(
kernel void k_add(global uchar *b, uint add)
{
  b[get_global_id(0)] += add;
}
kernel void k_img(read_only image2d_t in, sampler_t s, global uint4 *out)
{
  out[get_global_id(0)] = read_imageui(in, s, (int2)(get_global_id(0), 0));
}
kernel void k_loc(global uint *b, local uint *tmp)
{
  tmp[get_local_id(0)] = b[get_local_id(0)];
  barrier(CLK_LOCAL_MEM_FENCE);
  b[get_local_id(0)] = tmp[1 - get_local_id(0)];
}
kernel void k_ibuf(read_only image1d_buffer_t in, global uint4 *out)
{
  out[get_global_id(0)] = read_imageui(in, (int)get_global_id(0));
}
)CLC";
static const char *SRCREQ = R"CLC(
kernel void __attribute__((reqd_work_group_size(2, 2, 1)))
k_req(global uint *b, constant uint *c, float4 f, local int *l)
{
  b[0] = c[0] + f.x + l[0];
}
)CLC";
static const char *SRCBIG = R"CLC(
kernel void k_big(global uint *b, local uint *tmp, uint n)
{
  local uint fixed[17000];
  fixed[get_local_id(0)] = b[get_local_id(0)];
  tmp[get_local_id(0)] = fixed[get_local_id(0)];
  barrier(CLK_LOCAL_MEM_FENCE);
  b[get_local_id(0)] = tmp[1 - get_local_id(0)];
}
void fill(uint *p, uint n)
{
  for (uint i = 0; i < n; i++) p[i] = i;
}
kernel void k_priv(global uint *b, uint n)
{
  uint big[17000];
  fill(big, n);
  b[get_global_id(0)] = big[n - 1 - get_global_id(0)];
}
)CLC";
static const char *KN[] = {"k_add", "k_img", "k_loc", "k_ibuf"};
static Bytes BIN, BINBIG, BINREQ;
static bool g_fault; // C20 variant
static bool g_api;   // C18: many invalid calls
static bool g_check; // OCLGRIND_CHECK_API

static Bytes binary(const char *src)
{
  cl_context c = cl_new_context();
  cl_program p = cl_build(c, src, "");
  size_t n = 0;
  clGetProgramInfo(p, CL_PROGRAM_BINARY_SIZES, sizeof n, &n, NULL);
  Bytes b(n);
  unsigned char *q = b.data();
  clGetProgramInfo(p, CL_PROGRAM_BINARIES, sizeof q, &q, NULL);
  clReleaseProgram(p);
  clReleaseContext(c);
  return b;
}

static void warm();
static void setup(const std::string &v)
{
  unsetenv("OCLGRIND_PLUGINS");
  setenv("OCLGRIND_LOCAL_MEM_SIZE", "262144", 1);
  cl_setup_platform();
  BIN = binary(SRC);
  BINBIG = binary(SRCBIG);
  BINREQ = binary(SRCREQ);
  warm();
}

enum OK { CTX, QUEUE, BUF, SUB, IMG, IBUF, SAMP, PROG, KERN, UEV, EV };
static const char *OKN[] = {"context", "queue",   "buffer", "sub-buffer",
                            "image",   "imgbuf",  "sampler", "program",
                            "kernel",  "userevent", "event"};

struct W;
struct Tok
{
  W *w;
  int obj, no;
};
struct Obj
{
  int kind = 0;
  void *h = NULL;
  int refs = 0; // application references
  std::vector<int> deps;
  int ctx = -1;
  // memory
  int root = -1;
  size_t org = 0, size = 0;
  size_t iw = 0, ih = 0;
  cl_mem_flags flags = 0;
  std::unique_ptr<Bytes> host; // USE_HOST_PTR storage
  Bytes cont;                  // root contents
  int home = -1;               // root: queue
  int maps = 0;                // mapped regions outstanding
  // kernel
  int kt = 0;
  std::map<int, int> margs; // memory / sampler arguments
  bool argset[3] = {false, false, false};
  uint32_t add = 0;
  // events
  int ustat = 0;
  bool uset = false;
  int cmd = -1;
  int ty = 0;
  // destructor callbacks
  int ncb = 0, fired = 0;
  std::vector<int> tok;
};
struct Cmd
{
  int q = -1;
  std::vector<int> holds; // objects held until complete
  std::vector<int> waits; // UEV / EV objects
  bool done = false, fails = false;
  std::unique_ptr<Bytes> dst, expect, src; // host memory of transfers
  int evcb = 0, evfired = 0;
};
struct ECB
{
  W *w;
  int cmd;
  int obj;
};
struct NArgs
{
  W *w;
  void *mem;
  uint32_t n, add;
};

struct W
{
  Run &r;
  bool first;
  uint64_t base;
  std::vector<std::unique_ptr<Obj>> o;
  std::vector<std::unique_ptr<Cmd>> c;
  std::vector<std::unique_ptr<Tok>> toks;
  std::vector<std::unique_ptr<ECB>> ecbs;
  std::vector<std::pair<int, int>> firing; // object, token number
  std::vector<int> notified;               // per context object
  std::string lastmsg;
  int opno = -1;
  bool quiet = false;

  W(Run &r, bool first) : r(r), first(first) {}

#define D(...)                                                                 \
  do                                                                           \
  {                                                                            \
    if (first)                                                                 \
      r.d(__VA_ARGS__);                                                        \
  } while (0)

  // ------------------------------------------------------------- liveness
  bool resolved(int ev) // event known to be final
  {
    if (o[ev]->kind == UEV)
      return o[ev]->uset;
    return c[o[ev]->cmd]->done;
  }
  bool blocked(int ci)
  {
    std::vector<int> seen(c.size(), 0);
    return blocked(ci, seen);
  }
  bool blocked(int ci, std::vector<int> &seen)
  {
    if (c[ci]->done)
      return false;
    if (seen[ci])
      return seen[ci] == 2;
    seen[ci] = 1;
    bool b = false;
    for (int e : c[ci]->waits)
      if (o[e]->kind == UEV ? !o[e]->uset : blocked(o[e]->cmd, seen))
        b = true;
    // in-order predecessors
    for (int p = ci - 1; p >= 0 && !b; p--)
      if (c[p]->q == c[ci]->q)
      {
        b = blocked(p, seen);
        break;
      }
    // an event that failed already makes the command final without waiting for
    // the rest of its wait list
    for (int e : c[ci]->waits)
      if (o[e]->kind == UEV ? o[e]->uset && o[e]->ustat < 0
                            : c[o[e]->cmd]->fails)
        b = false;
    seen[ci] = b ? 2 : 1;
    return b;
  }
  std::vector<bool> alive(bool may)
  {
    std::vector<bool> a(o.size(), false);
    for (size_t i = 0; i < c.size(); i++)
      if (!c[i]->done && (may || blocked(i)))
        for (int h : c[i]->holds)
          a[h] = true;
    for (int i = (int)o.size() - 1; i >= 0; i--)
    {
      if (o[i]->refs > 0)
        a[i] = true;
      if (a[i])
        for (int d : o[i]->deps)
          a[d] = true;
    }
    return a;
  }
  void check_destructors()
  {
    if (firing.size())
    {
      for (auto &f : firing)
      {
        Obj &x = *o[f.first];
        if (x.fired >= x.ncb)
          r.fail("callback", "op %d: extra destructor callback of %s %d", opno,
                 OKN[x.kind], f.first);
        if (f.second != x.tok[x.ncb - 1 - x.fired])
          r.fail("callback",
                 "op %d: destructor callback %d of %s %d ran out of order", opno,
                 f.second, OKN[x.kind], f.first);
        x.fired++;
      }
      firing.clear();
    }
    auto a = alive(true);
    for (size_t i = 0; i < o.size(); i++)
    {
      if (a[i])
      {
        continue;
      }
      if (o[i]->ncb != o[i]->fired)
        r.fail("callback",
               "op %d: %s %zu was destroyed but %d of its %d destructor "
               "callbacks ran",
               opno, OKN[o[i]->kind], i, o[i]->fired, o[i]->ncb);
      o[i]->h = NULL;
    }
  }
  void fired(Tok *t, void *h)
  {
    auto a = alive(false);
    Obj &x = *o[t->obj];
    if (a[t->obj])
      r.fail("early", "op %d: destructor callback of %s %d ran while it was in use",
             opno, OKN[x.kind], t->obj);
    if (h != x.h)
      r.fail("callback", "op %d: destructor callback of %s %d got another handle",
             opno, OKN[x.kind], t->obj);
    firing.push_back({t->obj, t->no});
  }

  // --------------------------------------------------------------- helpers
  std::vector<int> live(int kind, int ctx = -1)
  {
    std::vector<int> v;
    for (size_t i = 0; i < o.size(); i++)
      if (o[i]->kind == kind && o[i]->refs > 0 && (ctx < 0 || o[i]->ctx == ctx))
        v.push_back(i);
    return v;
  }
  template <class... K> std::vector<int> live_any(int ctx, K... k)
  {
    std::vector<int> v;
    for (int x : {k...})
    {
      auto l = live(x, ctx);
      v.insert(v.end(), l.begin(), l.end());
    }
    return v;
  }
  int pick(Rnd &q, const std::vector<int> &v) { return v.empty() ? -1 : q.pick(v); }
  int add(int kind, void *h, int ctx, std::vector<int> deps)
  {
    auto x = std::make_unique<Obj>();
    x->kind = kind;
    x->h = h;
    x->refs = 1;
    x->ctx = ctx;
    x->deps = deps;
    o.push_back(std::move(x));
    notified.push_back(0);
    return o.size() - 1;
  }
  Obj &rt(int m) { return *o[o[m]->root]; }
  uint8_t *bytes(int m) { return rt(m).cont.data() + o[m]->org; }
  void need(cl_int got, cl_int want, const char *what)
  {
    if (got != want)
      r.fail("result", "op %d: %s returned %d instead of %d", opno, what, got, want);
  }
  cl_context C(int i) { return (cl_context)o[i]->h; }
  cl_command_queue Q(int i) { return (cl_command_queue)o[i]->h; }
  cl_mem M(int i) { return (cl_mem)o[i]->h; }
  cl_event E(int i) { return (cl_event)o[i]->h; }
  cl_kernel K(int i) { return (cl_kernel)o[i]->h; }

  // a usable queue of the memory object
  int home(Rnd &q, int m)
  {
    Obj &x = rt(m);
    if (x.home >= 0 && o[x.home]->refs > 0)
      return x.home;
    if (x.home >= 0)
    {
      // the queue was released: it has been finished unless something is
      // still using it
      auto a = alive(true);
      if (a[x.home])
        return -1;
    }
    x.home = pick(q, live(QUEUE, x.ctx));
    return x.home;
  }
  // ------------------------------------------------------------ operations
  void op_context(Rnd &q);
  void op_queue(Rnd &q);
  void op_buffer(Rnd &q);
  void op_sub(Rnd &q);
  void op_image(Rnd &q);
  void op_ibuf(Rnd &q);
  void op_sampler(Rnd &q);
  void op_program(Rnd &q);
  void op_kernel(Rnd &q);
  void op_uev(Rnd &q);
  void op_enqueue(Rnd &q);
  void op_retain(Rnd &q);
  void op_release(Rnd &q, int x);
  void op_setu(Rnd &q, int x);
  void op_sync(Rnd &q);
  void op_query(Rnd &q);
  void op_dcb(Rnd &q);
  void op_ecb(Rnd &q);
  void op_invalid(Rnd &q);
  void set_all();
  void complete(int q);
  void complete_cmd(int ci);
  void check_done(int ci);
  void verify(int m, const uint8_t *p, const char *how);
  void run(uint64_t seed, const std::vector<bool> &keep);
  bool oom(cl_int e, void *h, const char *what, uint64_t before);
};

static void CL_CALLBACK mem_cb(cl_mem m, void *p)
{
  ((Tok *)p)->w->fired((Tok *)p, m);
}
static void CL_CALLBACK ctx_cb(cl_context m, void *p)
{
  ((Tok *)p)->w->fired((Tok *)p, m);
}
static void CL_CALLBACK notify_cb(const char *msg, const void *, size_t, void *p)
{
  Tok *t = (Tok *)p;
  t->w->notified[t->obj]++;
  t->w->lastmsg = msg;
}
static void CL_CALLBACK ev_cb(cl_event e, cl_int st, void *p)
{
  ECB *b = (ECB *)p;
  Cmd &c = *b->w->c[b->cmd];
  c.evfired++;
  cl_int s = 77;
  if (clGetEventInfo(e, CL_EVENT_COMMAND_EXECUTION_STATUS, sizeof s, &s, NULL) ||
      (s != 0 && s >= 0) || (st >= 0 ? st != 0 : st != s))
    b->w->r.fail("callback", "event callback with status %d, event status %d", st,
                 s);
}
static void CL_CALLBACK native(void *p)
{
  NArgs *a = (NArgs *)p;
  for (uint32_t i = 0; i < a->n; i++)
    ((uint8_t *)a->mem)[i] += a->add;
}

static void fault_on()
{
  if (g_fault)
    dsim_alloc_faults(1);
}
static void fault_off() { dsim_alloc_faults(0); }
static uint64_t faults()
{
  return dsim_fault_count(DF_ALLOC);
}

// returns true if the creation failed because of an injected fault
bool W::oom(cl_int e, void *h, const char *what, uint64_t before)
{
  bool f = faults() > before;
  if (f)
  {
    if (h || e != CL_MEM_OBJECT_ALLOCATION_FAILURE)
      r.fail("oom", "op %d: %s returned %p and error %d although its allocation failed",
             opno, what, h, e);
    r.stat("injected_failures");
    return true;
  }
  need(e, CL_SUCCESS, what);
  return false;
}

void W::op_context(Rnd &q)
{
  if (live(CTX).size() >= 2)
    return;
  cl_int e = 77;
  int id = o.size();
  auto t = std::make_unique<Tok>(Tok{this, id, 0});
    cl_context_properties props[] = {CL_CONTEXT_PLATFORM,
                                   (cl_context_properties)g_platform, 0};
  bool n = q.chance(0.6);
  int pr = q(3);
  static const cl_context_properties none[] = {0};
  const cl_context_properties *pp = pr == 0 ? NULL : pr == 1 ? props : none;
  cl_context c;
  bool ft = q.chance(0.3);
  if (ft)
    c = clCreateContextFromType(pp, CL_DEVICE_TYPE_ALL, n ? notify_cb : NULL,
                                n ? t.get() : NULL, &e);
  else
    c = clCreateContext(pp, 1, &g_device, n ? notify_cb : NULL,
                        n ? t.get() : NULL, &e);
  need(e, CL_SUCCESS, "clCreateContext");
  int i = add(CTX, c, -1, {});
  o[i]->ctx = i;
  o[i]->flags = n;
  o[i]->size = pr == 0 ? 0 : pr == 1 ? sizeof props : sizeof none;
  toks.push_back(std::move(t));
  D("op %d: context %d notify %d props %d type %d\n", opno, i, n, pr, ft);
}
void W::op_queue(Rnd &q)
{
  int x = pick(q, live(CTX));
  if (x < 0 || live(QUEUE, x).size() >= 3)
    return;
  cl_int e = 77;
  cl_command_queue h;
  int how = q(3);
  if (how == 0)
    h = clCreateCommandQueue(C(x), g_device, q(2) ? CL_QUEUE_PROFILING_ENABLE : 0, &e);
  else
  {
    cl_queue_properties p[] = {CL_QUEUE_PROPERTIES, CL_QUEUE_PROFILING_ENABLE, 0};
    h = clCreateCommandQueueWithProperties(C(x), g_device, how == 1 ? NULL : p, &e);
  }
  need(e, CL_SUCCESS, "clCreateCommandQueue");
  int i = add(QUEUE, h, x, {x});
  D("op %d: queue %d on context %d\n", opno, i, x);
}
void W::op_buffer(Rnd &q)
{
  int x = pick(q, live(CTX));
  if (x < 0 || live(BUF).size() >= 6)
    return;
  cl_int e = 77;
  size_t n = 32 + 16 * q(9);
  if (g_fault && q.chance(0.6))
    n = 65536 + 4096 * q(16);
  int how = q(4);
  Bytes init(n);
  for (auto &b : init)
    b = q(256);
  cl_mem_flags f = CL_MEM_READ_WRITE;
  std::unique_ptr<Bytes> host;
  uint64_t before = faults();
  cl_mem h;
  if (how == 0)
    f |= CL_MEM_ALLOC_HOST_PTR;
  if (how == 1)
  {
    f |= CL_MEM_USE_HOST_PTR;
    host = std::make_unique<Bytes>(init);
    before = faults();
    before = faults();
    fault_on();
    h = clCreateBuffer(C(x), f, n, host->data(), &e);
    fault_off();
  }
  else if (how == 2)
  {
    f |= CL_MEM_COPY_HOST_PTR;
    fault_on();
    h = clCreateBuffer(C(x), f, n, init.data(), &e);
    fault_off();
  }
  else
  {
    cl_mem_properties p[] = {0};
    fault_on();
    h = q(2) ? clCreateBufferWithProperties(C(x), q(2) ? p : NULL, f, n, NULL, &e)
             : clCreateBuffer(C(x), f, n, NULL, &e);
    fault_off();
  }
  D("op %d: buffer %zu on context %d size %zu flags %llx -> %d\n", opno, o.size(),
    x, n, (unsigned long long)f, e);
  if (oom(e, h, "clCreateBuffer", before))
    return;
  int i = add(BUF, h, x, {x});
  Obj &b = *o[i];
  b.root = i;
  b.size = n;
  b.flags = f;
  b.host = std::move(host);
  b.cont = init;
  if (how != 1 && how != 2)
  {
    // uninitialised: write all of it through a queue
    int qq = home(q, i);
    if (qq < 0)
    {
      clReleaseMemObject(h);
      o[i]->refs = 0;
      check_destructors();
      return;
    }
    auto c1 = std::make_unique<Cmd>();
    c1->q = qq;
    c1->src = std::make_unique<Bytes>(init);
    c1->holds = {i, qq};
    need(clEnqueueWriteBuffer(Q(qq), h, CL_FALSE, 0, n, c1->src->data(), 0, NULL,
                              NULL),
         CL_SUCCESS, "clEnqueueWriteBuffer");
    c.push_back(std::move(c1));
  }
}
void W::op_sub(Rnd &q)
{
  int x = pick(q, live(BUF));
  if (x < 0 || live(SUB).size() >= 4)
    return;
  cl_int e = 77;
  size_t n = o[x]->size;
  cl_buffer_region g;
  g.origin = 16 * q((n - 32) / 16 + 1);
  g.size = 32 + 16 * q((n - g.origin - 32) / 16 + 1);
  static const cl_mem_flags RW[] = {0, 0, CL_MEM_READ_WRITE};
  cl_mem_flags f = RW[q(3)];
  cl_mem h = clCreateSubBuffer(M(x), f, CL_BUFFER_CREATE_TYPE_REGION, &g, &e);
  need(e, CL_SUCCESS, "clCreateSubBuffer");
  int i = add(SUB, h, o[x]->ctx, {x});
  o[i]->root = x;
  o[i]->org = g.origin;
  o[i]->size = g.size;
  o[i]->flags = o[x]->flags;
  D("op %d: sub-buffer %d of %d at %zu size %zu\n", opno, i, x, g.origin, g.size);
}
static const cl_image_format FMT = {CL_RGBA, CL_UNSIGNED_INT8};
void W::op_image(Rnd &q)
{
  int x = pick(q, live(CTX));
  if (x < 0 || live(IMG).size() >= 3)
    return;
  cl_int e = 77;
  size_t w = 2 + q(4), h = 1 + q(3);
  if (g_fault && q.chance(0.6))
    w = 200 + q(20), h = 90;
  Bytes init(w * h * 4);
  for (auto &b : init)
    b = q(256);
  cl_image_desc d;
  memset(&d, 0, sizeof d);
  d.image_type = CL_MEM_OBJECT_IMAGE2D;
  d.image_width = w;
  d.image_height = h;
  cl_mem m;
  int how = q(3);
  uint64_t before = faults();
  fault_on();
  if (how == 0)
    m = clCreateImage2D(C(x), CL_MEM_COPY_HOST_PTR, &FMT, w, h, 0, init.data(), &e);
  else if (how == 1)
    m = clCreateImage(C(x), CL_MEM_COPY_HOST_PTR, &FMT, &d, init.data(), &e);
  else
    m = clCreateImageWithProperties(C(x), NULL, CL_MEM_COPY_HOST_PTR, &FMT, &d,
                                    init.data(), &e);
  fault_off();
  D("op %d: image %zu on context %d %zux%zu -> %d\n", opno, o.size(), x, w, h, e);
  if (oom(e, m, "clCreateImage", before))
    return;
  int i = add(IMG, m, x, {x});
  o[i]->root = i;
  o[i]->size = w * h * 4;
  o[i]->iw = w;
  o[i]->ih = h;
  o[i]->cont = init;
  o[i]->flags = CL_MEM_COPY_HOST_PTR;
}
void W::op_ibuf(Rnd &q)
{
  int x = pick(q, live(BUF));
  if (q(3) == 0 && live(SUB).size())
    x = pick(q, live(SUB));
  if (x < 0 || live(IBUF).size() >= 3)
    return;
  cl_int e = 77;
  cl_image_desc d;
  memset(&d, 0, sizeof d);
  d.image_type = CL_MEM_OBJECT_IMAGE1D_BUFFER;
  d.image_width = 2 + q(std::min<size_t>(o[x]->size / 4, 40) - 1);
  d.buffer = M(x);
  cl_mem m = clCreateImage(C(o[x]->ctx), 0, &FMT, &d, NULL, &e);
  need(e, CL_SUCCESS, "clCreateImage(1D buffer)");
  int i = add(IBUF, m, o[x]->ctx, {x});
  o[i]->root = o[x]->root;
  o[i]->org = o[x]->org;
  o[i]->size = d.image_width * 4;
  o[i]->iw = d.image_width;
  o[i]->ih = 1;
  D("op %d: 1D image %d of buffer %d width %zu\n", opno, i, x, o[i]->iw);
}
void W::op_sampler(Rnd &q)
{
  int x = pick(q, live(CTX));
  if (x < 0 || live(SAMP).size() >= 3)
    return;
  cl_int e = 77;
  cl_sampler s;
  cl_sampler_properties p[] = {CL_SAMPLER_NORMALIZED_COORDS, CL_FALSE,
                               CL_SAMPLER_ADDRESSING_MODE, CL_ADDRESS_CLAMP,
                               CL_SAMPLER_FILTER_MODE, CL_FILTER_NEAREST, 0};
  if (q(2))
    s = clCreateSampler(C(x), CL_FALSE, CL_ADDRESS_CLAMP, CL_FILTER_NEAREST, &e);
  else
    s = clCreateSamplerWithProperties(C(x), p, &e);
  need(e, CL_SUCCESS, "clCreateSampler");
  int i = add(SAMP, s, x, {x});
  D("op %d: sampler %d\n", opno, i);
}
void W::op_program(Rnd &q)
{
  int x = pick(q, live(CTX));
  if (x < 0 || live(PROG).size() >= 2 || o.size() > 40)
    return;
  bool big = g_fault && q(2);
    cl_int e = 77, st = 77;
  const Bytes &b = big ? BINBIG : BIN;
  size_t n = b.size();
  const unsigned char *p = b.data();
  cl_program h = clCreateProgramWithBinary(C(x), 1, &g_device, &n, &p, &st, &e);
  need(e, CL_SUCCESS, "clCreateProgramWithBinary");
  need(clBuildProgram(h, 0, NULL, "", NULL, NULL), CL_SUCCESS, "clBuildProgram");
  int i = add(PROG, h, x, {x});
  o[i]->ty = big;
  D("op %d: program %d%s\n", opno, i, big ? " (big)" : "");
}
void W::op_kernel(Rnd &q)
{
  if (live(KERN).size() >= 5)
    return;
  cl_int e = 77;
  int how = q(4);
    if (how == 0)
  {
    int s = pick(q, live(KERN));
    if (s >= 0)
    {
      cl_kernel h = clCloneKernel(K(s), &e);
      need(e, CL_SUCCESS, "clCloneKernel");
      int i = add(KERN, h, o[s]->ctx, o[s]->deps);
      o[i]->kt = o[s]->kt;
      o[i]->margs = o[s]->margs;
      o[i]->add = o[s]->add;
      memcpy(o[i]->argset, o[s]->argset, sizeof o[i]->argset);
      D("op %d: kernel %d cloned from %d\n", opno, i, s);
    }
  }
  else
  {
    int p = pick(q, live(PROG));
    if (p >= 0)
    {
      bool big = o[p]->ty;
      if (how == 1 && !big)
      {
        cl_kernel ks[4];
        cl_uint n = 0;
        need(clCreateKernelsInProgram((cl_program)o[p]->h, 4, ks, &n), CL_SUCCESS,
             "clCreateKernelsInProgram");
        if (n != 4)
          r.fail("result", "clCreateKernelsInProgram found %u kernels", n);
        for (int k = 0; k < 4; k++)
        {
          char nm[20] = "";
          clGetKernelInfo(ks[k], CL_KERNEL_FUNCTION_NAME, sizeof nm, nm, NULL);
          int kt = -1;
          for (int z = 0; z < 4; z++)
            if (!strcmp(nm, KN[z]))
              kt = z;
          if (kt < 0)
            r.fail("result", "clCreateKernelsInProgram made kernel '%s'", nm);
          int i = add(KERN, ks[k], o[p]->ctx, {p});
          o[i]->kt = kt;
        }
        D("op %d: kernels %zu.. of program %d\n", opno, o.size() - 4, p);
      }
      else
      {
        int kt = big ? 4 + q(2) : q(4);
        cl_kernel h = clCreateKernel((cl_program)o[p]->h,
                                     kt == 4 ? "k_big" : kt == 5 ? "k_priv" : KN[kt],
                                     &e);
        need(e, CL_SUCCESS, "clCreateKernel");
        int i = add(KERN, h, o[p]->ctx, {p});
        o[i]->kt = kt;
        D("op %d: kernel %d type %d of program %d\n", opno, i, kt, p);
      }
    }
  }
}
void W::op_uev(Rnd &q)
{
  int x = pick(q, live(CTX));
  if (x < 0)
    return;
  cl_int e = 77;
  cl_event h = clCreateUserEvent(C(x), &e);
  need(e, CL_SUCCESS, "clCreateUserEvent");
  int i = add(UEV, h, x, {x});
  o[i]->ustat = q.chance(0.3) ? -5 - (int)q(20) : 0;
  D("op %d: user event %d will be %d\n", opno, i, o[i]->ustat);
}
void W::verify(int m, const uint8_t *p, const char *how)
{
  const uint8_t *w = bytes(m);
  for (size_t i = 0; i < o[m]->size; i++)
    if (p[i] != w[i])
      r.fail("data", "op %d: %s %d byte %zu is %02x instead of %02x (%s)", opno,
             OKN[o[m]->kind], m, i, p[i], w[i], how);
}
// the wait list of a failed command is final as soon as one event failed
void W::complete_cmd(int ci)
{
  std::vector<int> st{ci};
  while (st.size())
  {
    int i = st.back();
    st.pop_back();
    if (c[i]->done)
      continue;
    c[i]->done = true;
    for (int p = i - 1; p >= 0; p--)
      if (c[p]->q == c[i]->q)
      {
        st.push_back(p);
        break;
      }
    if (!c[i]->fails)
      for (int e : c[i]->waits)
        if (o[e]->kind == EV)
          st.push_back(o[e]->cmd);
    check_done(i);
  }
}
void W::check_done(int i)
{
  Cmd &k = *c[i];
  if (k.dst && *k.dst != *k.expect)
    r.fail("data", "op %d: data read by command %d is wrong", opno, i);
  if (k.evfired != k.evcb)
    r.fail("callback", "op %d: command %d is complete but %d of %d callbacks ran",
           opno, i, k.evfired, k.evcb);
  k.dst.reset();
  k.expect.reset();
  k.src.reset();
}
void W::complete(int qq)
{
  for (size_t i = 0; i < c.size(); i++)
    if (c[i]->q == qq)
      complete_cmd(i);
}
void W::set_all()
{
  for (size_t i = 0; i < o.size(); i++)
    if (o[i]->kind == UEV && !o[i]->uset && o[i]->h)
    {
      o[i]->uset = true;
      cl_int e = clSetUserEventStatus(E(i), o[i]->ustat);
      need(e, CL_SUCCESS, "clSetUserEventStatus");
      check_destructors();
    }
}
void W::op_enqueue(Rnd &q)
{
  int kind = q(14);
  auto cm = std::make_unique<Cmd>();
  cl_int e = CL_SUCCESS;
  const char *what = "";
  int ci = c.size();
  // operands first: they select the queue
  int m = -1, m2 = -1, k = -1, smp = -1, qq = -1;
  if (kind <= 5)
    m = pick(q, live_any(-1, BUF, SUB));
  else if (kind <= 8)
    m = pick(q, live_any(-1, IMG, IBUF));
  else if (kind <= 11)
    k = pick(q, live(KERN));
  else
    qq = pick(q, live(QUEUE));
  if (kind <= 8)
  {
    if (m < 0)
      return;
    qq = home(q, m);
    if (qq < 0)
      return;
  }
  if (kind >= 9 && kind <= 11)
  {
    if (k < 0)
      return;
    Obj &x = *o[k];
    bool reuse = q.chance(0.35);
    if (reuse)
    {
      // previously set arguments must still be valid
      bool ok = true;
      static const int need_args[] = {2, 3, 2, 2, 3, 2};
      for (int i = 0; i < need_args[x.kt]; i++)
        ok = ok && x.argset[i];
      for (auto &a : x.margs)
        ok = ok && o[a.second]->refs > 0;
      if (!ok)
        reuse = false;
    }
    if (!reuse)
    {
      std::vector<int> bufs = live_any(x.ctx, BUF, SUB);
      m = pick(q, bufs);
      if (m < 0)
        return;
      if (x.kt == 1)
        m2 = pick(q, live(IMG, x.ctx)), smp = pick(q, live(SAMP, x.ctx));
      if (x.kt == 3)
        m2 = pick(q, live(IBUF, x.ctx));
      if ((x.kt == 1 || x.kt == 3) && m2 < 0)
        return;
      if (x.kt == 1 && smp < 0)
        return;
    }
    else
    {
      for (auto &a : x.margs)
        if (o[a.second]->kind == IMG || o[a.second]->kind == IBUF)
          m2 = a.second;
        else if (o[a.second]->kind == SAMP)
          smp = a.second;
        else
          m = a.second;
      if (m < 0)
        return;
    }
    if (m2 >= 0 && o[m2]->root == o[m]->root)
      return;
    qq = home(q, m);
    if (qq < 0)
      return;
    if (m2 >= 0 && rt(m2).home != qq)
    {
      if (rt(m2).home >= 0)
        return;
      rt(m2).home = qq;
    }
    cl_kernel h = K(k);
        if (!reuse)
    {
      cl_mem a = M(m);
      if (x.kt == 0)
      {
        x.add = q(256);
        need(clSetKernelArg(h, 0, sizeof a, &a), CL_SUCCESS, "clSetKernelArg");
        need(clSetKernelArg(h, 1, 4, &x.add), CL_SUCCESS, "clSetKernelArg");
        x.margs = {{0, m}};
      }
      if (x.kt == 2 || x.kt == 4)
      {
        need(clSetKernelArg(h, 0, sizeof a, &a), CL_SUCCESS, "clSetKernelArg");
        need(clSetKernelArg(h, 1, x.kt == 4 ? 66000 : 8, NULL), CL_SUCCESS,
             "clSetKernelArg");
        x.add = 5;
        if (x.kt == 4)
          need(clSetKernelArg(h, 2, 4, &x.add), CL_SUCCESS, "clSetKernelArg");
        x.margs = {{0, m}};
      }
      if (x.kt == 5)
      {
        x.add = 20 + q(30);
        need(clSetKernelArg(h, 0, sizeof a, &a), CL_SUCCESS, "clSetKernelArg");
        need(clSetKernelArg(h, 1, 4, &x.add), CL_SUCCESS, "clSetKernelArg");
        x.margs = {{0, m}};
      }
      if (x.kt == 1)
      {
        cl_mem b = M(m2);
        need(clSetKernelArg(h, 0, sizeof b, &b), CL_SUCCESS, "clSetKernelArg");
        need(clSetKernelArg(h, 1, sizeof(void *), &o[smp]->h), CL_SUCCESS,
             "clSetKernelArg");
        need(clSetKernelArg(h, 2, sizeof a, &a), CL_SUCCESS, "clSetKernelArg");
        x.margs = {{0, m2}, {1, smp}, {2, m}};
      }
      if (x.kt == 3)
      {
        cl_mem b = M(m2);
        need(clSetKernelArg(h, 0, sizeof b, &b), CL_SUCCESS, "clSetKernelArg");
        need(clSetKernelArg(h, 1, sizeof a, &a), CL_SUCCESS, "clSetKernelArg");
        x.margs = {{0, m2}, {1, m}};
      }
      x.argset[0] = x.argset[1] = x.argset[2] = true;
    }
    }
  if (qq < 0)
    return;
  int ctx = o[qq]->ctx;
  bool bigk = k >= 0 && o[k]->kt >= 4;
  // wait list
  std::vector<cl_event> wl;
  auto evs = live_any(ctx, UEV, EV);
  bool blocking = false;
  if (evs.size() && !bigk && q.chance(0.5))
    for (int i = 0, n = 1 + q(2); i < n; i++)
    {
      int ev = q.pick(evs);
      cm->waits.push_back(ev);
      wl.push_back(E(ev));
      if (o[ev]->kind == UEV ? o[ev]->ustat < 0 : c[o[ev]->cmd]->fails)
        cm->fails = true;
    }
  bool wantev = q.chance(0.5);
  cl_event ev = NULL;
  cl_event *pe = wantev ? &ev : NULL;
  cl_uint nw = wl.size();
  const cl_event *pw = nw ? wl.data() : NULL;
  cm->q = qq;
  cm->holds = {qq};
  for (int w : cm->waits)
    cm->holds.push_back(w);
  if (m >= 0)
    cm->holds.push_back(m);
  if (m2 >= 0)
    cm->holds.push_back(m2);
  if (k >= 0)
    cm->holds.push_back(k);
  bool fails = cm->fails;
  Obj *mo = m >= 0 ? o[m].get() : NULL;
  Bytes data;
  size_t off = 0, len = 0;
  if (mo && kind <= 5)
  {
    off = q(mo->size);
    len = 1 + q(std::min<size_t>(mo->size - off, 64));
    data.resize(len);
    for (auto &b : data)
      b = q(256);
  }
  D("op %d: command %d kind %d queue %d mem %d/%d kernel %d waits %zu%s event %d\n",
    opno, ci, kind, qq, m, m2, k, cm->waits.size(), fails ? " (fails)" : "", wantev);
  c.push_back(std::move(cm));
  Cmd &me = *c[ci];
  auto will_block = [&]() {
    // everything the blocking call needs must be able to finish
    set_all();
    blocking = true;
  };
  size_t org[3] = {0, 0, 0}, reg[3] = {1, 1, 1};
  if (kind >= 6 && kind <= 8)
  {
    org[0] = q(mo->iw);
    reg[0] = 1 + q(mo->iw - org[0]);
    org[1] = q(mo->ih);
    reg[1] = 1 + q(mo->ih - org[1]);
  }
  auto pixel = [&](size_t x, size_t y) { return bytes(m) + (y * mo->iw + x) * 4; };
  uint64_t nf = faults();
  bool fatal = false;
  switch (kind)
  {
  case 0: // write
    me.src = std::make_unique<Bytes>(data);
    if (q.chance(0.2))
      will_block();
    what = "clEnqueueWriteBuffer";
    e = clEnqueueWriteBuffer(Q(qq), M(m), blocking, off, len, me.src->data(), nw, pw,
                             pe);
    if (!fails)
      memcpy(bytes(m) + off, data.data(), len);
    break;
  case 1: // blocking read of everything
  case 2: // non-blocking read
  {
    off = 0;
    len = mo->size;
    me.dst = std::make_unique<Bytes>(len, 0x5a);
    me.expect = std::make_unique<Bytes>(len, 0x5a);
    if (!fails)
      memcpy(me.expect->data(), bytes(m), len);
    if (kind == 1)
      will_block();
    what = "clEnqueueReadBuffer";
    e = clEnqueueReadBuffer(Q(qq), M(m), blocking, 0, len, me.dst->data(), nw, pw, pe);
    break;
  }
  case 3: // copy
  {
    std::vector<int> v;
    for (int b : live_any(ctx, BUF, SUB))
      if (o[b]->root != mo->root && (rt(b).home == qq || rt(b).home < 0))
        v.push_back(b);
    if (v.empty())
    {
      c.pop_back();
      return;
    }
    m2 = q.pick(v);
    rt(m2).home = qq;
    me.holds.push_back(m2);
    len = std::min(len, o[m2]->size);
    size_t o2 = q(o[m2]->size - len + 1);
    what = "clEnqueueCopyBuffer";
    e = clEnqueueCopyBuffer(Q(qq), M(m), M(m2), off, o2, len, nw, pw, pe);
    if (!fails)
      memcpy(bytes(m2) + o2, bytes(m) + off, len);
    break;
  }
  case 4: // fill
    what = "clEnqueueFillBuffer";
    e = clEnqueueFillBuffer(Q(qq), M(m), data.data(), 1, off, len, nw, pw, pe);
    if (!fails)
      memset(bytes(m) + off, data[0], len);
    break;
  case 5: // native kernel, map, unmap
    if (q(2))
    {
      NArgs a = {this, NULL, (uint32_t)mo->size, (uint32_t)q(256)};
      cl_mem mm = M(m);
      const void *loc = &a.mem;
      what = "clEnqueueNativeKernel";
      e = clEnqueueNativeKernel(Q(qq), native, &a, sizeof a, 1, &mm, &loc, nw, pw,
                                pe);
      if (!fails)
        for (size_t i = 0; i < mo->size; i++)
          bytes(m)[i] += a.add;
    }
    else
    {
      will_block();
      what = "clEnqueueMapBuffer";
      bool ib = fails;
      void *p = clEnqueueMapBuffer(Q(qq), M(m), CL_TRUE, CL_MAP_READ | CL_MAP_WRITE, 0,
                                   mo->size, nw, pw, pe, &e);
      if (!ib)
      {
        need(e, CL_SUCCESS, what);
        complete_cmd(ci);
        verify(m, (uint8_t *)p, "mapped");
        if (mo->flags & CL_MEM_USE_HOST_PTR &&
            p != rt(m).host->data() + mo->org)
          r.fail("data", "op %d: mapped pointer is not the host pointer", opno);
        for (size_t i = 0; i < len; i++)
          ((uint8_t *)p)[off + i] = data[i];
        memcpy(bytes(m) + off, data.data(), len);
        auto c2 = std::make_unique<Cmd>();
        c2->q = qq;
        c2->holds = {m, qq};
        need(clEnqueueUnmapMemObject(Q(qq), M(m), p, 0, NULL, NULL), CL_SUCCESS,
             "clEnqueueUnmapMemObject");
        c.push_back(std::move(c2));
      }
    }
    break;
  case 6: // image write
  {
    size_t n = reg[0] * reg[1] * 4;
    me.src = std::make_unique<Bytes>(n);
    for (auto &b : *me.src)
      b = q(256);
    what = "clEnqueueWriteImage";
    e = clEnqueueWriteImage(Q(qq), M(m), CL_FALSE, org, reg, 0, 0, me.src->data(), nw,
                            pw, pe);
    if (!fails)
      for (size_t y = 0; y < reg[1]; y++)
        memcpy(pixel(org[0], org[1] + y), &(*me.src)[y * reg[0] * 4], reg[0] * 4);
    break;
  }
  case 7: // image read
  {
    size_t n = reg[0] * reg[1] * 4;
    me.dst = std::make_unique<Bytes>(n, 0x5a);
    me.expect = std::make_unique<Bytes>(n, 0x5a);
    if (!fails)
      for (size_t y = 0; y < reg[1]; y++)
        memcpy(&(*me.expect)[y * reg[0] * 4], pixel(org[0], org[1] + y), reg[0] * 4);
    if (q(2))
      will_block();
    what = "clEnqueueReadImage";
    e = clEnqueueReadImage(Q(qq), M(m), blocking, org, reg, 0, 0, me.dst->data(), nw,
                           pw, pe);
    break;
  }
  case 8: // image fill
  {
    uint32_t col[4] = {(uint32_t)q(256), (uint32_t)q(256), (uint32_t)q(256),
                       (uint32_t)q(256)};
    what = "clEnqueueFillImage";
    e = clEnqueueFillImage(Q(qq), M(m), col, org, reg, nw, pw, pe);
    if (!fails)
      for (size_t y = 0; y < reg[1]; y++)
        for (size_t x = 0; x < reg[0]; x++)
          for (int i = 0; i < 4; i++)
            pixel(org[0] + x, org[1] + y)[i] = col[i];
    break;
  }
  case 9:
  case 10:
  case 11:
  {
    Obj &x = *o[k];
    size_t gs = 2, ls = 2;
    if (x.kt == 0)
      gs = 8, ls = 1 << q(4);
    if (bigk)
    {
      set_all();
      need(clFinish(Q(qq)), CL_SUCCESS, "clFinish");
      c[ci]->done = true;
      complete(qq);
      c[ci]->done = false;
      fault_on();
      nf = faults();
    }
    what = "clEnqueueNDRangeKernel";
    e = clEnqueueNDRangeKernel(Q(qq), K(k), 1, NULL, &gs, q(2) || x.kt != 0 ? &ls : NULL,
                               nw, pw, pe);
    if (bigk)
    {
      need(clFinish(Q(qq)), CL_SUCCESS, "clFinish");
      fault_off();
      fatal = faults() > nf;
      std::string err = captured_stderr();
      capture_reset();
      bool told = err.find("OCLGRIND FATAL ERROR") != std::string::npos &&
                  err.find("Insufficient") != std::string::npos;
      if (told != fatal)
        r.fail("oom", "op %d: kernel %d had %d failed allocations, stderr '%s'", opno, k,
               (int)(faults() - nf), err.c_str());
      if (fatal)
      {
        // work-items that had finished may have stored their results
        r.stat("failed_kernels");
        uint32_t is[2], was[2], t[2];
        memcpy(was, bytes(m), 8);
        memcpy(t, was, 8);
        if (x.kt == 5)
          t[0] = x.add - 1, t[1] = x.add - 2;
        need(clEnqueueReadBuffer(Q(qq), M(m), CL_TRUE, 0, 8, is, 0, NULL, NULL),
             CL_SUCCESS, "clEnqueueReadBuffer");
        for (int i = 0; i < 2; i++)
          if (is[i] != was[i] && is[i] != t[i])
            r.fail("data", "op %d: word %d is %u after a failed kernel", opno, i, is[i]);
        memcpy(bytes(m), is, 8);
      }
    }
    if (!fails && !fatal)
    {
      uint8_t *b = bytes(m);
      if (x.kt == 0)
        for (int i = 0; i < 8; i++)
          b[i] += x.add;
      if (x.kt == 1 || x.kt == 3)
        for (int i = 0; i < 2; i++)
          for (int j = 0; j < 4; j++)
          {
            uint32_t v = bytes(m2)[i * 4 + j];
            memcpy(b + i * 16 + j * 4, &v, 4);
          }
      if (x.kt == 2 || x.kt == 4)
      {
        uint32_t t[2];
        memcpy(t, b, 8);
        std::swap(t[0], t[1]);
        memcpy(b, t, 8);
      }
      if (x.kt == 5)
      {
        uint32_t t[2] = {x.add - 1, x.add - 2};
        memcpy(b, t, 8);
      }
    }
    r.stat("kernels");
    break;
  }
  case 12:
    what = "clEnqueueMarkerWithWaitList";
    e = clEnqueueMarkerWithWaitList(Q(qq), nw, pw, pe);
    break;
  case 13:
    what = "clEnqueueBarrierWithWaitList";
    e = clEnqueueBarrierWithWaitList(Q(qq), nw, pw, pe);
    break;
  }
  // a blocking call on a failed wait list reports the failure
  bool block_failed = fails && (blocking);
  need(e, block_failed ? CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST : CL_SUCCESS,
       what);
  r.stat("commands");
  if (wantev && !ev)
    r.fail("result", "op %d: %s returned no event", opno, what);
  if (ev)
  {
    int i = add(EV, ev, ctx, {ctx});
    o[i]->cmd = ci;
    static const int types[] = {
      CL_COMMAND_WRITE_BUFFER, CL_COMMAND_READ_BUFFER, CL_COMMAND_READ_BUFFER,
      CL_COMMAND_COPY_BUFFER, CL_COMMAND_FILL_BUFFER, 0, CL_COMMAND_WRITE_IMAGE,
      CL_COMMAND_READ_IMAGE, CL_COMMAND_FILL_IMAGE, CL_COMMAND_NDRANGE_KERNEL,
      CL_COMMAND_NDRANGE_KERNEL, CL_COMMAND_NDRANGE_KERNEL, CL_COMMAND_MARKER,
      CL_COMMAND_BARRIER};
    o[i]->ty = block_failed ? 0 : types[kind];
    D("op %d: event %d of command %d\n", opno, i, ci);
    if (q.chance(0.3))
    {
      // callback, then often drop the only application reference
      ecbs.push_back(std::make_unique<ECB>(ECB{this, ci, i}));
      me.evcb++;
      need(clSetEventCallback(ev, CL_COMPLETE, ev_cb, ecbs.back().get()), CL_SUCCESS,
           "clSetEventCallback");
      if (q(2))
      {
        o[i]->refs--;
        need(clReleaseEvent(ev), CL_SUCCESS, "clReleaseEvent");
      }
    }
    // the pending command holds its event
    me.holds.push_back(i);
  }
  if (blocking || bigk)
    complete_cmd(ci);
}
void W::op_retain(Rnd &q)
{
  std::vector<int> v;
  for (size_t i = 0; i < o.size(); i++)
    if (o[i]->refs > 0 && o[i]->refs < 6)
      v.push_back(i);
  int x = pick(q, v);
  if (x < 0)
    return;
  int times = q(3) ? 1 : 1 + q(3);
  for (int t = 0; t < times; t++)
  {
  cl_int e = 77;
    switch (o[x]->kind)
    {
    case CTX: e = clRetainContext(C(x)); break;
    case QUEUE: e = clRetainCommandQueue(Q(x)); break;
    case BUF: case SUB: case IMG: case IBUF: e = clRetainMemObject(M(x)); break;
    case SAMP: e = clRetainSampler((cl_sampler)o[x]->h); break;
    case PROG: e = clRetainProgram((cl_program)o[x]->h); break;
    case KERN: e = clRetainKernel(K(x)); break;
    case UEV: case EV: e = clRetainEvent(E(x)); break;
    }
    need(e, CL_SUCCESS, "clRetain");
    o[x]->refs++;
  }
  D("op %d: retain %s %d, %d times\n", opno, OKN[o[x]->kind], x, times);
}
void W::op_release(Rnd &q, int x)
{
  if (x < 0)
  {
    std::vector<int> v, used;
    for (size_t i = 0; i < o.size(); i++)
      if (o[i]->refs > 0)
        v.push_back(i);
    // often something that a pending command uses
    for (auto &cm : c)
      if (!cm->done)
        for (int h : cm->holds)
          if (o[h]->refs > 0)
            used.push_back(h);
    x = !used.empty() && q(3) == 0 ? q.pick(used) : pick(q, v);
    if (x < 0)
      return;
    // sometimes all references at once
    if (q(4) == 0)
      while (o[x]->refs > 1)
        op_release(q, x);
  }
  // a user event must be set before the application gives it up
  if (o[x]->kind == UEV && o[x]->refs == 1 && !o[x]->uset)
    op_setu(q, x);
  if (o[x]->kind == QUEUE && o[x]->refs == 1)
    set_all(); // the release waits for the queue's commands
  D("op %d: release %s %d\n", opno, OKN[o[x]->kind], x);
  o[x]->refs--;
  cl_int e = 77;
  switch (o[x]->kind)
  {
  case CTX: e = clReleaseContext(C(x)); break;
  case QUEUE: e = clReleaseCommandQueue(Q(x)); break;
  case BUF: case SUB: case IMG: case IBUF: e = clReleaseMemObject(M(x)); break;
  case SAMP: e = clReleaseSampler((cl_sampler)o[x]->h); break;
  case PROG: e = clReleaseProgram((cl_program)o[x]->h); break;
  case KERN: e = clReleaseKernel(K(x)); break;
  case UEV: case EV: e = clReleaseEvent(E(x)); break;
  }
  need(e, CL_SUCCESS, "clRelease");
  r.stat("releases");
  if (o[x]->kind == QUEUE && o[x]->refs == 0)
    complete(x);
}
void W::op_setu(Rnd &q, int x)
{
  if (x < 0)
  {
    std::vector<int> v;
    for (int i : live(UEV))
      if (!o[i]->uset)
        v.push_back(i);
    x = pick(q, v);
    if (x < 0)
      return;
  }
  D("op %d: set user event %d to %d\n", opno, x, o[x]->ustat);
  o[x]->uset = true;
  need(clSetUserEventStatus(E(x), o[x]->ustat), CL_SUCCESS, "clSetUserEventStatus");
}
void W::op_sync(Rnd &q)
{
  int how = q(3);
  if (how == 2)
  {
    int x = pick(q, live(EV));
    if (x < 0)
      return;
    if (!c[o[x]->cmd]->done && o[c[o[x]->cmd]->q]->refs == 0)
      return;
    set_all();
    D("op %d: wait for event %d\n", opno, x);
    cl_event e = E(x);
    int nb = notified[o[x]->ctx];
    cl_int want = c[o[x]->cmd]->fails ? CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST
                                      : CL_SUCCESS;
    need(clWaitForEvents(1, &e), want, "clWaitForEvents");
    if (notified[o[x]->ctx] - nb != (want && o[o[x]->ctx]->flags ? 1 : 0))
      r.fail("notify", "op %d: %d notifications from clWaitForEvents returning %d",
             opno, notified[o[x]->ctx] - nb, want);
    complete_cmd(o[x]->cmd);
    return;
  }
  int x = pick(q, live(QUEUE));
  if (x < 0)
    return;
  D("op %d: %s queue %d\n", opno, how ? "finish" : "flush", x);
  if (how)
  {
    set_all();
    need(clFinish(Q(x)), CL_SUCCESS, "clFinish");
    complete(x);
  }
  else
    need(clFlush(Q(x)), CL_SUCCESS, "clFlush");
}
void W::op_dcb(Rnd &q)
{
  std::vector<int> v = live_any(-1, CTX, BUF, SUB, IMG, IBUF);
  int x = pick(q, v);
  if (x < 0 || o[x]->ncb >= 3)
    return;
  int no = o[x]->ncb++;
  o[x]->tok.push_back(no);
  toks.push_back(std::make_unique<Tok>(Tok{this, x, no}));
  cl_int e = o[x]->kind == CTX
               ? clSetContextDestructorCallback(C(x), ctx_cb, toks.back().get())
               : clSetMemObjectDestructorCallback(M(x), mem_cb, toks.back().get());
  need(e, CL_SUCCESS, "clSet*DestructorCallback");
  D("op %d: destructor callback %d for %s %d\n", opno, no, OKN[o[x]->kind], x);
}
void W::op_ecb(Rnd &q)
{
  int x = pick(q, live(EV));
  if (x < 0)
    return;
  Cmd &k = *c[o[x]->cmd];
  ecbs.push_back(std::make_unique<ECB>(ECB{this, o[x]->cmd, x}));
  k.evcb++;
  D("op %d: callback for event %d\n", opno, x);
  need(clSetEventCallback(E(x), CL_COMPLETE, ev_cb, ecbs.back().get()), CL_SUCCESS,
       "clSetEventCallback");
  if (k.done && k.evfired != k.evcb)
    r.fail("callback", "op %d: callback on a complete event did not run", opno);
}

template <class F, class V>
static void info(W &w, F f, void *h, cl_uint name, V want, const char *what)
{
  V v;
  memset(&v, 0x77, sizeof v);
  size_t n = 0;
  cl_int e = ((cl_int(*)(void *, cl_uint, size_t, void *, size_t *))f)(
    h, name, sizeof v, &v, &n);
  if (e || n != sizeof v || v != want)
    w.r.fail("info", "op %d: %s returned %d, size %zu, value %llx instead of %llx",
             w.opno, what, e, n, (unsigned long long)v, (unsigned long long)want);
}
#define INFO(f, h, n, want) info(*this, f, (void *)(h), n, want, #n)
void W::op_query(Rnd &q)
{
  std::vector<int> v;
  for (size_t i = 0; i < o.size(); i++)
    if (o[i]->refs > 0)
      v.push_back(i);
  int i = pick(q, v);
  if (i < 0)
    return;
  Obj &x = *o[i];
  D("op %d: query %s %d\n", opno, OKN[x.kind], i);
  auto a = alive(true);
  for (size_t z = 0; z < o.size(); z++)
    if (a[z] && !o[z]->h)
      return;
  cl_context cx = C(x.ctx);
  switch (x.kind)
  {
  case CTX:
    INFO(clGetContextInfo, x.h, CL_CONTEXT_NUM_DEVICES, (cl_uint)1);
    INFO(clGetContextInfo, x.h, CL_CONTEXT_DEVICES, g_device);
    {
      cl_context_properties p[8];
      size_t n = 77;
      need(clGetContextInfo(C(i), CL_CONTEXT_PROPERTIES, sizeof p, p, &n),
           CL_SUCCESS, "clGetContextInfo");
      if (n != x.size ||
          (n == 24 && (p[0] != CL_CONTEXT_PLATFORM ||
                       p[1] != (cl_context_properties)g_platform || p[2] != 0)) ||
          (n == 8 && p[0]))
        r.fail("info", "op %d: context properties have size %zu instead of %zu", opno,
               n, x.size);
    }
    break;
  case QUEUE:
    INFO(clGetCommandQueueInfo, x.h, CL_QUEUE_CONTEXT, cx);
    INFO(clGetCommandQueueInfo, x.h, CL_QUEUE_DEVICE, g_device);
    break;
  case BUF: case SUB: case IMG: case IBUF:
    INFO(clGetMemObjectInfo, x.h, CL_MEM_CONTEXT, cx);
    INFO(clGetMemObjectInfo, x.h, CL_MEM_TYPE,
         (cl_mem_object_type)(x.kind == IMG    ? CL_MEM_OBJECT_IMAGE2D
                              : x.kind == IBUF ? CL_MEM_OBJECT_IMAGE1D_BUFFER
                                               : CL_MEM_OBJECT_BUFFER));
    if (x.kind != IBUF)
      INFO(clGetMemObjectInfo, x.h, CL_MEM_SIZE, x.size);
    if (x.kind == BUF || x.kind == SUB)
    {
      INFO(clGetMemObjectInfo, x.h, CL_MEM_OFFSET, x.org);
      INFO(clGetMemObjectInfo, x.h, CL_MEM_ASSOCIATED_MEMOBJECT,
           x.kind == SUB ? M(x.deps[0]) : (cl_mem)NULL);
      INFO(clGetMemObjectInfo, x.h, CL_MEM_FLAGS, (cl_mem_flags)x.flags);
      INFO(clGetMemObjectInfo, x.h, CL_MEM_HOST_PTR,
           (void *)(x.flags & CL_MEM_USE_HOST_PTR ? rt(i).host->data() + x.org
                                                  : NULL));
    }
    else
    {
      INFO(clGetImageInfo, x.h, CL_IMAGE_WIDTH, x.iw);
      INFO(clGetImageInfo, x.h, CL_IMAGE_ELEMENT_SIZE, (size_t)4);
      if (x.kind == IMG)
      {
        INFO(clGetImageInfo, x.h, CL_IMAGE_HEIGHT, x.ih);
        INFO(clGetImageInfo, x.h, CL_IMAGE_ROW_PITCH, x.iw * 4);
        INFO(clGetMemObjectInfo, x.h, CL_MEM_FLAGS, (cl_mem_flags)x.flags);
        INFO(clGetMemObjectInfo, x.h, CL_MEM_HOST_PTR, (void *)NULL);
      }
      else
        INFO(clGetMemObjectInfo, x.h, CL_MEM_ASSOCIATED_MEMOBJECT, M(x.deps[0]));
    }
    break;
  case SAMP:
    INFO(clGetSamplerInfo, x.h, CL_SAMPLER_CONTEXT, cx);
    INFO(clGetSamplerInfo, x.h, CL_SAMPLER_FILTER_MODE,
         (cl_filter_mode)CL_FILTER_NEAREST);
    break;
  case PROG:
    INFO(clGetProgramInfo, x.h, CL_PROGRAM_CONTEXT, cx);
    INFO(clGetProgramInfo, x.h, CL_PROGRAM_NUM_KERNELS, (size_t)(x.ty ? 2 : 4));
    break;
  case KERN:
    INFO(clGetKernelInfo, x.h, CL_KERNEL_CONTEXT, cx);
    INFO(clGetKernelInfo, x.h, CL_KERNEL_PROGRAM, (cl_program)o[x.deps[0]]->h);
    {
      char nm[20] = "";
      clGetKernelInfo(K(i), CL_KERNEL_FUNCTION_NAME, sizeof nm, nm, NULL);
      if (strcmp(nm, x.kt == 4 ? "k_big" : x.kt == 5 ? "k_priv" : KN[x.kt]))
        r.fail("info", "op %d: kernel %d is called %s", opno, i, nm);
    }
    break;
  case UEV:
    INFO(clGetEventInfo, x.h, CL_EVENT_CONTEXT, cx);
    INFO(clGetEventInfo, x.h, CL_EVENT_COMMAND_TYPE, (cl_command_type)CL_COMMAND_USER);
    INFO(clGetEventInfo, x.h, CL_EVENT_COMMAND_EXECUTION_STATUS,
         (cl_int)(x.uset ? x.ustat : CL_SUBMITTED));
    break;
  case EV:
    INFO(clGetEventInfo, x.h, CL_EVENT_CONTEXT, cx);
    if (x.ty)
      INFO(clGetEventInfo, x.h, CL_EVENT_COMMAND_TYPE, (cl_command_type)x.ty);
    {
      cl_int s = 77;
      need(clGetEventInfo(E(i), CL_EVENT_COMMAND_EXECUTION_STATUS, sizeof s, &s, NULL),
           CL_SUCCESS, "clGetEventInfo");
      Cmd &k = *c[x.cmd];
      if (k.done ? (k.fails ? s >= 0 : s != 0) : s > 3)
        r.fail("info", "op %d: event %d has status %d", opno, i, s);
      if (k.done && s > 0)
        r.fail("info", "op %d: event %d of a complete command has status %d", opno, i,
               s);
    }
    break;
  }
}

static const char *errname(cl_int e)
{
#define E1(x) case x: return #x;
  switch (e)
  {
    E1(CL_INVALID_VALUE) E1(CL_INVALID_CONTEXT) E1(CL_INVALID_MEM_OBJECT)
    E1(CL_INVALID_COMMAND_QUEUE) E1(CL_INVALID_KERNEL) E1(CL_INVALID_EVENT)
    E1(CL_INVALID_OPERATION) E1(CL_INVALID_EVENT_WAIT_LIST) E1(CL_INVALID_SAMPLER)
    E1(CL_INVALID_ARG_INDEX) E1(CL_INVALID_ARG_SIZE) E1(CL_INVALID_PROGRAM)
    E1(CL_INVALID_WORK_GROUP_SIZE) E1(CL_INVALID_WORK_ITEM_SIZE)
    E1(CL_INVALID_KERNEL_ARGS) E1(CL_INVALID_KERNEL_NAME) E1(CL_OUT_OF_RESOURCES)
    E1(CL_INVALID_BUFFER_SIZE) E1(CL_INVALID_HOST_PTR) E1(CL_INVALID_BINARY)
    E1(CL_IMAGE_FORMAT_MISMATCH) E1(CL_MEM_COPY_OVERLAP) E1(CL_INVALID_WORK_DIMENSION)
    E1(CL_INVALID_ARG_VALUE) E1(CL_DEVICE_NOT_FOUND) E1(CL_INVALID_DEVICE)
    E1(CL_INVALID_PROGRAM_EXECUTABLE) E1(CL_INVALID_QUEUE_PROPERTIES)
    E1(CL_PROFILING_INFO_NOT_AVAILABLE)
  }
  return NULL;
}
// An invalid call must return the documented error, tell the context exactly
// once, and change nothing.
void W::op_invalid(Rnd &q)
{
  std::vector<int> ctxs = live(CTX);
  int cx = pick(q, ctxs);
  int b = pick(q, live(BUF)), s = pick(q, live(SUB)), im = pick(q, live(IMG));
  int qu = pick(q, live(QUEUE)), k = pick(q, live(KERN)), p = pick(q, live(PROG));
  int ue = pick(q, live(UEV)), ev = pick(q, live(EV)), sm = pick(q, live(SAMP));
  cl_int e = 77;
  cl_int want = 0, got = 77;
  void *h = NULL;
  int nctx = -1; // the context to be told
  bool isret = true;
  const char *what = NULL;
  char junk[64];
  size_t n = 0;
  memset(junk, 0x33, sizeof junk);
  cl_event out = NULL;
  bool ok = true;
  int bq = -1, iq = -1;
  if (b >= 0)
    bq = pick(q, live(QUEUE, o[b]->ctx));
  if (im >= 0)
    iq = pick(q, live(QUEUE, o[im]->ctx));
  int which = q(58 + 80 + 26);
  std::vector<int> before = notified;
  std::string told_early;
  bool have_told = false;
  if (g_check)
    capture_reset();
#define NEED(x)                                                                \
  if (!(x))                                                                    \
  {                                                                            \
    ok = false;                                                                \
    break;                                                                     \
  }
#define RET(name, w_, c_, call)                                                \
  what = name;                                                                 \
  want = w_;                                                                   \
  nctx = c_;                                                                   \
  before = notified;                                                           \
  got = call;                                                                  \
  break;
#define PTR(name, w_, c_, call)                                                \
  what = name;                                                                 \
  want = w_;                                                                   \
  nctx = c_;                                                                   \
  isret = false;                                                               \
  before = notified;                                                           \
  h = (void *)(call);                                                          \
  got = e;                                                                     \
  break;
  size_t big = ~(size_t)3; // offset + size wraps around
  cl_buffer_region rg;
  cl_image_desc de;
  memset(&de, 0, sizeof de);
  de.image_type = CL_MEM_OBJECT_IMAGE2D;
  de.image_width = de.image_height = 2;
  cl_image_format bf = {CL_RGBA, 0x1234};
  cl_mem_properties mp[] = {0x9999, 1, 0};
  size_t org[3] = {0, 0, 0}, reg[3] = {1, 1, 1};
  size_t rp = 0;
  size_t gs[3] = {4, 1, 1}, ls[3] = {1, 1, 1};
  unsigned char *jp = (unsigned char *)junk;
  const unsigned char *cjp = jp;
  cl_event nul = NULL;
  std::vector<std::function<void()>> cleanup;
  // objects that exist for one invalid call only
  auto tbuf = [&](cl_mem_flags f, size_t size, bool nosub = false) {
    // the access flags may be those of a sub-buffer, its own or inherited
    int sub = nosub ? 0 : q(4);
    cl_mem t = clCreateBuffer(C(cx), sub == 1 ? 0 : f, size, NULL, &e);
    need(e, CL_SUCCESS, "clCreateBuffer");
    if (sub == 1 || sub == 2)
    {
      cl_buffer_region g = {0, size};
      cl_mem t0 = t;
      t = clCreateSubBuffer(t0, sub == 1 ? f : q(2) ? CL_MEM_READ_WRITE : 0,
                            CL_BUFFER_CREATE_TYPE_REGION, &g, &e);
      need(e, CL_SUCCESS, "clCreateSubBuffer");
      need(clReleaseMemObject(t0), CL_SUCCESS, "release");
    }
    cleanup.push_back([=] { need(clReleaseMemObject(t), CL_SUCCESS, "release"); });
    return t;
  };
  auto timg = [&](cl_mem_flags f, cl_image_format fmt, int type) {
    cl_image_desc d;
    memset(&d, 0, sizeof d);
    d.image_type = type;
    d.image_width = 8;
    d.image_height = 4;
    d.image_depth = 3;
    d.image_array_size = 2;
    cl_mem t = clCreateImage(C(cx), f, &fmt, &d, NULL, &e);
    need(e, CL_SUCCESS, "clCreateImage");
    cleanup.push_back([=] { need(clReleaseMemObject(t), CL_SUCCESS, "release"); });
    return t;
  };
  auto tkern = [&]() {
    cl_int st = 0;
    size_t len = BINREQ.size();
    const unsigned char *bp = BINREQ.data();
    cl_program tp = clCreateProgramWithBinary(C(cx), 1, &g_device, &len, &bp, &st, &e);
    need(e, CL_SUCCESS, "clCreateProgramWithBinary");
    need(clBuildProgram(tp, 0, NULL, "", NULL, NULL), CL_SUCCESS, "clBuildProgram");
    cl_kernel t = clCreateKernel(tp, "k_req", &e);
    need(e, CL_SUCCESS, "clCreateKernel");
    need(clReleaseProgram(tp), CL_SUCCESS, "release");
    cleanup.push_back([=] { need(clReleaseKernel(t), CL_SUCCESS, "release"); });
    return t;
  };
  auto targs = [&](cl_kernel t, cl_mem t1, cl_mem t2, size_t loc) {
    float f[4] = {1, 2, 3, 4};
    need(clSetKernelArg(t, 0, sizeof t1, &t1), CL_SUCCESS, "clSetKernelArg");
    need(clSetKernelArg(t, 1, sizeof t2, &t2), CL_SUCCESS, "clSetKernelArg");
    need(clSetKernelArg(t, 2, sizeof f, f), CL_SUCCESS, "clSetKernelArg");
    need(clSetKernelArg(t, 3, loc, NULL), CL_SUCCESS, "clSetKernelArg");
  };
  int cq = cx >= 0 ? pick(q, live(QUEUE, cx)) : -1;
  size_t o3[3] = {0, 0, 0}, r3[3] = {1, 1, 1}, z3[3] = {0, 0, 0};
  cl_mem t1 = NULL, t2 = NULL;
  cl_kernel tk = NULL;
  const cl_mem_flags NOREAD[] = {CL_MEM_HOST_NO_ACCESS, CL_MEM_HOST_WRITE_ONLY};
  const cl_mem_flags NOWRITE[] = {CL_MEM_HOST_NO_ACCESS, CL_MEM_HOST_READ_ONLY};
  const int ITYPES[] = {CL_MEM_OBJECT_IMAGE1D, CL_MEM_OBJECT_IMAGE1D_ARRAY,
                        CL_MEM_OBJECT_IMAGE2D, CL_MEM_OBJECT_IMAGE2D_ARRAY,
                        CL_MEM_OBJECT_IMAGE3D};
  const size_t IDIMS[5][3] = {{8, 1, 1}, {8, 2, 1}, {8, 4, 1}, {8, 4, 2}, {8, 4, 3}};
  int it = q(5);
  // a region that leaves the image in one dimension
  auto outside = [&] {
    int d = q(3);
    switch (q(4))
    {
    case 0: r3[d] = IDIMS[it][d] + 1; break;
    case 1: o3[d] = IDIMS[it][d]; break;
    case 2: o3[d] = 1; r3[d] = IDIMS[it][d]; break;
    case 3: o3[d] = big; r3[d] = 8; break;
    }
  };
  // a rectangle that does not fit into 64 bytes, or is not one
  size_t rpi = 0, spi = 0, hrp = 0, hsp = 0;
  bool rnull = false;
  auto badrect = [&](bool host) {
    r3[0] = 8;
    r3[1] = 4;
    r3[2] = 2;
    switch (q(host ? 9 : 8))
    {
    case 0: case 1: o3[q(3)] = 1; break;
    case 2: r3[q(3)] = 0; break;
    case 3: o3[0] = big; break;                       // the sums wrap around
    case 4: o3[1 + q(2)] = (size_t)1 << (61 - q(2)); break;
    case 5: r3[1] = ((size_t)1 << 61) + 1; r3[2] = 1; break;
    case 6: rpi = 7; break;
    case 7: spi = 31; break;
    case 8: q(2) ? hrp = 7 : hsp = 31; break;
    }
    if (q(12) == 0)
      rnull = true;
  };
  static const int NARGS[] = {2, 3, 2, 2, 3, 2};
  static const size_t BADSZ[] = {7, 9, 4, 16, 0, 3};
  static const int CBTY[] = {17, CL_QUEUED, 4, -1, -5};
  static const size_t pnlen = [] {
    size_t n = 0;
    clGetPlatformInfo(g_platform, CL_PLATFORM_NAME, 0, NULL, &n);
    return n;
  }();
  size_t tail = q(5);
  NArgs na = {this, NULL, 0, 0};
  const void *nloc = &na.mem;
  cl_event evl[1] = {NULL};
  switch (which)
  {
  case 0: NEED(cx >= 0) PTR("clCreateBuffer(size 0)", CL_INVALID_BUFFER_SIZE, cx,
                            clCreateBuffer(C(cx), 0, 0, NULL, &e))
  case 1: NEED(cx >= 0) PTR("clCreateBuffer(COPY without pointer)", CL_INVALID_HOST_PTR,
                            cx, clCreateBuffer(C(cx), CL_MEM_COPY_HOST_PTR, 8, NULL, &e))
  case 2: NEED(cx >= 0) PTR("clCreateBuffer(pointer without flag)", CL_INVALID_HOST_PTR,
                            cx, clCreateBuffer(C(cx), 0, 8, junk, &e))
  case 3: NEED(cx >= 0) PTR("clCreateBuffer(USE and COPY)", CL_INVALID_VALUE, cx,
                            clCreateBuffer(C(cx), CL_MEM_USE_HOST_PTR | CL_MEM_COPY_HOST_PTR, 8, junk, &e))
  case 4: PTR("clCreateBuffer(no context)", CL_INVALID_CONTEXT, -1,
              clCreateBuffer(NULL, 0, 8, NULL, &e))
  case 5: NEED(cx >= 0) PTR("clCreateBufferWithProperties(bad property)",
                            CL_INVALID_PROPERTY, cx,
                            clCreateBufferWithProperties(C(cx), mp, 0, 8, NULL, &e))
  case 6: NEED(cx >= 0) PTR("clCreateImageWithProperties(bad property)",
                            CL_INVALID_PROPERTY, cx,
                            clCreateImageWithProperties(C(cx), mp, 0, &FMT, &de, NULL, &e))
  case 7: NEED(s >= 0)
    rg.origin = 0; rg.size = 4;
    PTR("clCreateSubBuffer(of sub-buffer)", CL_INVALID_MEM_OBJECT, o[s]->ctx,
        clCreateSubBuffer(M(s), 0, CL_BUFFER_CREATE_TYPE_REGION, &rg, &e))
  case 8: NEED(b >= 0)
    switch (q(4))
    {
    case 0: rg.origin = 0; rg.size = o[b]->size + 1; break;
    case 1: rg.origin = o[b]->size; rg.size = 1; break;
    case 2: rg.origin = o[b]->size + 1; rg.size = 1 + q(8); break;
    case 3: rg.origin = o[b]->size - 1 - q(4); rg.size = o[b]->size - rg.origin + 1; break;
    }
    PTR("clCreateSubBuffer(out of range)", CL_INVALID_VALUE, o[b]->ctx,
        clCreateSubBuffer(M(b), 0, CL_BUFFER_CREATE_TYPE_REGION, &rg, &e))
  case 9: NEED(b >= 0)
    rg.origin = big; rg.size = 8;
    PTR("clCreateSubBuffer(wrap)", CL_INVALID_VALUE, o[b]->ctx,
        clCreateSubBuffer(M(b), 0, CL_BUFFER_CREATE_TYPE_REGION, &rg, &e))
  case 10: NEED(b >= 0)
    rg.origin = 0; rg.size = 0;
    PTR("clCreateSubBuffer(size 0)", o[b]->size ? CL_INVALID_VALUE : 0, o[b]->ctx,
        clCreateSubBuffer(M(b), 0, CL_BUFFER_CREATE_TYPE_REGION, &rg, &e))
  case 11: NEED(cx >= 0) PTR("clCreateImage(no descriptor)", CL_INVALID_IMAGE_DESCRIPTOR,
                             cx, clCreateImage(C(cx), 0, &FMT, NULL, NULL, &e))
  case 12: NEED(cx >= 0) PTR("clCreateImage(no format)",
                             CL_INVALID_IMAGE_FORMAT_DESCRIPTOR, cx,
                             clCreateImage(C(cx), 0, NULL, &de, NULL, &e))
  case 13: NEED(cx >= 0)
    what = "clCreateImage(bad format)"; want = CL_INVALID_VALUE; nctx = cx; isret = false;
    h = clCreateImage(C(cx), 0, &bf, &de, NULL, &e);
    got = e == CL_IMAGE_FORMAT_NOT_SUPPORTED || e == CL_INVALID_IMAGE_FORMAT_DESCRIPTOR ? CL_INVALID_VALUE : e;
    break;
  case 14: NEED(p >= 0) PTR("clCreateKernel(unknown name)", CL_INVALID_KERNEL_NAME,
                            o[p]->ctx, clCreateKernel((cl_program)o[p]->h, "nope", &e))
  case 15: NEED(p >= 0) PTR("clCreateKernel(no name)", CL_INVALID_VALUE, o[p]->ctx,
                            clCreateKernel((cl_program)o[p]->h, NULL, &e))
  case 16: PTR("clCreateKernel(no program)", CL_INVALID_PROGRAM, -1,
               clCreateKernel(NULL, "k_add", &e))
  case 17: NEED(p >= 0)
    RET("clCreateKernelsInProgram(too few)", CL_INVALID_VALUE, o[p]->ctx,
        clCreateKernelsInProgram((cl_program)o[p]->h, q(o[p]->ty ? 2 : 4), (cl_kernel *)junk, NULL))
  case 18: NEED(k >= 0) RET("clSetKernelArg(index)", CL_INVALID_ARG_INDEX, o[k]->ctx,
                            clSetKernelArg(K(k), NARGS[o[k]->kt] + (q(2) ? 0 : q(8)), 8, junk))
  case 19: NEED(k >= 0) RET("clSetKernelArg(size)", CL_INVALID_ARG_SIZE, o[k]->ctx,
                            clSetKernelArg(K(k), 0, BADSZ[q(6)], junk))
  case 20: NEED(k >= 0 && o[k]->kt == 1)
    RET("clSetKernelArg(no sampler)", CL_INVALID_SAMPLER, o[k]->ctx,
        clSetKernelArg(K(k), 1, sizeof(void *), NULL))
  case 21: NEED(k >= 0 && o[k]->kt == 1 && sm >= 0)
    RET("clSetKernelArg(sampler size)", CL_INVALID_ARG_SIZE, o[k]->ctx,
        clSetKernelArg(K(k), 1, 4, &o[sm]->h))
  case 22: NEED(bq >= 0)
    RET("clEnqueueReadBuffer(out of range)", CL_INVALID_VALUE, o[b]->ctx,
        clEnqueueReadBuffer(Q(bq), M(b), CL_FALSE, o[b]->size - tail, tail + 1, junk, 0, NULL, &out))
  case 23: NEED(bq >= 0)
    RET("clEnqueueReadBuffer(wrap)", CL_INVALID_VALUE, o[b]->ctx,
        clEnqueueReadBuffer(Q(bq), M(b), CL_FALSE, big, 8, junk, 0, NULL, &out))
  case 24: NEED(bq >= 0)
    RET("clEnqueueWriteBuffer(wrap)", CL_INVALID_VALUE, o[b]->ctx,
        clEnqueueWriteBuffer(Q(bq), M(b), CL_FALSE, big, 8, junk, 0, NULL, &out))
  case 25: NEED(bq >= 0)
    RET("clEnqueueFillBuffer(wrap)", CL_INVALID_VALUE, o[b]->ctx,
        clEnqueueFillBuffer(Q(bq), M(b), junk, 4, big, 8, 0, NULL, &out))
  case 26: NEED(bq >= 0)
    RET("clEnqueueCopyBuffer(wrap)", CL_INVALID_VALUE, o[b]->ctx,
        clEnqueueCopyBuffer(Q(bq), M(b), M(b), big, 0, 8, 0, NULL, &out))
  case 27: NEED(bq >= 0)
    RET("clEnqueueCopyBuffer(overlap)", CL_MEM_COPY_OVERLAP, o[b]->ctx,
        clEnqueueCopyBuffer(Q(bq), M(b), M(b), 0, 4, 8, 0, NULL, &out))
  case 28: NEED(bq >= 0)
    PTR("clEnqueueMapBuffer(wrap)", CL_INVALID_VALUE, o[b]->ctx,
        clEnqueueMapBuffer(Q(bq), M(b), CL_FALSE, CL_MAP_READ, big, 8, 0, NULL, &out, &e))
  case 29: NEED(bq >= 0)
    PTR("clEnqueueMapBuffer(out of range)", CL_INVALID_VALUE, o[b]->ctx,
        clEnqueueMapBuffer(Q(bq), M(b), CL_FALSE, CL_MAP_READ, o[b]->size - tail, tail + 1, 0, NULL, &out, &e))
  case 30: NEED(iq >= 0)
    org[q(2)] = 1000;
    PTR("clEnqueueMapImage(out of range)", CL_INVALID_VALUE, o[im]->ctx,
        clEnqueueMapImage(Q(iq), M(im), CL_FALSE, CL_MAP_READ, org, reg, &rp, NULL, 0, NULL, &out, &e))
  case 31: NEED(iq >= 0)
    reg[q(3)] = 0;
    PTR("clEnqueueMapImage(empty)", CL_INVALID_VALUE, o[im]->ctx,
        clEnqueueMapImage(Q(iq), M(im), CL_FALSE, CL_MAP_READ, org, reg, &rp, NULL, 0, NULL, &out, &e))
  case 32: NEED(iq >= 0)
    reg[q(2)] = 1000;
    RET("clEnqueueReadImage(out of range)", CL_INVALID_VALUE, o[im]->ctx,
        clEnqueueReadImage(Q(iq), M(im), CL_FALSE, org, reg, 0, 0, junk, 0, NULL, &out))
  case 33: NEED(iq >= 0)
    reg[q(2)] = 1000;
    RET("clEnqueueWriteImage(out of range)", CL_INVALID_VALUE, o[im]->ctx,
        clEnqueueWriteImage(Q(iq), M(im), CL_FALSE, org, reg, 0, 0, junk, 0, NULL, &out))
  case 34: NEED(bq >= 0)
    RET("clEnqueueReadBuffer(no pointer)", CL_INVALID_VALUE, o[b]->ctx,
        clEnqueueReadBuffer(Q(bq), M(b), CL_FALSE, 0, 4, NULL, 0, NULL, &out))
  case 35: NEED(bq >= 0)
    RET("clEnqueueWriteBuffer(wait list)", CL_INVALID_EVENT_WAIT_LIST, o[b]->ctx,
        clEnqueueWriteBuffer(Q(bq), M(b), CL_FALSE, 0, 4, junk, 1, NULL, &out))
  case 36: NEED(bq >= 0)
    RET("clEnqueueFillBuffer(null event)", CL_INVALID_EVENT_WAIT_LIST, o[b]->ctx,
        clEnqueueFillBuffer(Q(bq), M(b), junk, 4, 0, 4, 1, &nul, &out))
  case 37: NEED(qu >= 0 && ctxs.size() > 1)
  {
    int oe = pick(q, live_any(ctxs[0] == o[qu]->ctx ? ctxs[1] : ctxs[0], UEV, EV));
    if (oe < 0 || ctxs[0] == ctxs[1])
    {
      ok = false;
      break;
    }
    cl_event x = E(oe);
    RET("clEnqueueMarkerWithWaitList(other context)", CL_INVALID_CONTEXT, o[qu]->ctx,
        clEnqueueMarkerWithWaitList(Q(qu), 1, &x, &out))
  }
  case 38: NEED(bq >= 0)
    RET("clEnqueueFillBuffer(no pattern)", CL_INVALID_VALUE, o[b]->ctx,
        clEnqueueFillBuffer(Q(bq), M(b), NULL, 4, 0, 4, 0, NULL, &out))
  case 39: NEED(bq >= 0)
    RET("clEnqueueFillBuffer(misaligned)", CL_INVALID_VALUE, o[b]->ctx,
        clEnqueueFillBuffer(Q(bq), M(b), junk, 4, q(2) ? 2 : 0, 6, 0, NULL, &out))
  case 40: NEED(qu >= 0 && k >= 0 && o[k]->ctx == o[qu]->ctx)
    RET("clEnqueueNDRangeKernel(dims)", CL_INVALID_WORK_DIMENSION, o[qu]->ctx,
        clEnqueueNDRangeKernel(Q(qu), K(k), q(2) ? 4 : 0, NULL, gs, ls, 0, NULL, &out))
  case 41: NEED(qu >= 0 && k >= 0 && o[k]->ctx == o[qu]->ctx)
    {
      size_t mx[3];
      cl_uint d = q(3);
      clGetDeviceInfo(g_device, CL_DEVICE_MAX_WORK_ITEM_SIZES, sizeof mx, mx, NULL);
      ls[d] = gs[d] = mx[d] + 1 + (q(2) ? 0 : q(1000000));
      RET("clEnqueueNDRangeKernel(work-item size)", CL_INVALID_WORK_ITEM_SIZE, o[qu]->ctx,
          clEnqueueNDRangeKernel(Q(qu), K(k), d + 1, NULL, gs, ls, 0, NULL, &out))
    }
  case 42: NEED(qu >= 0 && k >= 0 && o[k]->ctx == o[qu]->ctx && !o[k]->argset[0])
    RET("clEnqueueNDRangeKernel(arguments)", CL_INVALID_KERNEL_ARGS, o[qu]->ctx,
        clEnqueueNDRangeKernel(Q(qu), K(k), 1, NULL, gs, ls, 0, NULL, &out))
  case 43: NEED(ue >= 0 && o[ue]->uset)
    RET("clSetUserEventStatus(twice)", CL_INVALID_OPERATION, o[ue]->ctx,
        clSetUserEventStatus(E(ue), CL_COMPLETE))
  case 44: NEED(ue >= 0)
    RET("clSetUserEventStatus(positive)", CL_INVALID_VALUE, o[ue]->ctx,
        clSetUserEventStatus(E(ue), 1 + q(4)))
  case 45: NEED(ev >= 0)
    RET("clSetUserEventStatus(command event)", CL_INVALID_EVENT, o[ev]->ctx,
        clSetUserEventStatus(E(ev), CL_COMPLETE))
  case 46: NEED(ev >= 0)
    RET("clSetEventCallback(no function)", CL_INVALID_VALUE, o[ev]->ctx,
        clSetEventCallback(E(ev), CL_COMPLETE, NULL, NULL))
  case 47: NEED(ev >= 0)
    RET("clSetEventCallback(type)", CL_INVALID_VALUE, o[ev]->ctx,
        clSetEventCallback(E(ev), CBTY[q(5)], ev_cb, NULL))
  case 48: RET("clWaitForEvents(none)", CL_INVALID_VALUE, -1, clWaitForEvents(0, NULL))
  case 49: NEED(cx >= 0)
    RET("clGetContextInfo(size)", CL_INVALID_VALUE, cx,
        clGetContextInfo(C(cx), CL_CONTEXT_NUM_DEVICES, q(4), junk, &n))
  case 50: NEED(b >= 0)
    RET("clGetMemObjectInfo(name)", CL_INVALID_VALUE, o[b]->ctx,
        clGetMemObjectInfo(M(b), 0x1, 8, junk, NULL))
  case 51: NEED(k >= 0)
    RET("clGetKernelInfo(size)", CL_INVALID_VALUE, o[k]->ctx,
        clGetKernelInfo(K(k), CL_KERNEL_FUNCTION_NAME, o[k]->kt == 3 || o[k]->kt == 5 ? 6 : 5, junk, NULL))
  case 52: NEED(ev >= 0)
    RET("clGetEventInfo(name)", CL_INVALID_VALUE, o[ev]->ctx,
        clGetEventInfo(E(ev), 0x1, 8, junk, NULL))
  case 53: NEED(cx >= 0)
  {
    what = "clCreateProgramWithBinary(garbage)";
    want = CL_INVALID_BINARY;
    nctx = cx;
    isret = false;
    n = 40;
    cl_int st = 77;
    h = clCreateProgramWithBinary(C(cx), 1, &g_device, &n, &cjp, &st, &e);
    got = e;
    if (st != CL_INVALID_BINARY)
      got = st;
    break;
  }
  case 54: NEED(cx >= 0)
  {
    cl_queue_properties bad[] = {0x77, 1, 0};
    PTR("clCreateCommandQueueWithProperties(bad)", CL_INVALID_VALUE, cx,
        clCreateCommandQueueWithProperties(C(cx), g_device, bad, &e))
  }
  case 55: NEED(sm >= 0)
    RET("clGetSamplerInfo(name)", CL_INVALID_VALUE, o[sm]->ctx,
        clGetSamplerInfo((cl_sampler)o[sm]->h, 0x1, 8, junk, NULL))
  case 56: PTR("clCreateContext(no devices)", CL_INVALID_VALUE, -1,
               clCreateContext(NULL, 0, NULL, NULL, NULL, &e))
  case 57: NEED(p >= 0)
    RET("clBuildProgram(devices)", CL_INVALID_VALUE, o[p]->ctx,
        clBuildProgram((cl_program)o[p]->h, 1, NULL, "", NULL, NULL))
  case 58: NEED(cq >= 0)
    t1 = tbuf(0, 64);
    badrect(true);
    RET("clEnqueueReadBufferRect(region)", CL_INVALID_VALUE, cx,
        clEnqueueReadBufferRect(Q(cq), t1, CL_FALSE, o3, z3, rnull ? NULL : r3, rpi, spi, hrp, hsp, junk, 0, NULL, &out))
  case 59: NEED(cq >= 0)
    t1 = tbuf(0, 64);
    badrect(true);
    RET("clEnqueueWriteBufferRect(region)", CL_INVALID_VALUE, cx,
        clEnqueueWriteBufferRect(Q(cq), t1, CL_FALSE, o3, z3, rnull ? NULL : r3, rpi, spi, hrp, hsp, junk, 0, NULL, &out))
  case 60: NEED(cq >= 0)
    t1 = tbuf(0, 64);
    if (q(2))
    {
      RET("clEnqueueReadBufferRect(no pointer)", CL_INVALID_VALUE, cx,
          clEnqueueReadBufferRect(Q(cq), t1, CL_FALSE, z3, z3, r3, 0, 0, 0, 0, NULL, 0, NULL, &out))
    }
    RET("clEnqueueWriteBufferRect(no pointer)", CL_INVALID_VALUE, cx,
        clEnqueueWriteBufferRect(Q(cq), t1, CL_FALSE, z3, z3, r3, 0, 0, 0, 0, NULL, 0, NULL, &out))
  case 61: NEED(cq >= 0)
    t1 = tbuf(0, 64); t2 = tbuf(0, 256);
    badrect(false);
    RET("clEnqueueCopyBufferRect(source region)", CL_INVALID_VALUE, cx,
        clEnqueueCopyBufferRect(Q(cq), t1, t2, o3, z3, rnull ? NULL : r3, rpi, spi, hrp, hsp, 0, NULL, &out))
  case 62: NEED(cq >= 0)
    t1 = tbuf(0, 256); t2 = tbuf(0, 64);
    badrect(false);
    RET("clEnqueueCopyBufferRect(destination region)", CL_INVALID_VALUE, cx,
        clEnqueueCopyBufferRect(Q(cq), t1, t2, z3, o3, rnull ? NULL : r3, hrp, hsp, rpi, spi, 0, NULL, &out))
  case 63: NEED(cq >= 0)
    t1 = tbuf(0, 1024);
    if (q(4) == 0)
    {
      r3[0] = 8; r3[1] = 2;
      RET("clEnqueueCopyBufferRect(pitches)", CL_INVALID_VALUE, cx,
          clEnqueueCopyBufferRect(Q(cq), t1, t1, z3, o3, r3, 16, 0, 8, 0, 0, NULL, &out))
    }
    // the destination covers one byte of the source
    for (int i = 0; i < 3; i++)
      r3[i] = 1 + q(4);
    rpi = r3[0] + q(6);
    spi = rpi * r3[1] + q(20);
    {
      size_t y = q(r3[1]), z = q(r3[2]), k = q(r3[0]);
      o3[0] = k;
      o3[1] = y;
      o3[2] = z;
      if (rpi < r3[0] + k && q(2)) // or it lies in the next row
        o3[0] = 0;
    }
    if (q(2))
    {
      RET("clEnqueueCopyBufferRect(overlap)", CL_MEM_COPY_OVERLAP, cx,
          clEnqueueCopyBufferRect(Q(cq), t1, t1, z3, o3, r3, rpi, spi, rpi, spi, 0, NULL, &out))
    }
    RET("clEnqueueCopyBufferRect(overlap)", CL_MEM_COPY_OVERLAP, cx,
        clEnqueueCopyBufferRect(Q(cq), t1, t1, o3, z3, r3, rpi, spi, rpi, spi, 0, NULL, &out))
  case 64: NEED(cq >= 0)
    t1 = tbuf(NOREAD[q(2)], 64);
    RET("clEnqueueReadBuffer(host access)", CL_INVALID_OPERATION, cx,
        clEnqueueReadBuffer(Q(cq), t1, CL_FALSE, 0, 4, junk, 0, NULL, &out))
  case 65: NEED(cq >= 0)
    t1 = tbuf(NOREAD[q(2)], 64);
    RET("clEnqueueReadBufferRect(host access)", CL_INVALID_OPERATION, cx,
        clEnqueueReadBufferRect(Q(cq), t1, CL_FALSE, z3, z3, r3, 0, 0, 0, 0, junk, 0, NULL, &out))
  case 66: NEED(cq >= 0)
    t1 = tbuf(NOWRITE[q(2)], 64);
    RET("clEnqueueWriteBuffer(host access)", CL_INVALID_OPERATION, cx,
        clEnqueueWriteBuffer(Q(cq), t1, CL_FALSE, 0, 4, junk, 0, NULL, &out))
  case 67: NEED(cq >= 0)
    t1 = tbuf(NOWRITE[q(2)], 64);
    RET("clEnqueueWriteBufferRect(host access)", CL_INVALID_OPERATION, cx,
        clEnqueueWriteBufferRect(Q(cq), t1, CL_FALSE, z3, z3, r3, 0, 0, 0, 0, junk, 0, NULL, &out))
  case 68: NEED(cq >= 0)
    if (q(2))
    {
      t1 = tbuf(NOREAD[q(2)], 64);
      PTR("clEnqueueMapBuffer(host access)", CL_INVALID_OPERATION, cx,
          clEnqueueMapBuffer(Q(cq), t1, CL_FALSE, CL_MAP_READ | (q(2) ? CL_MAP_WRITE : 0), 0, 8, 0, NULL, &out, &e))
    }
    t1 = tbuf(NOWRITE[q(2)], 64);
    PTR("clEnqueueMapBuffer(host access)", CL_INVALID_OPERATION, cx,
        clEnqueueMapBuffer(Q(cq), t1, CL_FALSE, CL_MAP_WRITE | (q(2) ? CL_MAP_READ : 0), 0, 8, 0, NULL, &out, &e))
  case 69: NEED(cq >= 0)
    if (q(2))
    {
      t1 = timg(NOREAD[q(2)], FMT, ITYPES[it]);
      PTR("clEnqueueMapImage(host access)", CL_INVALID_OPERATION, cx,
          clEnqueueMapImage(Q(cq), t1, CL_FALSE, CL_MAP_READ, z3, r3, &rp, &rp, 0, NULL, &out, &e))
    }
    t1 = timg(NOWRITE[q(2)], FMT, ITYPES[it]);
    PTR("clEnqueueMapImage(host access)", CL_INVALID_OPERATION, cx,
        clEnqueueMapImage(Q(cq), t1, CL_FALSE, CL_MAP_WRITE, z3, r3, &rp, &rp, 0, NULL, &out, &e))
  case 70: NEED(cq >= 0)
    t1 = timg(NOREAD[q(2)], FMT, ITYPES[it]);
    RET("clEnqueueReadImage(host access)", CL_INVALID_OPERATION, cx,
        clEnqueueReadImage(Q(cq), t1, CL_FALSE, z3, r3, 0, 0, junk, 0, NULL, &out))
  case 71: NEED(cq >= 0)
    t1 = timg(NOWRITE[q(2)], FMT, ITYPES[it]);
    RET("clEnqueueWriteImage(host access)", CL_INVALID_OPERATION, cx,
        clEnqueueWriteImage(Q(cq), t1, CL_FALSE, z3, r3, 0, 0, junk, 0, NULL, &out))
  case 72: NEED(cq >= 0)
    // sub-buffers inherit the host access flags
    t1 = tbuf(q(2) ? CL_MEM_HOST_WRITE_ONLY : CL_MEM_HOST_READ_ONLY, 64, true);
    {
      cl_mem_flags f = 0;
      clGetMemObjectInfo(t1, CL_MEM_FLAGS, sizeof f, &f, NULL);
      rg.origin = 32; rg.size = 16;
      t2 = clCreateSubBuffer(t1, CL_MEM_READ_ONLY, CL_BUFFER_CREATE_TYPE_REGION, &rg, &e);
      need(e, CL_SUCCESS, "clCreateSubBuffer");
      cl_mem t = t2;
      cleanup.push_back([=] { need(clReleaseMemObject(t), CL_SUCCESS, "release"); });
      if (f & CL_MEM_HOST_WRITE_ONLY)
      {
        RET("clEnqueueReadBuffer(host access of sub-buffer)", CL_INVALID_OPERATION, cx,
            clEnqueueReadBuffer(Q(cq), t2, CL_FALSE, 0, 4, junk, 0, NULL, &out))
      }
      RET("clEnqueueWriteBuffer(host access of sub-buffer)", CL_INVALID_OPERATION, cx,
          clEnqueueWriteBuffer(Q(cq), t2, CL_FALSE, 0, 4, junk, 0, NULL, &out))
    }
  case 73: NEED(cq >= 0)
    t1 = tbuf(0, 64); t2 = tbuf(0, 32);
    if (q(2))
    {
      RET("clEnqueueCopyBuffer(source range)", CL_INVALID_VALUE, cx,
          clEnqueueCopyBuffer(Q(cq), t2, t1, 1 + q(32), 0, 32, 0, NULL, &out))
    }
    RET("clEnqueueCopyBuffer(destination range)", CL_INVALID_VALUE, cx,
        clEnqueueCopyBuffer(Q(cq), t1, t2, 0, 1 + q(32), 32, 0, NULL, &out))
  case 74: NEED(cq >= 0)
    t1 = timg(0, FMT, ITYPES[it]); t2 = timg(0, FMT, CL_MEM_OBJECT_IMAGE3D);
    outside();
    RET("clEnqueueCopyImage(source range)", CL_INVALID_VALUE, cx,
        clEnqueueCopyImage(Q(cq), t1, t2, o3, z3, r3, 0, NULL, &out))
  case 75: NEED(cq >= 0)
    t1 = timg(0, FMT, CL_MEM_OBJECT_IMAGE3D); t2 = timg(0, FMT, ITYPES[it]);
    outside();
    RET("clEnqueueCopyImage(destination range)", CL_INVALID_VALUE, cx,
        clEnqueueCopyImage(Q(cq), t1, t2, z3, o3, r3, 0, NULL, &out))
  case 76: NEED(cq >= 0)
  {
    cl_image_format f2 = FMT;
    if (q(2))
      f2.image_channel_data_type = CL_UNORM_INT8;
    else
      f2.image_channel_order = CL_BGRA;
    t1 = timg(0, FMT, ITYPES[it]); t2 = timg(0, f2, ITYPES[it]);
    RET("clEnqueueCopyImage(formats)", CL_IMAGE_FORMAT_MISMATCH, cx,
        clEnqueueCopyImage(Q(cq), t1, t2, z3, z3, r3, 0, NULL, &out))
  }
  case 77: NEED(cq >= 0)
    t1 = timg(0, FMT, ITYPES[it]); t2 = tbuf(0, 4096);
    outside();
    RET("clEnqueueCopyImageToBuffer(image range)", CL_INVALID_VALUE, cx,
        clEnqueueCopyImageToBuffer(Q(cq), t1, t2, o3, r3, 0, 0, NULL, &out))
  case 78: NEED(cq >= 0)
    t1 = timg(0, FMT, ITYPES[it]); t2 = tbuf(0, 30);
    r3[0] = 8;
    RET("clEnqueueCopyImageToBuffer(buffer range)", CL_INVALID_VALUE, cx,
        clEnqueueCopyImageToBuffer(Q(cq), t1, t2, z3, r3, 0, 0, NULL, &out))
  case 79: NEED(cq >= 0)
    t1 = timg(0, FMT, ITYPES[it]); t2 = tbuf(0, 4096);
    outside();
    RET("clEnqueueCopyBufferToImage(image range)", CL_INVALID_VALUE, cx,
        clEnqueueCopyBufferToImage(Q(cq), t2, t1, 0, o3, r3, 0, NULL, &out))
  case 80: NEED(cq >= 0)
    t1 = timg(0, FMT, ITYPES[it]); t2 = tbuf(0, 30);
    r3[0] = 8;
    RET("clEnqueueCopyBufferToImage(buffer range)", CL_INVALID_VALUE, cx,
        clEnqueueCopyBufferToImage(Q(cq), t2, t1, 0, z3, r3, 0, NULL, &out))
  case 81: NEED(cq >= 0)
    t1 = timg(0, FMT, ITYPES[it]);
    outside();
    RET("clEnqueueFillImage(out of range)", CL_INVALID_VALUE, cx,
        clEnqueueFillImage(Q(cq), t1, junk, o3, r3, 0, NULL, &out))
  case 82: NEED(cq >= 0)
    t1 = timg(0, FMT, ITYPES[it]);
    r3[q(3)] = 0;
    RET("clEnqueueFillImage(empty)", CL_INVALID_VALUE, cx,
        clEnqueueFillImage(Q(cq), t1, junk, z3, r3, 0, NULL, &out))
  case 83: NEED(cq >= 0)
    t1 = timg(0, FMT, ITYPES[it]);
    RET("clEnqueueFillImage(no colour)", CL_INVALID_VALUE, cx,
        clEnqueueFillImage(Q(cq), t1, NULL, z3, r3, 0, NULL, &out))
  case 84: NEED(cq >= 0)
    t1 = tbuf(0, 64);
    RET("clEnqueueUnmapMemObject(no pointer)", CL_INVALID_VALUE, cx,
        clEnqueueUnmapMemObject(Q(cq), t1, NULL, 0, NULL, &out))
  case 85: NEED(cq >= 0)
    RET("clEnqueueNativeKernel(no function)", CL_INVALID_VALUE, cx,
        clEnqueueNativeKernel(Q(cq), NULL, &na, sizeof na, 0, NULL, NULL, 0, NULL, &out))
  case 86: NEED(cq >= 0)
    RET("clEnqueueNativeKernel(no arguments)", CL_INVALID_VALUE, cx,
        clEnqueueNativeKernel(Q(cq), native, NULL, 8, 0, NULL, NULL, 0, NULL, &out))
  case 87: NEED(cq >= 0)
    RET("clEnqueueNativeKernel(no argument size)", CL_INVALID_VALUE, cx,
        clEnqueueNativeKernel(Q(cq), native, &na, 0, 0, NULL, NULL, 0, NULL, &out))
  case 88: NEED(cq >= 0)
    t1 = tbuf(0, 64);
    RET("clEnqueueNativeKernel(no list)", CL_INVALID_VALUE, cx,
        clEnqueueNativeKernel(Q(cq), native, &na, sizeof na, 1, q(2) ? &t1 : NULL, NULL, 0, NULL, &out))
  case 89: NEED(cq >= 0)
    t1 = tbuf(0, 64);
    RET("clEnqueueNativeKernel(list without size)", CL_INVALID_VALUE, cx,
        clEnqueueNativeKernel(Q(cq), native, &na, sizeof na, 0, &t1, &nloc, 0, NULL, &out))
  case 90: NEED(cq >= 0)
    RET("clEnqueueNativeKernel(no memory object)", CL_INVALID_MEM_OBJECT, cx,
        clEnqueueNativeKernel(Q(cq), native, &na, sizeof na, 1, &t1, &nloc, 0, NULL, &out))
  case 91: NEED(qu >= 0 && k >= 0 && o[k]->ctx == o[qu]->ctx)
    gs[0] = 7; ls[0] = 2;
    RET("clEnqueueNDRangeKernel(indivisible)", CL_INVALID_WORK_GROUP_SIZE, o[qu]->ctx,
        clEnqueueNDRangeKernel(Q(qu), K(k), 1, NULL, gs, ls, 0, NULL, &out))
  case 92: NEED(qu >= 0 && k >= 0 && o[k]->ctx == o[qu]->ctx)
    {
      size_t mx = 0;
      int lo = q(3), hi = q(2) + 1;
      clGetDeviceInfo(g_device, CL_DEVICE_MAX_WORK_GROUP_SIZE, sizeof mx, &mx, NULL);
      hi = (lo + hi) % 3;
      gs[lo] = ls[lo] = 2 + q(63); // the product is just too large
      gs[hi] = ls[hi] = mx / ls[lo] + 1;
      RET("clEnqueueNDRangeKernel(work-group size)", CL_INVALID_WORK_GROUP_SIZE, o[qu]->ctx,
          clEnqueueNDRangeKernel(Q(qu), K(k), lo == 2 || hi == 2 ? 3 : 2 + q(2), NULL, gs, ls, 0, NULL, &out))
    }
  case 93: NEED(cq >= 0)
    tk = tkern();
    targs(tk, tbuf(0, 64), tbuf(0, 64), 262144 + 1 + q(1000));
    gs[1] = ls[0] = ls[1] = 2;
    RET("clEnqueueNDRangeKernel(local memory)", CL_OUT_OF_RESOURCES, cx,
        clEnqueueNDRangeKernel(Q(cq), tk, 2, NULL, gs, ls, 0, NULL, &out))
  case 94: NEED(cq >= 0)
    tk = tkern();
    targs(tk, tbuf(0, 64), tbuf(0, 65537 + q(100)), 8);
    gs[1] = ls[0] = ls[1] = 2;
    RET("clEnqueueNDRangeKernel(constant memory)", CL_OUT_OF_RESOURCES, cx,
        clEnqueueNDRangeKernel(Q(cq), tk, 2, NULL, gs, ls, 0, NULL, &out))
  case 95: NEED(cq >= 0)
    tk = tkern();
    targs(tk, tbuf(0, 64), tbuf(0, 64), 8);
    gs[1] = 4; ls[0] = 1 << q(2); ls[1] = ls[0] == 2 ? 1 << 2 * q(2) : 2;
    RET("clEnqueueNDRangeKernel(required size)", CL_INVALID_WORK_GROUP_SIZE, cx,
        clEnqueueNDRangeKernel(Q(cq), tk, 2, NULL, gs, ls, 0, NULL, &out))
  case 96: NEED(cq >= 0)
    if (q(2))
    {
      RET("clEnqueueTask(no kernel)", CL_INVALID_KERNEL, cx,
          clEnqueueTask(Q(cq), NULL, 0, NULL, &out))
    }
    RET("clEnqueueNDRangeKernel(no kernel)", CL_INVALID_KERNEL, cx,
        clEnqueueNDRangeKernel(Q(cq), NULL, 1, NULL, gs, ls, 0, NULL, &out))
  case 97: NEED(qu >= 0 && k >= 0 && o[k]->ctx == o[qu]->ctx)
    ls[q(2)] = 0;
    RET("clEnqueueNDRangeKernel(zero size)", CL_INVALID_WORK_GROUP_SIZE, o[qu]->ctx,
        clEnqueueNDRangeKernel(Q(qu), K(k), 2, NULL, gs, ls, 0, NULL, &out))
  case 98: NEED(cx >= 0)
    tk = tkern();
    if (q(2))
    {
      RET("clSetKernelArg(no value)", CL_INVALID_ARG_VALUE, cx,
          clSetKernelArg(tk, 2, 16, NULL))
    }
    RET("clSetKernelArg(size)", CL_INVALID_ARG_SIZE, cx, clSetKernelArg(tk, 2, q(2) ? 12 + 8 * q(2) : 15 + 2 * q(2), junk))
  case 99: NEED(cx >= 0)
    tk = tkern();
    switch (q(7))
    {
    case 0: RET("clGetKernelArgInfo(index)", CL_INVALID_ARG_INDEX, cx,
                clGetKernelArgInfo(tk, 4 + q(3), CL_KERNEL_ARG_NAME, 8, junk, NULL))
    case 1: RET("clGetKernelArgInfo(name)", CL_INVALID_VALUE, cx,
                clGetKernelArgInfo(tk, 0, 0x17, 8, junk, NULL))
    case 2: RET("clGetKernelArgInfo(size)", CL_INVALID_VALUE, cx,
                clGetKernelArgInfo(tk, q(4), CL_KERNEL_ARG_NAME, 1, junk, NULL))
    case 3: RET("clGetKernelWorkGroupInfo(name)", CL_INVALID_VALUE, cx,
                clGetKernelWorkGroupInfo(tk, g_device, 0x17, 8, junk, NULL))
    case 4: RET("clGetKernelWorkGroupInfo(size)", CL_INVALID_VALUE, cx,
                clGetKernelWorkGroupInfo(tk, g_device, CL_KERNEL_COMPILE_WORK_GROUP_SIZE, q(2) ? 16 : 23, junk, NULL))
    case 5: RET("clGetKernelWorkGroupInfo(device)", CL_INVALID_DEVICE, cx,
                clGetKernelWorkGroupInfo(tk, NULL, CL_KERNEL_WORK_GROUP_SIZE, 8, junk, NULL))
    case 6: RET("clGetKernelInfo(name)", CL_INVALID_VALUE, cx,
                clGetKernelInfo(tk, 0x17, 8, junk, NULL))
    }
    break;
  case 100: NEED(p >= 0)
    switch (q(6))
    {
    case 0: RET("clGetProgramInfo(name)", CL_INVALID_VALUE, o[p]->ctx,
                clGetProgramInfo((cl_program)o[p]->h, 0x17, 8, junk, NULL))
    case 1: RET("clGetProgramBuildInfo(name)", CL_INVALID_VALUE, o[p]->ctx,
                clGetProgramBuildInfo((cl_program)o[p]->h, g_device, 0x17, 8, junk, NULL))
    case 2: RET("clGetProgramBuildInfo(size)", CL_INVALID_VALUE, o[p]->ctx,
                clGetProgramBuildInfo((cl_program)o[p]->h, g_device, CL_PROGRAM_BUILD_STATUS, 1 + q(3), junk, NULL))
    case 3: RET("clBuildProgram(no callback)", CL_INVALID_VALUE, o[p]->ctx,
                clBuildProgram((cl_program)o[p]->h, 0, NULL, "", NULL, junk))
    case 4: RET("clBuildProgram(device list)", CL_INVALID_VALUE, o[p]->ctx,
                clBuildProgram((cl_program)o[p]->h, 0, &g_device, "", NULL, NULL))
    case 5: RET("clCompileProgram(device list)", CL_INVALID_VALUE, o[p]->ctx,
                clCompileProgram((cl_program)o[p]->h, 1, NULL, "", 0, NULL, NULL, NULL, NULL))
    }
    break;
  case 101: NEED(cx >= 0)
  {
    const char *ns[2] = {NULL, NULL};
    switch (q(6))
    {
    case 0: PTR("clCreateProgramWithSource(none)", CL_INVALID_VALUE, cx,
                clCreateProgramWithSource(C(cx), 0, ns, NULL, &e))
    case 1: PTR("clCreateProgramWithSource(no strings)", CL_INVALID_VALUE, cx,
                clCreateProgramWithSource(C(cx), 1, q(2) ? ns : NULL, NULL, &e))
    case 2: PTR("clCreateProgramWithBinary(devices)", CL_INVALID_VALUE, cx,
                clCreateProgramWithBinary(C(cx), q(2), NULL, &n, &cjp, NULL, &e))
    case 3: PTR("clCreateProgramWithBinary(lengths)", CL_INVALID_VALUE, cx,
                clCreateProgramWithBinary(C(cx), 1, &g_device, NULL, &cjp, NULL, &e))
    case 4: PTR("clCreateProgramWithBinary(binaries)", CL_INVALID_VALUE, cx,
                clCreateProgramWithBinary(C(cx), 1, &g_device, &n, NULL, NULL, &e))
    case 5: PTR("clCreateProgramWithBuiltInKernels(none)", CL_INVALID_VALUE, cx,
                clCreateProgramWithBuiltInKernels(C(cx), 1, &g_device, "k", &e))
    }
    break;
  }
  case 102: NEED(cx >= 0)
    switch (q(4))
    {
    case 0: PTR("clCreateSampler(addressing)", CL_INVALID_VALUE, cx,
                clCreateSampler(C(cx), CL_FALSE, 0x17, CL_FILTER_NEAREST, &e))
    case 1: PTR("clCreateSampler(filter)", CL_INVALID_VALUE, cx,
                clCreateSampler(C(cx), CL_FALSE, CL_ADDRESS_CLAMP, 0x17, &e))
    case 2: RET("clGetSupportedImageFormats(size)", CL_INVALID_VALUE, cx,
                clGetSupportedImageFormats(C(cx), 0, CL_MEM_OBJECT_IMAGE2D, 0, (cl_image_format *)junk, NULL))
    case 3: RET("clGetContextInfo(name)", CL_INVALID_VALUE, cx,
                clGetContextInfo(C(cx), 0x17, 8, junk, NULL))
    }
    break;
  case 103: NEED(ue >= 0)
    RET("clGetEventProfilingInfo(user event)", CL_PROFILING_INFO_NOT_AVAILABLE, o[ue]->ctx,
        clGetEventProfilingInfo(E(ue), CL_PROFILING_COMMAND_QUEUED + q(4), 8, junk, NULL))
  case 104: NEED(qu >= 0)
    if (q(2))
    {
      RET("clGetCommandQueueInfo(size)", CL_INVALID_VALUE, o[qu]->ctx,
          clGetCommandQueueInfo(Q(qu), CL_QUEUE_CONTEXT, 4 + q(4), junk, NULL))
    }
    RET("clGetCommandQueueInfo(name)", CL_INVALID_VALUE, o[qu]->ctx,
        clGetCommandQueueInfo(Q(qu), 0x17, 8, junk, NULL))
  case 105: NEED(b >= 0)
    switch (q(5))
    {
    case 0: RET("clGetMemObjectInfo(size)", CL_INVALID_VALUE, o[b]->ctx,
                clGetMemObjectInfo(M(b), CL_MEM_SIZE, 4 + q(4), junk, NULL))
    case 1: RET("clSetMemObjectDestructorCallback(no function)", CL_INVALID_VALUE, o[b]->ctx,
                clSetMemObjectDestructorCallback(M(b), NULL, junk))
    case 2: rg.origin = 0; rg.size = 1;
            PTR("clCreateSubBuffer(type)", CL_INVALID_VALUE, o[b]->ctx,
                clCreateSubBuffer(M(b), 0, 0x17, &rg, &e))
    case 3: PTR("clCreateSubBuffer(no region)", CL_INVALID_VALUE, o[b]->ctx,
                clCreateSubBuffer(M(b), 0, CL_BUFFER_CREATE_TYPE_REGION, NULL, &e))
    case 4: PTR("clCreateSubBuffer(no buffer)", CL_INVALID_MEM_OBJECT, -1,
                clCreateSubBuffer(NULL, 0, CL_BUFFER_CREATE_TYPE_REGION, &rg, &e))
    }
    break;
  case 106: NEED(im >= 0)
    if (q(2))
    {
      RET("clGetImageInfo(size)", CL_INVALID_VALUE, o[im]->ctx,
          clGetImageInfo(M(im), CL_IMAGE_WIDTH, 4 + q(4), junk, NULL))
    }
    RET("clGetImageInfo(name)", CL_INVALID_VALUE, o[im]->ctx,
        clGetImageInfo(M(im), 0x17, 8, junk, NULL))
  case 107:
    switch (q(8))
    {
    case 0: RET("clGetPlatformInfo(name)", CL_INVALID_VALUE, -1,
                clGetPlatformInfo(g_platform, 0x17, 8, junk, NULL))
    case 1: RET("clGetPlatformInfo(size)", CL_INVALID_VALUE, -1,
                clGetPlatformInfo(g_platform, CL_PLATFORM_NAME, q(2) ? 2 : pnlen - 1, junk, NULL))
    case 2: RET("clGetDeviceInfo(name)", CL_INVALID_VALUE, -1,
                clGetDeviceInfo(g_device, 0x17, 8, junk, NULL))
    case 3: RET("clGetDeviceInfo(size)", CL_INVALID_VALUE, -1,
                clGetDeviceInfo(g_device, CL_DEVICE_GLOBAL_MEM_SIZE, 4 + q(4), junk, NULL))
    case 4: RET("clGetDeviceIDs(no entries)", CL_INVALID_VALUE, -1,
                clGetDeviceIDs(g_platform, CL_DEVICE_TYPE_ALL, 0, (cl_device_id *)junk, NULL))
    case 5: RET("clGetDeviceInfo(no device)", CL_INVALID_DEVICE, -1,
                clGetDeviceInfo(NULL, CL_DEVICE_NAME, 8, junk, NULL))
    case 6: PTR("clCreateContextFromType(no device)", CL_DEVICE_NOT_FOUND, -1,
                clCreateContextFromType(NULL, 0, NULL, NULL, &e))
    case 7: PTR("clCreateContext(data without callback)", CL_INVALID_VALUE, -1,
                clCreateContext(NULL, 1, &g_device, NULL, junk, &e))
    }
    break;
  case 108: case 109: case 110: case 111: // NULL objects
    switch (q(26))
    {
    case 0: RET("clRetainContext(NULL)", CL_INVALID_CONTEXT, -1, clRetainContext(NULL))
    case 1: RET("clReleaseContext(NULL)", CL_INVALID_CONTEXT, -1, clReleaseContext(NULL))
    case 2: RET("clRetainCommandQueue(NULL)", CL_INVALID_COMMAND_QUEUE, -1, clRetainCommandQueue(NULL))
    case 3: RET("clReleaseCommandQueue(NULL)", CL_INVALID_COMMAND_QUEUE, -1, clReleaseCommandQueue(NULL))
    case 4: RET("clRetainMemObject(NULL)", CL_INVALID_MEM_OBJECT, -1, clRetainMemObject(NULL))
    case 5: RET("clReleaseMemObject(NULL)", CL_INVALID_MEM_OBJECT, -1, clReleaseMemObject(NULL))
    case 6: RET("clRetainSampler(NULL)", CL_INVALID_SAMPLER, -1, clRetainSampler(NULL))
    case 7: RET("clReleaseSampler(NULL)", CL_INVALID_SAMPLER, -1, clReleaseSampler(NULL))
    case 8: RET("clRetainProgram(NULL)", CL_INVALID_PROGRAM, -1, clRetainProgram(NULL))
    case 9: RET("clReleaseProgram(NULL)", CL_INVALID_PROGRAM, -1, clReleaseProgram(NULL))
    case 10: RET("clRetainKernel(NULL)", CL_INVALID_KERNEL, -1, clRetainKernel(NULL))
    case 11: RET("clReleaseKernel(NULL)", CL_INVALID_KERNEL, -1, clReleaseKernel(NULL))
    case 12: RET("clRetainEvent(NULL)", CL_INVALID_EVENT, -1, clRetainEvent(NULL))
    case 13: RET("clReleaseEvent(NULL)", CL_INVALID_EVENT, -1, clReleaseEvent(NULL))
    case 14: RET("clFlush(NULL)", CL_INVALID_COMMAND_QUEUE, -1, clFlush(NULL))
    case 15: RET("clFinish(NULL)", CL_INVALID_COMMAND_QUEUE, -1, clFinish(NULL))
    case 16: RET("clGetContextInfo(NULL)", CL_INVALID_CONTEXT, -1, clGetContextInfo(NULL, CL_CONTEXT_NUM_DEVICES, 8, junk, NULL))
    case 17: RET("clGetMemObjectInfo(NULL)", CL_INVALID_MEM_OBJECT, -1, clGetMemObjectInfo(NULL, CL_MEM_SIZE, 8, junk, NULL))
    case 18: RET("clGetEventInfo(NULL)", CL_INVALID_EVENT, -1, clGetEventInfo(NULL, CL_EVENT_COMMAND_TYPE, 8, junk, NULL))
    case 19: RET("clSetUserEventStatus(NULL)", CL_INVALID_EVENT, -1, clSetUserEventStatus(NULL, 0))
    case 20: RET("clSetKernelArg(NULL)", CL_INVALID_KERNEL, -1, clSetKernelArg(NULL, 0, 4, junk))
    case 21: RET("clBuildProgram(NULL)", CL_INVALID_PROGRAM, -1, clBuildProgram(NULL, 0, NULL, "", NULL, NULL))
    case 22: PTR("clCreateUserEvent(NULL)", CL_INVALID_CONTEXT, -1, clCreateUserEvent(NULL, &e))
    case 23: PTR("clCreateSampler(NULL)", CL_INVALID_CONTEXT, -1, clCreateSampler(NULL, 0, CL_ADDRESS_CLAMP, CL_FILTER_NEAREST, &e))
    case 24: PTR("clCreateImage(NULL)", CL_INVALID_CONTEXT, -1, clCreateImage(NULL, 0, &FMT, &de, NULL, &e))
    case 25: PTR("clCreateCommandQueue(NULL)", CL_INVALID_CONTEXT, -1, clCreateCommandQueue(NULL, g_device, 0, &e))
    }
    break;
  case 112: case 113: case 114: // NULL queues and memory objects
  {
    NEED(cq >= 0)
    t1 = tbuf(0, 64);
    bool nq = q(2);
    cl_command_queue xq = nq ? NULL : Q(cq);
    cl_mem xm = nq ? t1 : NULL;
    cl_int w = nq ? CL_INVALID_COMMAND_QUEUE : CL_INVALID_MEM_OBJECT;
    int wc = nq ? -1 : cx;
    switch (q(15))
    {
    case 0: RET("clEnqueueReadBuffer(NULL)", w, wc, clEnqueueReadBuffer(xq, xm, 0, 0, 1, junk, 0, NULL, &out))
    case 1: RET("clEnqueueWriteBuffer(NULL)", w, wc, clEnqueueWriteBuffer(xq, xm, 0, 0, 1, junk, 0, NULL, &out))
    case 2: RET("clEnqueueReadBufferRect(NULL)", w, wc, clEnqueueReadBufferRect(xq, xm, 0, z3, z3, r3, 0, 0, 0, 0, junk, 0, NULL, &out))
    case 3: RET("clEnqueueWriteBufferRect(NULL)", w, wc, clEnqueueWriteBufferRect(xq, xm, 0, z3, z3, r3, 0, 0, 0, 0, junk, 0, NULL, &out))
    case 4: RET("clEnqueueCopyBuffer(NULL)", w, wc, clEnqueueCopyBuffer(xq, xm, t1, 0, 8, 4, 0, NULL, &out))
    case 5: RET("clEnqueueCopyBuffer(NULL)", w, wc, clEnqueueCopyBuffer(xq, t1, xm, 0, 8, 4, 0, NULL, &out))
    case 6: RET("clEnqueueFillBuffer(NULL)", w, wc, clEnqueueFillBuffer(xq, xm, junk, 1, 0, 4, 0, NULL, &out))
    case 7: PTR("clEnqueueMapBuffer(NULL)", w, wc, clEnqueueMapBuffer(xq, xm, 0, CL_MAP_READ, 0, 4, 0, NULL, &out, &e))
    case 8: RET("clEnqueueUnmapMemObject(NULL)", w, wc, clEnqueueUnmapMemObject(xq, xm, junk, 0, NULL, &out))
    case 9: RET("clEnqueueCopyBufferRect(NULL)", w, wc, clEnqueueCopyBufferRect(xq, xm, t1, z3, z3, r3, 0, 0, 0, 0, 0, NULL, &out))
    case 10: RET("clEnqueueCopyBufferRect(NULL)", w, wc, clEnqueueCopyBufferRect(xq, t1, xm, z3, z3, r3, 0, 0, 0, 0, 0, NULL, &out))
    case 11: NEED(!nq) RET("clEnqueueReadImage(NULL)", w, wc, clEnqueueReadImage(xq, xm, 0, z3, r3, 0, 0, junk, 0, NULL, &out))
    case 12: NEED(!nq) RET("clEnqueueWriteImage(NULL)", w, wc, clEnqueueWriteImage(xq, xm, 0, z3, r3, 0, 0, junk, 0, NULL, &out))
    case 13: NEED(!nq) RET("clEnqueueFillImage(NULL)", w, wc, clEnqueueFillImage(xq, xm, junk, z3, r3, 0, NULL, &out))
    case 14: NEED(!nq) PTR("clEnqueueMapImage(NULL)", w, wc, clEnqueueMapImage(xq, xm, 0, CL_MAP_READ, z3, r3, &rp, &rp, 0, NULL, &out, &e))
    }
    break;
  }
  case 115: case 116: case 117: case 118: // invalid wait lists
  {
    NEED(cq >= 0)
    t1 = tbuf(0, 64); t2 = tbuf(0, 64);
    cl_uint wn = q(3);
    const cl_event *wl = wn == 1 && q(2) ? NULL : evl; // NULL event, no list, or a list of 0
    if (wn == 2)
      wn = 1, wl = NULL;
    cl_int w = CL_INVALID_EVENT_WAIT_LIST;
    switch (q(18))
    {
    case 0: RET("clEnqueueReadBuffer(wait list)", w, cx, clEnqueueReadBuffer(Q(cq), t1, 0, 0, 1, junk, wn, wl, &out))
    case 1: RET("clEnqueueWriteBuffer(wait list)", w, cx, clEnqueueWriteBuffer(Q(cq), t1, 0, 0, 1, junk, wn, wl, &out))
    case 2: RET("clEnqueueReadBufferRect(wait list)", w, cx, clEnqueueReadBufferRect(Q(cq), t1, 0, z3, z3, r3, 0, 0, 0, 0, junk, wn, wl, &out))
    case 3: RET("clEnqueueWriteBufferRect(wait list)", w, cx, clEnqueueWriteBufferRect(Q(cq), t1, 0, z3, z3, r3, 0, 0, 0, 0, junk, wn, wl, &out))
    case 4: RET("clEnqueueCopyBuffer(wait list)", w, cx, clEnqueueCopyBuffer(Q(cq), t1, t2, 0, 8, 4, wn, wl, &out))
    case 5: RET("clEnqueueCopyBufferRect(wait list)", w, cx, clEnqueueCopyBufferRect(Q(cq), t1, t2, z3, z3, r3, 0, 0, 0, 0, wn, wl, &out))
    case 6: RET("clEnqueueFillBuffer(wait list)", w, cx, clEnqueueFillBuffer(Q(cq), t1, junk, 1, 0, 4, wn, wl, &out))
    case 7: PTR("clEnqueueMapBuffer(wait list)", w, cx, clEnqueueMapBuffer(Q(cq), t1, 0, CL_MAP_READ, 0, 4, wn, wl, &out, &e))
    case 8: RET("clEnqueueUnmapMemObject(wait list)", w, cx, clEnqueueUnmapMemObject(Q(cq), t1, junk, wn, wl, &out))
    case 9: t1 = timg(0, FMT, ITYPES[it]); RET("clEnqueueReadImage(wait list)", w, cx, clEnqueueReadImage(Q(cq), t1, 0, z3, r3, 0, 0, junk, wn, wl, &out))
    case 10: t1 = timg(0, FMT, ITYPES[it]); RET("clEnqueueWriteImage(wait list)", w, cx, clEnqueueWriteImage(Q(cq), t1, 0, z3, r3, 0, 0, junk, wn, wl, &out))
    case 11: t1 = timg(0, FMT, ITYPES[it]); RET("clEnqueueFillImage(wait list)", w, cx, clEnqueueFillImage(Q(cq), t1, junk, z3, r3, wn, wl, &out))
    case 12: t1 = timg(0, FMT, ITYPES[it]); PTR("clEnqueueMapImage(wait list)", w, cx, clEnqueueMapImage(Q(cq), t1, 0, CL_MAP_READ, z3, r3, &rp, &rp, wn, wl, &out, &e))
    case 13: NEED(k >= 0 && o[k]->ctx == cx && o[k]->kt != 4) RET("clEnqueueNDRangeKernel(wait list)", w, cx, clEnqueueNDRangeKernel(Q(cq), K(k), 1, NULL, gs, ls, wn, wl, &out))
    case 14: RET("clEnqueueNativeKernel(wait list)", w, cx, clEnqueueNativeKernel(Q(cq), native, &na, sizeof na, 0, NULL, NULL, wn, wl, &out))
    case 15: RET("clEnqueueMarkerWithWaitList(wait list)", w, cx, clEnqueueMarkerWithWaitList(Q(cq), wn, wl, &out))
    case 16: RET("clEnqueueBarrierWithWaitList(wait list)", w, cx, clEnqueueBarrierWithWaitList(Q(cq), wn, wl, &out))
    case 17: RET("clEnqueueMigrateMemObjects(wait list)", w, cx, clEnqueueMigrateMemObjects(Q(cq), 1, &t1, 0, wn, wl, &out))
    }
    break;
  }
  case 119: // an argument was not set
  {
    NEED(cq >= 0)
    tk = tkern();
    cl_mem u = tbuf(0, 64);
    int forgotten = q(4);
    float f[4] = {1, 2, 3, 4};
    for (int i = 0; i < 4; i++)
      if (i != forgotten && (i < forgotten || q(3)))
        need(i < 2 ? clSetKernelArg(tk, i, sizeof u, &u)
                   : clSetKernelArg(tk, i, 16, i == 2 ? f : NULL),
             CL_SUCCESS, "clSetKernelArg");
    gs[1] = ls[0] = ls[1] = 2;
    if (q(2))
    {
      cl_kernel cl = clCloneKernel(tk, &e);
      need(e, CL_SUCCESS, "clCloneKernel");
      cleanup.push_back([=] { need(clReleaseKernel(cl), CL_SUCCESS, "release"); });
      tk = cl;
    }
    RET("clEnqueueNDRangeKernel(arguments)", CL_INVALID_KERNEL_ARGS, cx,
        clEnqueueNDRangeKernel(Q(cq), tk, 2, NULL, gs, ls, 0, NULL, &out))
  }
  case 120: case 121: // a refused argument leaves the previous one in place
  {
    NEED(cx >= 0)
    tk = tkern();
    uint32_t init[16], in[16];
    for (int i = 0; i < 16; i++)
      init[i] = 0x11111111, in[i] = 100 + i;
    cl_mem par = clCreateBuffer(C(cx), CL_MEM_COPY_HOST_PTR, 64, init, &e);
    need(e, CL_SUCCESS, "clCreateBuffer");
    cl_mem cst = clCreateBuffer(C(cx), CL_MEM_COPY_HOST_PTR, 64, in, &e);
    need(e, CL_SUCCESS, "clCreateBuffer");
    rg.origin = 32; rg.size = 16;
    cl_mem sub = clCreateSubBuffer(par, 0, CL_BUFFER_CREATE_TYPE_REGION, &rg, &e);
    need(e, CL_SUCCESS, "clCreateSubBuffer");
    targs(tk, sub, cst, 16);
    static int freed; // destructor callbacks that ran
    freed = 0;
    auto note = [](cl_mem, void *) { freed++; };
    need(clSetMemObjectDestructorCallback(sub, note, NULL), CL_SUCCESS, "callback");
    need(clSetMemObjectDestructorCallback(cst, note, NULL), CL_SUCCESS, "callback");
    if (g_check)
      capture_reset();
    int bad = q(4);
    cl_int rc;
    cl_event gate = NULL, done = NULL;
    const char *nm = "clSetKernelArg(refused argument)";
    before = notified;
    if (bad < 2)
      want = CL_INVALID_ARG_SIZE, rc = clSetKernelArg(tk, bad, BADSZ[q(6)], q(2) ? (void *)&par : junk);
    else if (bad == 2 && q(2))
      want = CL_INVALID_ARG_VALUE, rc = clSetKernelArg(tk, 2, 16, NULL);
    else if (bad == 2)
      want = CL_INVALID_ARG_SIZE, rc = clSetKernelArg(tk, 2, 8, junk);
    else
      want = CL_INVALID_ARG_INDEX, rc = clSetKernelArg(tk, 4 + q(2), 16, junk);
    std::string said = g_check ? captured_stderr() : "";
    std::vector<int> after = notified;
    cl_command_queue tq = clCreateCommandQueue(C(cx), g_device, 0, &e);
    need(e, CL_SUCCESS, "clCreateCommandQueue");
    gate = clCreateUserEvent(C(cx), &e);
    need(e, CL_SUCCESS, "clCreateUserEvent");
    gs[0] = gs[1] = ls[0] = ls[1] = 2;
    need(clEnqueueNDRangeKernel(tq, tk, 2, NULL, gs, ls, 1, &gate, &done),
         CL_SUCCESS, "clEnqueueNDRangeKernel");
    bool early = q(2);
    cl_mem other = NULL;
    if (early)
    {
      need(clReleaseMemObject(sub), CL_SUCCESS, "release");
      need(clReleaseMemObject(cst), CL_SUCCESS, "release");
      other = clCreateBuffer(C(cx), 0, 16 + 16 * q(4), NULL, &e);
      need(e, CL_SUCCESS, "clCreateBuffer");
      if (freed)
        r.fail("lifetime", "op %d: after a refused clSetKernelArg, %d of the arguments of an "
                           "enqueued kernel were destroyed before it ran", opno, freed);
    }
    need(clSetUserEventStatus(gate, CL_COMPLETE), CL_SUCCESS, "clSetUserEventStatus");
    need(clWaitForEvents(1, &done), CL_SUCCESS, "clWaitForEvents");
    uint32_t res[16];
    need(clEnqueueReadBuffer(tq, par, CL_TRUE, 0, 64, res, 0, NULL, NULL),
         CL_SUCCESS, "clEnqueueReadBuffer");
    for (int i = 0; i < 16; i++)
      if (i == 8 ? res[i] == init[i] : res[i] != init[i])
        r.fail("error", "op %d: after a refused clSetKernelArg the kernel computed 0x%x (word %d)",
               opno, res[i], i);
    if (!early)
    {
      need(clReleaseMemObject(sub), CL_SUCCESS, "release");
      need(clReleaseMemObject(cst), CL_SUCCESS, "release");
    }
    else
      need(clReleaseMemObject(other), CL_SUCCESS, "release");
    need(clReleaseMemObject(par), CL_SUCCESS, "release");
    need(clReleaseCommandQueue(tq), CL_SUCCESS, "release");
    need(clReleaseEvent(gate), CL_SUCCESS, "release");
    need(clReleaseEvent(done), CL_SUCCESS, "release");
    what = nm;
    got = rc;
    nctx = cx;
    if (g_check)
      told_early = said, have_told = true;
    notified = after;
    break;
  }
  default: // 138 and more: null objects, devices and the rest
    if (which >= 138)
    {
      NEED(cx >= 0)
      static const char *SRC[] = {"kernel void k(global int *p) { *p = 1; }"};
      cl_sampler_properties sbad[3][3] = {{CL_SAMPLER_ADDRESSING_MODE, 0x1234, 0},
                                          {CL_SAMPLER_FILTER_MODE, 0x1234, 0},
                                          {0x4321, 1, 0}};
      cl_queue_properties qdev[] = {CL_QUEUE_PROPERTIES,
                                    (cl_queue_properties)CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE |
                                      (q(2) ? CL_QUEUE_ON_DEVICE : CL_QUEUE_ON_DEVICE_DEFAULT),
                                    0};
      cl_queue_properties qsz[] = {CL_QUEUE_SIZE, 4, 0};
      cl_device_id nodev = NULL, baddev = q(2) ? NULL : (cl_device_id)junk;
      cl_program np = NULL, fresh = NULL;
      const char *hn[] = {NULL}, *hx[] = {"x.h"};
      auto unbuilt = [&] {
        fresh = clCreateProgramWithSource(C(cx), 1, SRC, NULL, &e);
        need(e, CL_SUCCESS, "clCreateProgramWithSource");
        cl_program t = fresh;
        cleanup.push_back([=] { need(clReleaseProgram(t), CL_SUCCESS, "release"); });
        return fresh;
      };
      cl_event foreign = NULL;
      switch (q(80))
      {
#define NUL(f, w, ...) RET(#f "(NULL)", w, -1, f(__VA_ARGS__))
      case 0: NUL(clGetCommandQueueInfo, CL_INVALID_COMMAND_QUEUE, NULL, CL_QUEUE_DEVICE, sizeof junk, junk, NULL)
      case 1: NUL(clGetImageInfo, CL_INVALID_MEM_OBJECT, NULL, CL_IMAGE_WIDTH, sizeof junk, junk, NULL)
      case 2: NUL(clGetSamplerInfo, CL_INVALID_SAMPLER, NULL, CL_SAMPLER_CONTEXT, sizeof junk, junk, NULL)
      case 3: NUL(clGetProgramInfo, CL_INVALID_PROGRAM, NULL, CL_PROGRAM_CONTEXT, sizeof junk, junk, NULL)
      case 4: NUL(clGetProgramBuildInfo, CL_INVALID_PROGRAM, NULL, g_device, CL_PROGRAM_BUILD_STATUS, sizeof junk, junk, NULL)
      case 5: NUL(clCompileProgram, CL_INVALID_PROGRAM, NULL, 0, NULL, "", 0, NULL, NULL, NULL, NULL)
      case 6: NUL(clCreateKernelsInProgram, CL_INVALID_PROGRAM, NULL, 4, (cl_kernel *)junk, NULL)
      case 7: NUL(clGetKernelInfo, CL_INVALID_KERNEL, NULL, CL_KERNEL_NUM_ARGS, sizeof junk, junk, NULL)
      case 8: NUL(clGetKernelArgInfo, CL_INVALID_KERNEL, NULL, 0, CL_KERNEL_ARG_NAME, sizeof junk, junk, NULL)
      case 9: NUL(clGetKernelWorkGroupInfo, CL_INVALID_KERNEL, NULL, g_device, CL_KERNEL_WORK_GROUP_SIZE, sizeof junk, junk, NULL)
      case 10: NUL(clGetEventProfilingInfo, CL_INVALID_EVENT, NULL, CL_PROFILING_COMMAND_END, sizeof junk, junk, NULL)
      case 11: NUL(clSetEventCallback, CL_INVALID_EVENT, NULL, CL_COMPLETE, [](cl_event, cl_int, void *) {}, NULL)
      case 12: NUL(clSetMemObjectDestructorCallback, CL_INVALID_MEM_OBJECT, NULL, [](cl_mem, void *) {}, NULL)
      case 13: NUL(clSetContextDestructorCallback, CL_INVALID_CONTEXT, NULL, [](cl_context, void *) {}, NULL)
      case 14: RET("clSetContextDestructorCallback(no function)", CL_INVALID_VALUE, cx, clSetContextDestructorCallback(C(cx), NULL, NULL))
      case 15: NUL(clGetSupportedImageFormats, CL_INVALID_CONTEXT, NULL, 0, CL_MEM_OBJECT_IMAGE2D, 1, (cl_image_format *)junk, NULL)
      case 16: PTR("clCreateProgramWithSource(NULL)", CL_INVALID_CONTEXT, -1, clCreateProgramWithSource(NULL, 1, SRC, NULL, &e))
      case 17: n = BINREQ.size(); cjp = BINREQ.data();
        PTR("clCreateProgramWithBinary(NULL)", CL_INVALID_CONTEXT, -1, clCreateProgramWithBinary(NULL, 1, &g_device, &n, &cjp, NULL, &e))
      case 18: PTR("clCreateProgramWithBuiltInKernels(NULL)", CL_INVALID_CONTEXT, -1, clCreateProgramWithBuiltInKernels(NULL, 1, &g_device, "x", &e))
      case 19: PTR("clCreateCommandQueueWithProperties(NULL)", CL_INVALID_CONTEXT, -1, clCreateCommandQueueWithProperties(NULL, g_device, NULL, &e))
      case 20: PTR("clCreateSamplerWithProperties(NULL)", CL_INVALID_CONTEXT, -1, clCreateSamplerWithProperties(NULL, NULL, &e))
      case 21: case 22: PTR("clCreateSamplerWithProperties(properties)", CL_INVALID_VALUE, cx, clCreateSamplerWithProperties(C(cx), sbad[q(3)], &e))
      case 23: PTR("clCloneKernel(NULL)", CL_INVALID_KERNEL, -1, clCloneKernel(NULL, &e))
      case 24: NEED(k >= 0) NUL(clEnqueueNDRangeKernel, CL_INVALID_COMMAND_QUEUE, NULL, K(k), 1, NULL, gs, ls, 0, NULL, &out)
      case 25: NEED(k >= 0) RET("clEnqueueTask(NULL)", CL_INVALID_COMMAND_QUEUE, -1, clEnqueueTask(NULL, K(k), 0, NULL, &out))
      case 26: NUL(clEnqueueNativeKernel, CL_INVALID_COMMAND_QUEUE, NULL, native, &na, sizeof na, 0, NULL, NULL, 0, NULL, &out)
      case 27: NUL(clEnqueueMarkerWithWaitList, CL_INVALID_COMMAND_QUEUE, NULL, 0, NULL, &out)
      case 28: NUL(clEnqueueBarrierWithWaitList, CL_INVALID_COMMAND_QUEUE, NULL, 0, NULL, &out)
      case 29: RET("clEnqueueMarker(NULL)", CL_INVALID_COMMAND_QUEUE, -1, clEnqueueMarker(NULL, &out))
      case 30: RET("clEnqueueBarrier(NULL)", CL_INVALID_COMMAND_QUEUE, -1, clEnqueueBarrier(NULL))
      case 31: NEED(ue >= 0) evl[0] = E(ue); NUL(clEnqueueWaitForEvents, CL_INVALID_COMMAND_QUEUE, NULL, 1, evl)
      case 32: NEED(cq >= 0 && ue >= 0) evl[0] = E(ue);
        RET("clEnqueueWaitForEvents(none)", CL_INVALID_VALUE, cx, clEnqueueWaitForEvents(Q(cq), 0, q(2) ? evl : NULL))
      case 33: NEED(cq >= 0) RET("clEnqueueWaitForEvents(no list)", CL_INVALID_VALUE, cx, clEnqueueWaitForEvents(Q(cq), 1 + q(3), NULL))
      case 34: NEED(cq >= 0) RET("clEnqueueWaitForEvents(null event)", CL_INVALID_EVENT, cx, clEnqueueWaitForEvents(Q(cq), 1, evl))
      case 35: case 36: // an event of another context
      {
        NEED(cq >= 0)
        for (int x : live(UEV))
          if (o[x]->ctx != cx)
            foreign = E(x);
        NEED(foreign)
        evl[0] = foreign;
        RET("clEnqueueWaitForEvents(other context)", CL_INVALID_CONTEXT, cx, clEnqueueWaitForEvents(Q(cq), 1, evl))
      }
      case 37: t1 = tbuf(0, 64); NUL(clEnqueueMigrateMemObjects, CL_INVALID_COMMAND_QUEUE, NULL, 1, &t1, 0, 0, NULL, &out)
      case 38: case 39: // copies between images and buffers
      {
        int nul = q(3);
        NEED(cq >= 0)
        t1 = timg(0, FMT, ITYPES[it]);
        t2 = tbuf(0, 512);
        cl_command_queue xq = nul ? Q(cq) : NULL;
        cl_mem a = nul == 1 ? NULL : t1, b2 = nul == 2 ? NULL : t2, i2 = nul == 2 ? NULL : t1;
        cl_int w = nul ? CL_INVALID_MEM_OBJECT : CL_INVALID_COMMAND_QUEUE;
        int wc = nul ? cx : -1;
        o3[0] = 4;
        switch (q(3))
        {
        case 0: RET("clEnqueueCopyImage(NULL)", w, wc, clEnqueueCopyImage(xq, a, i2, z3, o3, r3, 0, NULL, &out))
        case 1: RET("clEnqueueCopyImageToBuffer(NULL)", w, wc, clEnqueueCopyImageToBuffer(xq, a, b2, z3, r3, 0, 0, NULL, &out))
        case 2: RET("clEnqueueCopyBufferToImage(NULL)", w, wc, clEnqueueCopyBufferToImage(xq, b2, a, 0, z3, r3, 0, NULL, &out))
        }
        break;
      }
      case 40: case 41: case 42: // images without a queue
        t1 = timg(0, FMT, ITYPES[it]);
        switch (q(4))
        {
        case 0: NUL(clEnqueueReadImage, CL_INVALID_COMMAND_QUEUE, NULL, t1, q(2), z3, r3, 0, 0, junk, 0, NULL, &out)
        case 1: NUL(clEnqueueWriteImage, CL_INVALID_COMMAND_QUEUE, NULL, t1, q(2), z3, r3, 0, 0, junk, 0, NULL, &out)
        case 2: NUL(clEnqueueFillImage, CL_INVALID_COMMAND_QUEUE, NULL, t1, junk, z3, r3, 0, NULL, &out)
        case 3: PTR("clEnqueueMapImage(NULL)", CL_INVALID_COMMAND_QUEUE, -1, clEnqueueMapImage(NULL, t1, q(2), CL_MAP_READ, z3, r3, &rp, &rp, 0, NULL, &out, &e))
        }
        break;
      case 43: NUL(clGetHostTimer, CL_INVALID_DEVICE, NULL, (cl_ulong *)junk)
      case 44: NUL(clGetDeviceAndHostTimer, CL_INVALID_DEVICE, NULL, (cl_ulong *)junk, (cl_ulong *)junk + 1)
      case 45: case 46: PTR("clCreateCommandQueue(device)", CL_INVALID_DEVICE, cx, clCreateCommandQueue(C(cx), baddev, 0, &e))
      case 47: case 48: PTR("clCreateCommandQueueWithProperties(device)", CL_INVALID_DEVICE, cx, clCreateCommandQueueWithProperties(C(cx), baddev, NULL, &e))
      case 49: PTR("clCreateCommandQueueWithProperties(on the device)", CL_INVALID_QUEUE_PROPERTIES, cx, clCreateCommandQueueWithProperties(C(cx), g_device, qdev, &e))
      case 50: PTR("clCreateCommandQueueWithProperties(size)", CL_INVALID_VALUE, cx, clCreateCommandQueueWithProperties(C(cx), g_device, qsz, &e))
      case 51: PTR("clCreateCommandQueue(properties)", CL_INVALID_VALUE, cx, clCreateCommandQueue(C(cx), g_device, (cl_command_queue_properties)4 << q(60), &e))
      case 52: NEED(p >= 0) RET("clBuildProgram(no device)", CL_INVALID_DEVICE, o[p]->ctx, clBuildProgram((cl_program)o[p]->h, 1, &nodev, "", NULL, NULL))
      case 53: NEED(p >= 0) RET("clCompileProgram(no device)", CL_INVALID_DEVICE, o[p]->ctx, clCompileProgram((cl_program)o[p]->h, 1, &nodev, "", 0, NULL, NULL, NULL, NULL))
      case 54: NEED(p >= 0) RET("clCompileProgram(devices)", CL_INVALID_VALUE, o[p]->ctx, clCompileProgram((cl_program)o[p]->h, 1, NULL, "", 0, NULL, NULL, NULL, NULL))
      case 55: NEED(p >= 0) RET("clCompileProgram(no callback)", CL_INVALID_VALUE, o[p]->ctx, clCompileProgram((cl_program)o[p]->h, 0, NULL, "", 0, NULL, NULL, NULL, junk))
      case 56: case 57: NEED(p >= 0)
        fresh = unbuilt();
        switch (q(5))
        {
        case 0: RET("clCompileProgram(headers)", CL_INVALID_VALUE, cx, clCompileProgram(fresh, 0, NULL, "", 1, NULL, hx, NULL, NULL))
        case 1: RET("clCompileProgram(header names)", CL_INVALID_VALUE, cx, clCompileProgram(fresh, 0, NULL, "", 1, &fresh, NULL, NULL, NULL))
        case 2: RET("clCompileProgram(no headers)", CL_INVALID_VALUE, cx, clCompileProgram(fresh, 0, NULL, "", 0, q(2) ? &fresh : NULL, hx, NULL, NULL))
        case 3: RET("clCompileProgram(header name)", CL_INVALID_VALUE, cx, clCompileProgram(fresh, 0, NULL, "", 1, &fresh, hn, NULL, NULL))
        case 4: RET("clCompileProgram(header)", CL_INVALID_PROGRAM, cx, clCompileProgram(fresh, 0, NULL, "", 1, &np, hx, NULL, NULL))
        }
        break;
      case 58: NEED(p >= 0) np = (cl_program)o[p]->h; PTR("clLinkProgram(NULL)", CL_INVALID_CONTEXT, -1, clLinkProgram(NULL, 0, NULL, "", 1, &np, NULL, NULL, &e))
      case 59: NEED(p >= 0) np = (cl_program)o[p]->h; PTR("clLinkProgram(devices)", CL_INVALID_VALUE, cx, clLinkProgram(C(cx), 1, NULL, "", 1, &np, NULL, NULL, &e))
      case 60: NEED(p >= 0) np = (cl_program)o[p]->h; PTR("clLinkProgram(device list)", CL_INVALID_VALUE, cx, clLinkProgram(C(cx), 0, &g_device, "", 1, &np, NULL, NULL, &e))
      case 61: NEED(p >= 0) np = (cl_program)o[p]->h; PTR("clLinkProgram(no device)", CL_INVALID_DEVICE, cx, clLinkProgram(C(cx), 1, &nodev, "", 1, &np, NULL, NULL, &e))
      case 62: NEED(p >= 0) np = (cl_program)o[p]->h; PTR("clLinkProgram(no callback)", CL_INVALID_VALUE, cx, clLinkProgram(C(cx), 0, NULL, "", 1, &np, NULL, junk, &e))
      case 63: NEED(p >= 0) np = (cl_program)o[p]->h; PTR("clLinkProgram(none)", CL_INVALID_VALUE, cx, clLinkProgram(C(cx), 0, NULL, "", 0, q(2) ? &np : NULL, NULL, NULL, &e))
      case 64: PTR("clLinkProgram(no list)", CL_INVALID_VALUE, cx, clLinkProgram(C(cx), 0, NULL, "", 1 + q(3), NULL, NULL, NULL, &e))
      case 65: PTR("clLinkProgram(null program)", CL_INVALID_PROGRAM, cx, clLinkProgram(C(cx), 0, NULL, "", 1, &np, NULL, NULL, &e))
      case 66: np = unbuilt(); PTR("clLinkProgram(not compiled)", CL_INVALID_OPERATION, cx, clLinkProgram(C(cx), 0, NULL, "", 1, &np, NULL, NULL, &e))
      case 67: RET("clCreateKernelsInProgram(not built)", CL_INVALID_PROGRAM_EXECUTABLE, cx, clCreateKernelsInProgram(unbuilt(), 4, (cl_kernel *)junk, NULL))
      case 69: RET("clGetProgramInfo(not built)", CL_INVALID_PROGRAM_EXECUTABLE, cx, clGetProgramInfo(unbuilt(), q(2) ? CL_PROGRAM_NUM_KERNELS : CL_PROGRAM_KERNEL_NAMES, sizeof junk, junk, NULL))
      case 70: NEED(sm >= 0) RET("clGetSamplerInfo(size)", CL_INVALID_VALUE, o[sm]->ctx, clGetSamplerInfo((cl_sampler)o[sm]->h, CL_SAMPLER_CONTEXT, q(8), junk, NULL))
      case 71: NEED(ue >= 0) RET("clGetEventInfo(size)", CL_INVALID_VALUE, o[ue]->ctx, clGetEventInfo(E(ue), CL_EVENT_CONTEXT, q(8), junk, NULL))
      case 72: NUL(clEnqueueReadBuffer, CL_INVALID_COMMAND_QUEUE, NULL, tbuf(0, 64), 1, 0, 1, junk, 0, NULL, &out)
      case 73: NUL(clEnqueueWriteBuffer, CL_INVALID_COMMAND_QUEUE, NULL, tbuf(0, 64), 1, 0, 1, junk, 0, NULL, &out)
      case 74: PTR("clCreateProgramWithBuiltInKernels(unknown)", CL_INVALID_VALUE, cx, clCreateProgramWithBuiltInKernels(C(cx), 1, &g_device, "nope", &e))
      case 75: PTR("clCreateContext(null device)", CL_INVALID_DEVICE, -1, clCreateContext(NULL, 1, &nodev, NULL, NULL, &e))
      case 76: PTR("clCreateContext(no device)", CL_INVALID_VALUE, -1, clCreateContext(NULL, 1, NULL, NULL, NULL, &e))
      case 77: PTR("clCreateContextFromType(data without callback)", CL_INVALID_VALUE, -1, clCreateContextFromType(NULL, CL_DEVICE_TYPE_ALL, NULL, junk, &e))
      case 78: RET("clGetDeviceIDs(bad type)", CL_DEVICE_NOT_FOUND, -1, clGetDeviceIDs(g_platform, CL_DEVICE_TYPE_CUSTOM, 1, (cl_device_id *)junk, NULL))
      case 79: NEED(k >= 0) RET("clGetKernelWorkGroupInfo(custom)", CL_INVALID_VALUE, o[k]->ctx, clGetKernelWorkGroupInfo(K(k), g_device, CL_KERNEL_GLOBAL_WORK_SIZE, sizeof junk, junk, NULL))
      case 68: NEED(im >= 0) RET("clGetImageInfo(element size)", CL_INVALID_VALUE, o[im]->ctx, clGetImageInfo(M(im), CL_IMAGE_ELEMENT_SIZE, q(8), junk, NULL))
      }
      break;
    }
    // more regions outside of images
    NEED(cq >= 0)
    t1 = timg(0, FMT, ITYPES[it]);
    outside();
    switch (q(4))
    {
    case 0: RET("clEnqueueReadImage(out of range)", CL_INVALID_VALUE, cx,
                clEnqueueReadImage(Q(cq), t1, CL_FALSE, o3, r3, 0, 0, junk, 0, NULL, &out))
    case 1: RET("clEnqueueWriteImage(out of range)", CL_INVALID_VALUE, cx,
                clEnqueueWriteImage(Q(cq), t1, CL_FALSE, o3, r3, 0, 0, junk, 0, NULL, &out))
    case 2: PTR("clEnqueueMapImage(out of range)", CL_INVALID_VALUE, cx,
                clEnqueueMapImage(Q(cq), t1, CL_FALSE, CL_MAP_READ, o3, r3, &rp, &rp, 0, NULL, &out, &e))
    case 3: t2 = tbuf(0, 64);
            RET("clEnqueueReadBuffer(blocking, out of range)", CL_INVALID_VALUE, cx,
                clEnqueueReadBuffer(Q(cq), t2, CL_TRUE, 61 + q(3), 4, junk, 0, NULL, &out))
    }
    break;
  }
  std::string told = have_told ? told_early : g_check ? captured_stderr() : "";
  for (auto &f : cleanup)
    f();
  if (!ok)
    return;
  D("op %d: invalid call %d %s\n", opno, which, what);
  r.stat("invalid_calls");
  if (got != want)
    r.fail("error", "op %d: %s gave %d instead of %d", opno, what, got, want);
  if (g_check)
  {
    // OCLGRIND_CHECK_API reports the function and the error
    std::string f(what, strcspn(what, "("));
    size_t at = told.find("Oclgrind - OpenCL runtime error detected");
    size_t more = at == std::string::npos
                    ? at
                    : told.find("Oclgrind - OpenCL runtime error detected", at + 1);
    const char *nm = errname(want);
    if (at == std::string::npos || more != std::string::npos ||
        told.find("Function: " + f + "\n") == std::string::npos ||
        (nm && which != 13 && told.find(nm + std::string("\n")) == std::string::npos))
      r.fail("report", "op %d: %s was reported as '%s'", opno, what, told.c_str());
    capture_reset();
  }
  if (!isret && h)
    r.fail("error", "op %d: %s failed but returned an object", opno, what);
  if (out)
    r.fail("error", "op %d: %s failed but returned an event", opno, what);
  for (size_t i = 0; i < o.size(); i++)
    if (o[i]->kind == CTX && o[i]->flags)
    {
      int d = notified[i] - before[i];
      if (d != ((int)i == nctx ? 1 : 0))
        r.fail("notify", "op %d: %s notified context %zu %d times", opno, what, i, d);
    }
  for (size_t i = 0; i < sizeof junk; i++)
    if (which != 49 && junk[i] != 0x33)
      r.fail("error", "op %d: %s failed but wrote to the caller's memory", opno, what);
}

void W::run(uint64_t seed, const std::vector<bool> &keep)
{
  for (size_t i = 0; i < keep.size(); i++)
  {
    opno = i;
    if (!keep[i])
      continue;
    Rnd q(seed + i * 7919);
    static const int start[] = {0, 2, 5, 21, 24, 5, 19, 14};
    int t = i < 8 ? start[i] : (int)q(100);
    std::vector<int> nb = notified;
    if (g_api && i >= 8 && q.chance(0.35))
      t = 99;
    if (t < 2)
      op_context(q);
    else if (t < 5)
      op_queue(q);
    else if (t < 11)
      op_buffer(q);
    else if (t < 14)
      op_sub(q);
    else if (t < 17)
      op_image(q);
    else if (t < 19)
      op_ibuf(q);
    else if (t < 21)
      op_sampler(q);
    else if (t < 24)
      op_program(q);
    else if (t < 30)
      op_kernel(q);
    else if (t < 33)
      op_uev(q);
    else if (t < 63)
      op_enqueue(q);
    else if (t < 66)
      op_retain(q);
    else if (t < 77)
      op_release(q, -1);
    else if (t < 79)
      op_setu(q, -1);
    else if (t < 82)
      op_sync(q);
    else if (t < 87)
      op_query(q);
    else if (t < 92)
      op_dcb(q);
    else if (t < 94)
      op_ecb(q);
    else
      op_invalid(q);
    check_destructors();
    r.nontrivial(fnv(&t, sizeof t, o.size() * 131 + c.size()));
  }
  opno = 1000;
  Rnd q(seed ^ 0x5555);
  set_all();
  for (int x : live(QUEUE))
  {
    need(clFinish(Q(x)), CL_SUCCESS, "clFinish");
    complete(x);
    check_destructors();
  }
  // everything still reachable can be read back
  for (int m : live_any(-1, BUF, SUB))
  {
    int qq = home(q, m);
    if (qq < 0)
      continue;
    Bytes v(o[m]->size);
    need(clEnqueueReadBuffer(Q(qq), M(m), CL_TRUE, 0, v.size(), v.data(), 0, NULL, NULL),
         CL_SUCCESS, "clEnqueueReadBuffer");
    verify(m, v.data(), "at the end");
  }
  for (;;)
  {
    std::vector<int> v;
    for (size_t i = 0; i < o.size(); i++)
      if (o[i]->refs > 0)
        v.push_back(i);
    if (v.empty())
      break;
    opno++;
    op_release(q, q.pick(v));
    check_destructors();
  }
  for (size_t i = 0; i < c.size(); i++)
    if (c[i]->evfired != c[i]->evcb)
      r.fail("callback", "%d of %d callbacks of command %zu ran", c[i]->evfired,
             c[i]->evcb, i);
  for (auto &x : o)
    if (x->kind == UEV && x->refs == 0 && !x->uset)
      r.fail("harness", "unset user event");
}

static void warm()
{
  // front end and plugin statics are set up outside the window
}

static void run(Run &r)
{
  g_fault = r.mode == "oom";
  g_api = r.mode == "api";
  g_check = r.rng(2);
  if (g_check)
    setenv("OCLGRIND_CHECK_API", "1", 1);
  else
    unsetenv("OCLGRIND_CHECK_API");
  set_threads(1 + r.rng(2));
  int n = 8 + r.rng(r.rng(4) ? 60 : 160);
  uint64_t seed = r.rng.next();
  std::vector<bool> keep;
  for (int i = 0; i < n; i++)
    keep.push_back(r.keep());
  r.cfg.heapcheck = 1;
  if (g_fault)
  {
    r.cfg.p_alloc = 0.3;
    r.cfg.mem_threshold = 65536;
  }
  r.begin();
  dsim_alloc_faults(0);
  {
    W w(r, true);
    w.run(seed, keep);
  }
  if (!g_fault)
  {
    uint64_t b0, b1;
    uint64_t n0 = dsim_heap_live(&b0);
    uint32_t mark = dsim_heap_mark();
    {
      W w(r, false);
      w.run(seed, keep);
    }
    uint64_t n1 = dsim_heap_live(&b1);
    if (n1 != n0 || b1 != b0)
    {
      static char buf[6000];
      dsim_heap_describe(mark, buf, sizeof buf);
      r.fail("leak", "repeating the history changed the live heap from %llu blocks (%llu bytes) to %llu (%llu)\n%s",
             (unsigned long long)n0, (unsigned long long)b0, (unsigned long long)n1,
             (unsigned long long)b1, buf);
    }
  }
  r.end();
}
static RegWorkload reg("life", setup, run);
} // namespace
