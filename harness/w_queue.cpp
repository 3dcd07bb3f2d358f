// Host-side command histories: C14 order, C15 status/callbacks, C16 buffer
// data, C17 image data, C21 profiling, C23 captured arguments.
#include "h.h"
#include <array>
#include <memory>
#include <pthread.h>

namespace
{

static cl_context CTX;
static cl_program PROG;
static const char *SRC = R"CLC(
kernel void step(global uchar *dst, uint doff, global const uchar *src,
                 uint soff, uint mul, uint add, local uchar *tmp)
{
  size_t i = get_global_id(0);
  tmp[get_local_id(0)] = src[soff + i];
  barrier(CLK_LOCAL_MEM_FENCE);
  dst[doff + i] = tmp[get_local_id(0)] * mul + add;
}
typedef struct { uchar4 v; uint s; } parm_t;
kernel void sparm(global uchar *dst, uint doff, parm_t p)
{
  size_t i = get_global_id(0);
  dst[doff + i] = (i & 1) ? p.v.x + p.s : p.v.w + i;
}
)CLC";

static void setup(const std::string &v)
{
  setenv("OCLGRIND_PLUGINS", BUILD_DIR "/libobs.so", 1);
  obs_hooks.threadsafe = 1;
  cl_setup_platform();
  CTX = cl_new_context();
  PROG = cl_build(CTX, SRC, "");
}

enum CT
{
  T_NATIVE, T_WRITE, T_READ, T_COPY, T_FILL, T_KERNEL, T_SPARM, T_MARKER,
  T_BARRIER, T_WAITFOR, T_MIGRATE, T_WRECT, T_RRECT, T_CRECT, T_MAP, T_UNMAP,
  T_IREAD, T_IWRITE, T_ICOPY, T_IFILL, T_B2I, T_I2B, T_IMAP
};
static const char *CTN[] = {
  "native", "write", "read", "copy", "fill", "kernel", "kernel2", "marker",
  "barrier", "waitforevents", "migrate", "writerect", "readrect", "copyrect",
  "map", "unmap", "readimage", "writeimage", "copyimage", "fillimage",
  "copybuf2img", "copyimg2buf", "mapimage"};

enum OT { O_CMD, O_SETU, O_FINISH, O_FLUSH, O_WAIT, O_QUERY, O_CB, O_RELQ };

typedef std::vector<uint8_t> Bytes;

struct Obj // memory object
{
  bool image = false;
  int parent = -1; // sub-buffer
  size_t origin = 0, size = 0;
  size_t w = 1, h = 1, d = 1, px = 4; // image
  cl_mem_object_type itype = 0;
  size_t arr = 1;
  cl_mem mem = NULL;
};

struct W;
struct CB
{
  W *w;
  int cmd, type;
  int user = -1; // user event index
  int calls = 0;
  int status = 99;
  bool registered = false;
};

struct Cmd
{
  int id, type, q;
  bool blocking = false, want_event = true;
  std::vector<int> waits, uwaits;
  std::vector<int> rd, wr; // root objects
  // parameters
  int o1 = -1, o2 = -1;
  size_t off1 = 0, off2 = 0, len = 0;
  size_t org1[3] = {0, 0, 0}, org2[3] = {0, 0, 0}, reg[3] = {1, 1, 1};
  size_t rp1 = 0, sp1 = 0, rp2 = 0, sp2 = 0;
  int zp = 0; // pitches passed as 0: bit 0 rp1, 1 sp1, 2 rp2, 3 sp2
  uint32_t mul = 1, add = 0;
  size_t ls = 1;
  Bytes host, expect; // host memory and its expected final contents
  Bytes pat;
  int mflags = 0;
  // derived
  bool fails = false;
  std::set<int> failcodes;
  std::vector<bool> hb; // commands / user events that may delay this one
  std::vector<bool> uhb;
  // those that must be final before this command starts (a predecessor that
  // fails does so without waiting for the rest of its wait list)
  std::vector<bool> mhb, muhb;
  // runtime
  cl_event ev = NULL;
  int executed = 0;
  bool enqueued = false;
  int laststatus = 4;
  void *mapptr = NULL;
};

struct UEv
{
  int status; // final
  bool helper;
  cl_event ev = NULL;
  volatile bool setting = false;
  volatile bool set = false;
};
struct Op
{
  int t, a = -1, b = 0;
  std::vector<int> l;
};

struct W
{
  Run *r;
  std::vector<bool> ooo;
  std::vector<cl_command_queue> q;
  std::vector<bool> qrel;
  std::vector<Obj> obj;
  std::vector<Bytes> shadow; // per root object
  std::vector<Bytes> init;
  std::vector<std::unique_ptr<Cmd>> cmd;
  std::vector<UEv> uev;
  std::vector<Op> ops;
  std::vector<std::unique_ptr<CB>> cbs;
  std::vector<int> log;
  bool finished = false;
  bool dangling_args = false;
};
static W *G;

static int root(W &w, int o) { return w.obj[o].parent >= 0 ? w.obj[o].parent : o; }

// ----------------------------------------------------------- reference model
static Bytes &mem_of(W &w, int o, size_t &base)
{
  base = w.obj[o].origin;
  return w.shadow[root(w, o)];
}
static size_t ipitch(const Obj &o) { return o.w * o.px; }
// origin/region of an image in (x, y, z) with 1D arrays using y for the layer
static void apply(W &w, Cmd &c)
{
  size_t b1, b2;
  if (c.fails)
    return;
  switch (c.type)
  {
  case T_WRITE:
  {
    Bytes &m = mem_of(w, c.o1, b1);
    memcpy(&m[b1 + c.off1], c.host.data(), c.len);
    break;
  }
  case T_READ:
  {
    Bytes &m = mem_of(w, c.o1, b1);
    memcpy(c.expect.data(), &m[b1 + c.off1], c.len);
    break;
  }
  case T_COPY:
  {
    Bytes &s = mem_of(w, c.o1, b1);
    Bytes &d = mem_of(w, c.o2, b2);
    Bytes t(s.begin() + b1 + c.off1, s.begin() + b1 + c.off1 + c.len);
    memcpy(&d[b2 + c.off2], t.data(), c.len);
    break;
  }
  case T_FILL:
  {
    Bytes &m = mem_of(w, c.o1, b1);
    for (size_t i = 0; i < c.len; i++)
      m[b1 + c.off1 + i] = c.pat[i % c.pat.size()];
    break;
  }
  case T_KERNEL:
  {
    Bytes &d = mem_of(w, c.o2, b2);
    Bytes &s = mem_of(w, c.o1, b1);
    for (size_t i = 0; i < c.len; i++)
      d[b2 + c.off2 + i] = s[b1 + c.off1 + i] * c.mul + c.add;
    break;
  }
  case T_SPARM:
  {
    Bytes &d = mem_of(w, c.o1, b1);
    for (size_t i = 0; i < c.len; i++)
      d[b1 + c.off1 + i] = (i & 1) ? (uint8_t)c.mul + c.add
                                   : (uint8_t)(c.mul >> 24) + i;
    break;
  }
  case T_WRECT: case T_RRECT: case T_CRECT:
    for (size_t z = 0; z < c.reg[2]; z++)
      for (size_t y = 0; y < c.reg[1]; y++)
        for (size_t x = 0; x < c.reg[0]; x++)
        {
          size_t p1 = c.org1[0] + x + (c.org1[1] + y) * c.rp1 +
                      (c.org1[2] + z) * c.sp1;
          size_t p2 = c.org2[0] + x + (c.org2[1] + y) * c.rp2 +
                      (c.org2[2] + z) * c.sp2;
          Bytes &m = mem_of(w, c.o1, b1);
          if (c.type == T_WRECT)
            m[b1 + p1] = c.host[p2];
          else if (c.type == T_RRECT)
            c.expect[p2] = m[b1 + p1];
          else
          {
            Bytes &d = mem_of(w, c.o2, b2);
            d[b2 + p2] = m[b1 + p1];
          }
        }
    break;
  case T_MAP:
  {
    Bytes &m = mem_of(w, c.o1, b1);
    memcpy(c.expect.data(), &m[b1 + c.off1], c.len);
    if (c.mflags & CL_MAP_WRITE)
      for (size_t i = 0; i < c.len; i++)
        if (i % 3 != 1)
          m[b1 + c.off1 + i] = c.pat[i % c.pat.size()];
    break;
  }
  case T_IREAD: case T_IWRITE: case T_ICOPY: case T_IFILL: case T_B2I:
  case T_I2B: case T_IMAP:
  {
    bool i1 = c.type != T_B2I;
    for (size_t z = 0; z < c.reg[2]; z++)
      for (size_t y = 0; y < c.reg[1]; y++)
        for (size_t x = 0; x < c.reg[0]; x++)
          for (size_t b = 0; b < w.obj[i1 ? c.o1 : c.o2].px; b++)
          {
            const Obj &io = w.obj[i1 ? c.o1 : c.o2];
            const size_t *io_o = i1 ? c.org1 : c.org2;
            size_t ip = ipitch(io), isp = w.obj[i1 ? c.o1 : c.o2].w *
                                          w.obj[i1 ? c.o1 : c.o2].h * io.px;
            size_t pi = (io_o[0] + x) * io.px + b + (io_o[1] + y) * ip +
                        (io_o[2] + z) * isp;
            Bytes &im = w.shadow[i1 ? c.o1 : c.o2];
            size_t lin = x * io.px + b + y * c.rp1 + z * c.sp1;
            size_t pk = x * io.px + b + y * c.reg[0] * io.px +
                        z * c.reg[0] * c.reg[1] * io.px;
            switch (c.type)
            {
            case T_IREAD: c.expect[lin] = im[pi]; break;
            case T_IWRITE: im[pi] = c.host[lin]; break;
            case T_IFILL:
            {
              // colour channels are the low bytes of pat[0..3]
              size_t cs = io.px <= 4 ? 1 : io.px / 4;
              im[pi] = b % cs == 0 ? c.pat[b / cs] : 0;
              break;
            }
            case T_IMAP:
              c.expect[pk] = im[pi];
              if (c.mflags & CL_MAP_WRITE)
                im[pi] = c.pat[(x + y + z + b) % c.pat.size()];
              break;
            case T_ICOPY:
            {
              const Obj &d = w.obj[c.o2];
              size_t pd = (c.org2[0] + x) * d.px + b +
                          (c.org2[1] + y) * ipitch(d) +
                          (c.org2[2] + z) * d.w * d.h * d.px;
              w.shadow[c.o2][pd] = im[pi];
              break;
            }
            case T_B2I:
            {
              Bytes &m = mem_of(w, c.o1, b1);
              im[pi] = m[b1 + c.off1 + pk];
              break;
            }
            case T_I2B:
            {
              Bytes &m = mem_of(w, c.o2, b2);
              m[b2 + c.off2 + pk] = im[pi];
              break;
            }
            }
          }
    break;
  }
  default:
    break;
  }
}

// ------------------------------------------------------------------ runtime
static bool is_final(int s) { return s <= 0; }

static void check_status(W &w, Cmd &c, int s, bool must_final)
{
  if (s > c.laststatus)
    w.r->fail("status", "command %d (%s): status went from %d back to %d", c.id,
              CTN[c.type], c.laststatus, s);
  c.laststatus = s;
  if (is_final(s))
  {
    if (c.fails ? !c.failcodes.count(s) : s != CL_COMPLETE)
      w.r->fail("status", "command %d (%s): final status %d, expected %s", c.id,
                CTN[c.type], s, c.fails ? "the error of a failed event" : "0");
    for (size_t u = 0; u < w.uev.size(); u++)
      if (c.muhb[u] && !c.fails && !w.uev[u].setting)
        w.r->fail("wait-list", "command %d (%s) complete before user event %zu",
                  c.id, CTN[c.type], u);
    if (c.type == T_NATIVE && c.executed != !c.fails)
      w.r->fail("status", "command %d: final status %d but executed %d times",
                c.id, s, c.executed);
  }
  else if (must_final)
    w.r->fail("not-executed", "command %d (%s) has status %d after the wait",
              c.id, CTN[c.type], s);
}
static int query(W &w, Cmd &c, bool must_final)
{
  if (!c.ev)
  {
    if (must_final && c.type == T_NATIVE && c.executed != !c.fails)
      w.r->fail("not-executed", "command %d executed %d times after the wait",
                c.id, c.executed);
    return 1;
  }
  cl_int s = 77;
  w.r->require_cl(clGetEventInfo(c.ev, CL_EVENT_COMMAND_EXECUTION_STATUS,
                                 sizeof s, &s, NULL),
                  CL_SUCCESS, "clGetEventInfo");
  check_status(w, c, s, must_final);
  return s;
}

// The arguments of a native kernel: the command's number and a pattern made of it
static void native_args(uint8_t *a, size_t size, int id)
{
  for (size_t i = 0; i < size; i++)
    a[i] = id + i * (id * 2 + 41);
}
static void native_run(const uint8_t *a, size_t size)
{
  W &w = *G;
  std::vector<uint8_t> want(size);
  native_args(want.data(), size, a[0]);
  if (a[0] >= w.cmd.size() || w.cmd[a[0]]->type != T_NATIVE ||
      memcmp(a, want.data(), size))
  {
    w.r->fail("native-args", "native kernel received corrupted arguments");
    return;
  }
  struct
  {
    int id;
  } nn = {a[0]}, *n = &nn;
  Cmd &c = *w.cmd[n->id];
  if (c.executed++)
    w.r->fail("exactly-once", "command %d executed more than once", c.id);
  if (c.fails)
    w.r->fail("error-propagation",
              "command %d executed although an event in its wait list failed",
              c.id);
  for (size_t i = 0; i < w.cmd.size(); i++)
    if (c.mhb[i])
    {
      Cmd &p = *w.cmd[i];
      if (p.type == T_NATIVE && !p.fails && !p.executed)
        w.r->fail("order", "command %d executed before command %d", c.id, p.id);
      if (p.ev)
      {
        cl_int s = 77;
        clGetEventInfo(p.ev, CL_EVENT_COMMAND_EXECUTION_STATUS, sizeof s, &s,
                       NULL);
        if (!is_final(s))
          w.r->fail("order",
                    "command %d executed while command %d has status %d", c.id,
                    p.id, s);
      }
    }
  for (size_t u = 0; u < w.uev.size(); u++)
    if (c.muhb[u] && !w.uev[u].setting)
      w.r->fail("wait-list", "command %d executed before user event %zu was set",
                c.id, u);
  w.log.push_back(c.id);
  dsim_event(0x4e41, c.id);
}
template <int SIZE> static void native_fn(void *a)
{
  native_run((const uint8_t *)a, SIZE);
}

static void CL_CALLBACK cb_fn(cl_event ev, cl_int status, void *data)
{
  CB &cb = *(CB *)data;
  W &w = *cb.w;
  cb.calls++;
  cb.status = status;
  if (cb.calls > 1)
    w.r->fail("callback", "callback of %s %d called %d times",
              cb.user >= 0 ? "user event" : "command",
              cb.user >= 0 ? cb.user : cb.cmd, cb.calls);
  int want_err = 0;
  cl_int s = 77;
  clGetEventInfo(ev, CL_EVENT_COMMAND_EXECUTION_STATUS, sizeof s, &s, NULL);
  if (cb.user >= 0)
  {
    if (status != w.uev[cb.user].status || s != status)
      w.r->fail("callback", "callback of user event %d got status %d, event %d",
                cb.user, status, s);
  }
  else
  {
    Cmd &c = *w.cmd[cb.cmd];
    if (ev != c.ev)
      w.r->fail("callback", "callback got a different event");
    if (c.fails)
      want_err = 1;
    if (want_err ? !c.failcodes.count(status) : status != cb.type)
      w.r->fail("callback",
                "callback of command %d registered for %d got status %d",
                cb.cmd, cb.type, status);
    if (s > cb.type)
      w.r->fail("callback", "callback of command %d for %d called in state %d",
                cb.cmd, cb.type, s);
    if (is_final(s))
      check_status(w, c, s, false);
  }
  dsim_event(0x4342, cb.cmd);
}

static cl_event evwl(W &w, Cmd &c, std::vector<cl_event> &l)
{
  for (int i : c.waits)
    l.push_back(w.cmd[i]->ev);
  for (int u : c.uwaits)
    l.push_back(w.uev[u].ev);
  return NULL;
}

static void do_cmd(W &w, Cmd &c)
{
  Run &r = *w.r;
  std::vector<cl_event> l;
  evwl(w, c, l);
  cl_uint nl = l.size();
  const cl_event *wl = nl ? l.data() : NULL;
  cl_event *ev = c.want_event ? &c.ev : NULL;
  cl_command_queue q = w.q[c.q];
  cl_bool bl = c.blocking;
  cl_int e = CL_SUCCESS;
  Obj *o1 = c.o1 >= 0 ? &w.obj[c.o1] : NULL, *o2 = c.o2 >= 0 ? &w.obj[c.o2] : NULL;
  c.enqueued = true;
  auto zp = [&](int bit, size_t v) { return c.zp >> bit & 1 ? 0 : v; };
  switch (c.type)
  {
  case T_NATIVE:
  {
    static const size_t SZ[] = {1, 2, 4, 8, 16, 40};
    static void (*const FN[])(void *) = {native_fn<1>, native_fn<2>,  native_fn<4>,
                                         native_fn<8>, native_fn<16>, native_fn<40>};
    uint8_t a[40];
    native_args(a, sizeof a, c.id);
    e = clEnqueueNativeKernel(q, FN[c.id % 6], a, SZ[c.id % 6], 0, NULL, NULL, nl, wl, ev);
    memset(a, 0xdd, sizeof a); // arguments were captured
    break;
  }
  case T_WRITE:
    e = clEnqueueWriteBuffer(q, o1->mem, bl, c.off1, c.len, c.host.data(), nl,
                             wl, ev);
    break;
  case T_READ:
    e = clEnqueueReadBuffer(q, o1->mem, bl, c.off1, c.len, c.host.data(), nl, wl,
                            ev);
    break;
  case T_COPY:
    e = clEnqueueCopyBuffer(q, o1->mem, o2->mem, c.off1, c.off2, c.len, nl, wl,
                            ev);
    break;
  case T_FILL:
  {
    Bytes p = c.pat;
    e = clEnqueueFillBuffer(q, o1->mem, p.data(), p.size(), c.off1, c.len, nl,
                            wl, ev);
    std::fill(p.begin(), p.end(), 0xdd);
    break;
  }
  case T_KERNEL: case T_SPARM:
  {
    cl_kernel k = clCreateKernel(PROG, c.type == T_KERNEL ? "step" : "sparm", &e);
    r.require_cl(e, CL_SUCCESS, "clCreateKernel");
    uint32_t d = c.off2, s = c.off1, m = c.mul, a = c.add;
    if (c.type == T_KERNEL)
    {
      clSetKernelArg(k, 0, sizeof(cl_mem), &o2->mem);
      clSetKernelArg(k, 1, 4, &d);
      clSetKernelArg(k, 2, sizeof(cl_mem), &o1->mem);
      clSetKernelArg(k, 3, 4, &s);
      clSetKernelArg(k, 4, 4, &m);
      clSetKernelArg(k, 5, 4, &a);
      e = clSetKernelArg(k, 6, c.ls, NULL);
    }
    else
    {
      struct
      {
        uint32_t v, s;
      } p = {c.mul, c.add};
      clSetKernelArg(k, 0, sizeof(cl_mem), &o1->mem);
      clSetKernelArg(k, 1, 4, &s);
      e = clSetKernelArg(k, 2, sizeof p, &p);
    }
    r.require_cl(e, CL_SUCCESS, "clSetKernelArg");
    size_t gs = c.len, ls = c.ls;
    e = clEnqueueNDRangeKernel(q, k, 1, NULL, &gs, &ls, nl, wl, ev);
    // arguments are captured at enqueue: change them afterwards
    if (w.dangling_args)
    {
      uint32_t z = 0xffffff00;
      if (c.type == T_KERNEL)
      {
        clSetKernelArg(k, 1, 4, &z);
        clSetKernelArg(k, 3, 4, &z);
        clSetKernelArg(k, 4, 4, &z);
        clSetKernelArg(k, 5, 4, &z);
        clSetKernelArg(k, 6, 1, NULL);
        clSetKernelArg(k, 0, sizeof(cl_mem), &o1->mem);
        clSetKernelArg(k, 2, sizeof(cl_mem), &o2->mem);
      }
      else
      {
        uint64_t zz = ~0ull;
        clSetKernelArg(k, 1, 4, &z);
        clSetKernelArg(k, 2, 8, &zz);
      }
    }
    clReleaseKernel(k);
    break;
  }
  case T_MARKER:
    e = clEnqueueMarkerWithWaitList(q, nl, wl, ev);
    break;
  case T_BARRIER:
    e = clEnqueueBarrierWithWaitList(q, nl, wl, ev);
    break;
  case T_WAITFOR:
    if (nl)
      e = clEnqueueWaitForEvents(q, nl, wl);
    else
      e = clEnqueueBarrier(q);
    break;
  case T_MIGRATE:
    e = clEnqueueMigrateMemObjects(q, 1, &o1->mem, 0, nl, wl, ev);
    break;
  case T_WRECT:
    e = clEnqueueWriteBufferRect(q, o1->mem, bl, c.org1, c.org2, c.reg,
                                 zp(0, c.rp1), zp(1, c.sp1), zp(2, c.rp2), zp(3, c.sp2), c.host.data(), nl, wl, ev);
    break;
  case T_RRECT:
    e = clEnqueueReadBufferRect(q, o1->mem, bl, c.org1, c.org2, c.reg,
                                zp(0, c.rp1), zp(1, c.sp1), zp(2, c.rp2), zp(3, c.sp2), c.host.data(), nl, wl, ev);
    break;
  case T_CRECT:
    e = clEnqueueCopyBufferRect(q, o1->mem, o2->mem, c.org1, c.org2, c.reg,
                                zp(0, c.rp1), zp(1, c.sp1), zp(2, c.rp2), zp(3, c.sp2), nl, wl, ev);
    break;
  case T_MAP:
    c.mapptr = clEnqueueMapBuffer(q, o1->mem, bl, c.mflags, c.off1, c.len, nl,
                                  wl, ev, &e);
    break;
  case T_UNMAP:
  {
    Cmd &m = *w.cmd[c.o2];
    e = clEnqueueUnmapMemObject(q, o1->mem, m.mapptr, nl, wl, ev);
    break;
  }
  case T_IREAD:
    e = clEnqueueReadImage(q, o1->mem, bl, c.org1, c.reg, c.rp2, c.sp2,
                           c.host.data(), nl, wl, ev);
    break;
  case T_IWRITE:
    e = clEnqueueWriteImage(q, o1->mem, bl, c.org1, c.reg, c.rp2, c.sp2,
                            c.host.data(), nl, wl, ev);
    break;
  case T_ICOPY:
    e = clEnqueueCopyImage(q, o1->mem, o2->mem, c.org1, c.org2, c.reg, nl, wl,
                           ev);
    break;
  case T_IFILL:
  {
    uint32_t col[4];
    for (int i = 0; i < 4; i++)
      col[i] = c.pat[i];
    e = clEnqueueFillImage(q, o1->mem, col, c.org1, c.reg, nl, wl, ev);
    break;
  }
  case T_B2I:
    e = clEnqueueCopyBufferToImage(q, o1->mem, o2->mem, c.off1, c.org2, c.reg,
                                   nl, wl, ev);
    break;
  case T_I2B:
    e = clEnqueueCopyImageToBuffer(q, o1->mem, o2->mem, c.org1, c.reg, c.off2,
                                   nl, wl, ev);
    break;
  case T_IMAP:
  {
    size_t rp = 0, sp = 0;
    c.mapptr = clEnqueueMapImage(q, o1->mem, bl, c.mflags, c.org1, c.reg, &rp,
                                 &sp, nl, wl, ev, &e);
    c.rp1 = rp;
    c.sp1 = sp;
    break;
  }
  }
  cl_int want = CL_SUCCESS;
  if (bl && c.fails && c.type != T_MAP && c.type != T_IMAP)
    want = CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST;
  if (e != want)
    r.fail("api-status", "command %d (%s%s) returned %d, expected %d", c.id,
           CTN[c.type], bl ? ", blocking" : "", e, want);
  if (bl)
  {
    query(w, c, true);
    if ((c.type == T_READ || c.type == T_RRECT || c.type == T_IREAD) &&
        c.host != c.expect)
      r.fail("data", "blocking %s (command %d) returned wrong data", CTN[c.type],
             c.id);
  }
  if (c.type == T_MAP || c.type == T_IMAP)
  {
    if (!c.mapptr)
      r.fail("api-status", "map (command %d) returned no pointer", c.id);
    if (!bl)
    {
      r.require_cl(clWaitForEvents(1, &c.ev), CL_SUCCESS, "clWaitForEvents(map)");
      query(w, c, true);
    }
    uint8_t *p = (uint8_t *)c.mapptr;
    if (c.type == T_MAP)
    {
      if (memcmp(p, c.expect.data(), c.len))
        r.fail("data", "mapped region (command %d) has wrong contents", c.id);
      if (c.mflags & CL_MAP_WRITE)
        for (size_t i = 0; i < c.len; i++)
          if (i % 3 != 1)
            p[i] = c.pat[i % c.pat.size()];
    }
    else
    {
      for (size_t z = 0; z < c.reg[2]; z++)
        for (size_t y = 0; y < c.reg[1]; y++)
          for (size_t x = 0; x < c.reg[0]; x++)
            for (size_t b = 0; b < o1->px; b++)
            {
              bool a1 = o1->itype == CL_MEM_OBJECT_IMAGE1D_ARRAY;
              uint8_t *t = p + x * o1->px + b +
                           (a1 ? y * c.sp1 : y * c.rp1 + z * c.sp1);
              size_t pk = x * o1->px + b + y * c.reg[0] * o1->px +
                          z * c.reg[0] * c.reg[1] * o1->px;
              if (*t != c.expect[pk])
                r.fail("data", "mapped image (command %d) has wrong contents at "
                               "(%zu,%zu,%zu)",
                       c.id, x, y, z);
              if (c.mflags & CL_MAP_WRITE)
                *t = c.pat[(x + y + z + b) % c.pat.size()];
            }
    }
  }
}

// helper threads that complete user events
struct Helper
{
  W *w;
  std::vector<int> u;
  std::vector<int> delay;
};
static void *helper_main(void *a)
{
  Helper &h = *(Helper *)a;
  for (size_t i = 0; i < h.u.size(); i++)
  {
    for (int k = 0; k < h.delay[i]; k++)
      dsim_yield();
    UEv &u = h.w->uev[h.u[i]];
    u.setting = true;
    h.w->r->require_cl(clSetUserEventStatus(u.ev, u.status), CL_SUCCESS,
                       "clSetUserEventStatus");
    u.set = true;
    dsim_event(0x5345, h.u[i]);
  }
  return NULL;
}

// ---------------------------------------------------------------- generation
static void gen_buf_cmd(W &w, Rnd &q, Cmd &c, int nbuf)
{
  auto pickb = [&]() { return (int)q(nbuf); };
  c.o1 = pickb();
  c.o2 = pickb();
  size_t s1 = w.obj[c.o1].size, s2 = w.obj[c.o2].size;
  switch (c.type)
  {
  case T_WRITE: case T_READ: case T_MAP:
    c.off1 = q(s1);
    c.len = 1 + q(s1 - c.off1);
    if (q(5) == 0)
      c.off1 = 0, c.len = s1;
    c.host.resize(c.len);
    break;
  case T_COPY: case T_KERNEL:
    c.len = 1 + q(std::min(s1, s2));
    if (c.type == T_KERNEL)
    {
      c.ls = 1 + q(4);
      c.len = std::max<size_t>(c.ls, std::min<size_t>(c.len, 24) / c.ls * c.ls);
    }
    c.off1 = q(s1 - c.len + 1);
    c.off2 = q(s2 - c.len + 1);
    if (root(w, c.o1) == root(w, c.o2))
    {
      // regions of one buffer must not overlap
      size_t a = w.obj[c.o1].origin + c.off1, b = w.obj[c.o2].origin + c.off2;
      if (a < b + c.len && b < a + c.len)
      {
        c.type = T_SPARM;
        c.ls = 1;
        c.len = std::min<size_t>(c.len, 20);
      }
    }
    break;
  case T_SPARM:
    c.len = 1 + q(std::min<size_t>(s1, 20));
    c.off1 = q(s1 - c.len + 1);
    c.ls = 1;
    break;
  case T_FILL:
  {
    size_t ps = 1u << q(5);
    while (ps > s1)
      ps >>= 1;
    size_t n = s1 / ps;
    size_t o = q(n), l = 1 + q(n - o);
    c.off1 = o * ps;
    c.len = l * ps;
    c.pat.resize(ps);
    break;
  }
  case T_WRECT: case T_RRECT: case T_CRECT:
  {
    // shape a small 3D box into each side
    for (int i = 0; i < 3; i++)
      c.reg[i] = 1 + q(i == 0 ? 6 : 3);
    auto side = [&](size_t size, size_t *org, size_t &rp, size_t &sp) {
      for (int t = 0; t < 60; t++)
      {
        for (int i = 0; i < 3; i++)
          org[i] = q(3);
        rp = q(2) == 0 ? 0 : c.reg[0] + org[0] + q(3);
        size_t erp = rp ? rp : c.reg[0];
        sp = q(2) == 0 ? 0 : erp * (c.reg[1] + q(3));
        size_t esp = sp ? sp : erp * c.reg[1];
        size_t last = org[0] + c.reg[0] - 1 + (org[1] + c.reg[1] - 1) * erp +
                      (org[2] + c.reg[2] - 1) * esp;
        if (last < size)
        {
          rp = erp;
          sp = esp;
          return true;
        }
        if (t > 20)
          for (int i = 0; i < 3; i++)
            if (c.reg[i] > 1 && q(2))
              c.reg[i]--;
      }
      return false;
    };
    size_t hs = 64 + q(400);
    bool ok = side(s1, c.org1, c.rp1, c.sp1);
    size_t keepr[3] = {c.reg[0], c.reg[1], c.reg[2]};
    if (ok)
      ok = side(c.type == T_CRECT ? s2 : hs, c.org2, c.rp2, c.sp2);
    if (ok && c.type == T_CRECT && c.o1 == c.o2 && q(4))
    {
      // the pitches must be the same
      c.rp2 = c.rp1;
      c.sp2 = c.sp1;
      for (int t = 0; t < 20; t++)
      {
        for (int i = 0; i < 3; i++)
          c.org2[i] = q(8);
        if (c.org2[0] + c.reg[0] - 1 + (c.org2[1] + c.reg[1] - 1) * c.rp2 +
              (c.org2[2] + c.reg[2] - 1) * c.sp2 < s2)
          break;
        memcpy(c.org2, c.org1, sizeof c.org2);
      }
    }
    if (ok && memcmp(keepr, c.reg, sizeof keepr))
    { // region shrank: pitches of the first side must be consistent
      size_t esp = c.sp1;
      if (esp < c.rp1 * c.reg[1] || esp % c.rp1)
        ok = false;
    }
    if (c.type == T_CRECT && c.o1 == c.o2 &&
        (c.rp1 != c.rp2 || c.sp1 != c.sp2))
      ok = false;
    if (c.type == T_CRECT && root(w, c.o1) == root(w, c.o2))
    {
      // no common byte; the rows may interleave
      auto bytes = [&](const size_t *o, size_t rp, size_t sp, int ob) {
        std::set<size_t> v;
        for (size_t z = 0; z < c.reg[2]; z++)
          for (size_t y = 0; y < c.reg[1]; y++)
            for (size_t x = 0; x < c.reg[0]; x++)
              v.insert(w.obj[ob].origin + o[0] + x + (o[1] + y) * rp + (o[2] + z) * sp);
        return v;
      };
      if (ok)
      {
        auto a = bytes(c.org1, c.rp1, c.sp1, c.o1);
        for (size_t x : bytes(c.org2, c.rp2, c.sp2, c.o2))
          if (a.count(x))
            ok = false;
      }
    }
    if (!ok)
    {
      c.type = T_SPARM;
      c.len = 1 + q(std::min<size_t>(s1, 20));
      c.off1 = q(s1 - c.len + 1);
      c.ls = 1;
      break;
    }
    c.host.resize(hs);
    // default pitches can be left to the runtime
    if (c.rp1 == c.reg[0] && q(4))
      c.zp |= 1;
    if (c.sp1 == c.rp1 * c.reg[1] && q(4))
      c.zp |= 2;
    if (c.rp2 == c.reg[0] && q(4))
      c.zp |= 4;
    if (c.sp2 == c.rp2 * c.reg[1] && q(4))
      c.zp |= 8;
    if (c.type == T_CRECT && root(w, c.o1) == root(w, c.o2))
      c.zp = 0;
    break;
  }
  default:
    break;
  }
  if (c.pat.empty())
    c.pat.resize(1 + q(16));
  for (auto &x : c.pat)
    x = q.next();
  for (auto &x : c.host)
    x = q.next();
  c.mul = q.next();
  c.add = q(256);
}

static bool gen_img_cmd(W &w, Rnd &q, Cmd &c, int nbuf, int nimg)
{
  bool b2i = c.type == T_B2I, i2b = c.type == T_I2B;
  int im = nbuf + q(nimg);
  Obj *o = &w.obj[im];
  size_t org[3], dim[3] = {o->w, o->h, o->d};
  for (int i = 0; i < 3; i++)
  {
    org[i] = q(dim[i]);
    c.reg[i] = 1 + q(dim[i] - org[i]);
  }
  c.pat.resize(std::max<size_t>(o->px, 4));
  for (auto &x : c.pat)
    x = q.next();
  if (b2i || i2b)
  {
    int b = q(nbuf);
    size_t need;
    while ((need = c.reg[0] * c.reg[1] * c.reg[2] * o->px) > w.obj[b].size)
    {
      int i = c.reg[2] > 1 ? 2 : c.reg[1] > 1 ? 1 : 0;
      if (c.reg[i] == 1)
        return false;
      c.reg[i]--;
    }
    size_t off = q(w.obj[b].size - need + 1);
    if (b2i)
    {
      c.o1 = b, c.off1 = off, c.o2 = im;
      memcpy(c.org2, org, sizeof org);
    }
    else
    {
      c.o1 = im, c.o2 = b, c.off2 = off;
      memcpy(c.org1, org, sizeof org);
    }
    return true;
  }
  c.o1 = im;
  memcpy(c.org1, org, sizeof org);
  switch (c.type)
  {
  case T_IREAD: case T_IWRITE:
  {
    size_t rp = c.reg[0] * o->px;
    c.rp2 = q(2) ? 0 : rp + q(9);
    c.rp1 = c.rp2 ? c.rp2 : rp;
    c.sp2 = 0;
    c.sp1 = c.rp1 * c.reg[1];
    if (o->itype == CL_MEM_OBJECT_IMAGE1D_ARRAY)
    {
      // layers are slices: y is the layer
      c.sp2 = q(2) ? 0 : c.rp1 + q(9);
      c.rp1 = c.sp2 ? c.sp2 : c.rp1;
      c.sp1 = 0;
    }
    else if (c.reg[2] > 1 || o->d > 1)
    {
      c.sp2 = q(2) ? 0 : c.sp1 + q(9);
      c.sp1 = c.sp2 ? c.sp2 : c.sp1;
    }
    c.host.resize(c.sp1 * c.reg[2] + c.rp1 * c.reg[1] + rp);
    for (auto &x : c.host)
      x = q.next();
    return true;
  }
  case T_ICOPY:
  {
    std::vector<int> cand;
    for (int i = nbuf; i < nbuf + nimg; i++)
      if (i != im && w.obj[i].px == o->px && w.obj[i].itype == o->itype)
        cand.push_back(i);
    if (cand.empty())
      return false;
    c.o2 = cand[q(cand.size())];
    Obj &d = w.obj[c.o2];
    size_t dd[3] = {d.w, d.h, d.d};
    for (int i = 0; i < 3; i++)
    {
      c.reg[i] = std::min(c.reg[i], dd[i]);
      c.org2[i] = q(dd[i] - c.reg[i] + 1);
    }
    return true;
  }
  case T_IMAP:
    c.host.resize(c.reg[0] * c.reg[1] * c.reg[2] * o->px);
    return true;
  default:
    return true;
  }
}

static void run(Run &r)
{
  Rnd &q = r.rng;
  W w;
  w.r = &r;
  G = &w;
  bool xfer = r.mode == "xfer", img = r.mode == "image", prof = r.mode == "prof",
       status = r.mode == "status", args = r.mode == "args";
  bool order = !xfer && !img && !args;
  int nq = 1 + q(3);
  for (int i = 0; i < nq; i++)
    w.ooo.push_back(q(2));
  if ((xfer || img) && q(2))
  {
    nq = 1;
    w.ooo = {false};
  }
  // memory objects
  int nbuf = 2 + q(3);
  for (int i = 0; i < nbuf; i++)
  {
    Obj o;
    o.size = 16 + q(xfer || img ? 400 : 100);
    w.obj.push_back(o);
  }
  int nroot = nbuf;
  int nsub = xfer ? q(3) : order ? q(2) : 0;
  for (int i = 0; i < nsub; i++)
  {
    Obj o;
    o.parent = q(nroot);
    size_t ps = w.obj[o.parent].size;
    o.origin = q(ps / 2) & ~7ull;
    o.size = 1 + q(ps - o.origin);
    if (o.size < 8)
      o.size = std::min<size_t>(8, ps - o.origin);
    w.obj.push_back(o);
    nbuf++;
  }
  int nimg = img ? 2 + q(2) : 0;
  for (int i = 0; i < nimg; i++)
  {
    Obj o;
    o.image = true;
    int k = q(5);
    o.itype = k == 0   ? CL_MEM_OBJECT_IMAGE1D
              : k == 1 ? CL_MEM_OBJECT_IMAGE2D
              : k == 2 ? CL_MEM_OBJECT_IMAGE3D
              : k == 3 ? CL_MEM_OBJECT_IMAGE1D_ARRAY
                       : CL_MEM_OBJECT_IMAGE2D_ARRAY;
    o.w = 1 + q(6);
    o.h = k == 0 ? 1 : 1 + q(5);
    o.d = (k == 2 || k == 4) ? 1 + q(4) : 1;
    static const size_t pxs[] = {1, 2, 4, 8, 16};
    o.px = pxs[q(5)];
    if (i > 0 && q(2))
    {
      o.itype = w.obj.back().itype;
      o.px = w.obj.back().px;
      if (o.itype == CL_MEM_OBJECT_IMAGE1D)
        o.h = 1;
      if (o.itype != CL_MEM_OBJECT_IMAGE3D &&
          o.itype != CL_MEM_OBJECT_IMAGE2D_ARRAY)
        o.d = 1;
    }
    o.size = o.w * o.h * o.d * o.px;
    w.obj.push_back(o);
  }
  for (auto &o : w.obj)
  {
    Bytes b(o.size);
    for (auto &x : b)
      x = q.next();
    w.shadow.push_back(o.parent >= 0 ? Bytes() : b);
  }
  w.init = w.shadow;
  // user events
  int nu = q(img || xfer ? 3 : 5);
  bool failing = q(3) == 0 || status;
  for (int i = 0; i < nu; i++)
  {
    UEv u;
    u.status = failing && q(status ? 2 : 3) == 0 ? -(1000 + i) : CL_COMPLETE;
    u.helper = q(2);
    w.uev.push_back(u);
  }
  w.dangling_args = args || q(2);
  // draft of the history
  int nops = 3 + q(order ? 22 : 16);
  std::vector<bool> usable(nu, true);
  static const int OT_ORDER[] = {T_NATIVE, T_NATIVE, T_NATIVE, T_NATIVE, T_NATIVE,
                                 T_WRITE, T_READ, T_COPY, T_FILL, T_KERNEL,
                                 T_MARKER, T_BARRIER, T_WAITFOR, T_MIGRATE};
  static const int OT_XFER[] = {T_WRITE, T_READ, T_COPY, T_FILL, T_SPARM,
                                T_WRECT, T_RRECT, T_CRECT, T_MAP, T_MAP,
                                T_WRITE, T_READ, T_NATIVE, T_CRECT};
  static const int OT_IMG[] = {T_IREAD, T_IWRITE, T_ICOPY, T_IFILL, T_B2I, T_I2B,
                               T_IMAP, T_IMAP, T_WRITE, T_READ, T_ICOPY, T_IWRITE,
                               T_IREAD, T_B2I};
  static const int OT_ARGS[] = {T_KERNEL, T_KERNEL, T_SPARM, T_SPARM, T_KERNEL,
                                T_SPARM, T_NATIVE, T_FILL, T_READ, T_WRITE,
                                T_KERNEL, T_KERNEL, T_COPY, T_NATIVE};
  for (int i = 0; i < nops; i++)
  {
    int t = q(10);
    Op op;
    std::vector<std::unique_ptr<Cmd>> add;
    if (t < 7 || i < 2)
    {
      auto c = std::make_unique<Cmd>();
      int k = q(14);
      c->type = xfer ? OT_XFER[k] : img ? OT_IMG[k] : args ? OT_ARGS[k] : OT_ORDER[k];
      c->q = q(nq);
      c->want_event = q(5) != 0;
      c->blocking = q(5) == 0;
      int ty0 = c->type;
      if (c->type >= T_IREAD)
      {
        if (!gen_img_cmd(w, q, *c, nbuf, nimg))
          c->type = T_NATIVE;
      }
      else
        gen_buf_cmd(w, q, *c, nbuf);
      (void)ty0;
      c->mflags = (q(3) ? CL_MAP_WRITE : 0) | CL_MAP_READ;
      int nwait = q(3) ? q(3) : 0;
      for (int j = 0; j < nwait; j++)
        c->waits.push_back(q(1000)); // resolved later
      if (nu && q(3) == 0)
        c->uwaits.push_back(q(nu));
      switch (c->type)
      {
      case T_WRITE: case T_READ: case T_WRECT: case T_RRECT: case T_IREAD:
      case T_IWRITE:
        break;
      case T_MAP: case T_IMAP:
        c->want_event = true;
        break;
      default:
        c->blocking = false;
      }
      if (c->type == T_WAITFOR)
        c->want_event = false;
      bool mp = c->type == T_MAP || c->type == T_IMAP;
      int o1 = c->o1, qq = c->q;
      add.push_back(std::move(c));
      if (mp)
      {
        auto u = std::make_unique<Cmd>();
        u->type = T_UNMAP;
        u->q = q(4) ? qq : (int)q(nq);
        u->o1 = o1;
        u->want_event = q(3);
        add.push_back(std::move(u));
      }
      op.t = O_CMD;
    }
    else if (t == 7)
    {
      op.t = q(2) ? O_FINISH : q(3) ? O_WAIT : O_FLUSH;
      op.a = q(nq);
      int n = 1 + q(3);
      for (int j = 0; j < n; j++)
        op.l.push_back(q(1000));
    }
    else if (t == 8)
    {
      op.t = nu && q(2) ? O_SETU : O_QUERY;
      op.a = q(1000);
    }
    else
    {
      op.t = O_CB;
      op.a = q(1000);
      op.b = q(3);
    }
    if (!r.keep())
      continue;
    if (op.t == O_CMD)
    {
      for (auto &c : add)
      {
        c->id = w.cmd.size();
        if (c->type == T_UNMAP)
          c->o2 = c->id - 1;
        op.a = c->id;
        w.ops.push_back(op);
        w.cmd.push_back(std::move(c));
      }
    }
    else
      w.ops.push_back(op);
  }
  // resolve wait lists, order conflicting commands, decide failures
  int n = w.cmd.size();
  std::vector<std::vector<int>> byq(nq);
  for (int i = 0; i < n; i++)
  {
    Cmd &c = *w.cmd[i];
    c.hb.assign(n, false);
    c.uhb.assign(nu, false);
    c.mhb.assign(n, false);
    c.muhb.assign(nu, false);
    std::vector<int> cand;
    for (int j = 0; j < i; j++)
      if (w.cmd[j]->want_event)
        cand.push_back(j);
    std::set<int> ws;
    for (int x : c.waits)
      if (!cand.empty())
        ws.insert(cand[cand.size() - 1 - (x % std::min<size_t>(cand.size(), 6))]);
    c.waits.assign(ws.begin(), ws.end());
    if (c.type == T_UNMAP)
    {
      c.waits.clear();
      c.uwaits.clear();
    }
    bool bar = c.type == T_BARRIER || c.type == T_WAITFOR;
    auto wfails = [&](int j) { return w.cmd[j]->fails; };
    auto ufails = [&](int u) { return w.uev[u].status < 0; };
    if (bar || c.type == T_MAP || c.type == T_IMAP)
    {
      c.waits.erase(std::remove_if(c.waits.begin(), c.waits.end(), wfails),
                    c.waits.end());
      c.uwaits.erase(std::remove_if(c.uwaits.begin(), c.uwaits.end(), ufails),
                     c.uwaits.end());
    }
    // implicit predecessors
    auto inherit = [&](int j, bool must) {
      Cmd &p = *w.cmd[j];
      c.hb[j] = true;
      for (int k = 0; k < n; k++)
        if (p.hb[k])
          c.hb[k] = true;
      for (int k = 0; k < nu; k++)
        if (p.uhb[k])
          c.uhb[k] = true;
      if (!must)
        return;
      c.mhb[j] = true;
      for (int k = 0; k < n; k++)
        if (p.mhb[k])
          c.mhb[k] = true;
      for (int k = 0; k < nu; k++)
        if (p.muhb[k])
          c.muhb[k] = true;
    };
    for (int j : byq[c.q])
    {
      Cmd &p = *w.cmd[j];
      bool pb = p.type == T_BARRIER || p.type == T_WAITFOR;
      bool all = (c.type == T_MARKER || c.type == T_BARRIER ||
                  c.type == T_WAITFOR) &&
                 c.waits.empty() && c.uwaits.empty();
      if (!w.ooo[c.q] || pb || all)
        inherit(j, true);
    }
    // what holds even if this command fails
    std::vector<bool> imhb = c.mhb, imuhb = c.muhb;
    for (int j : c.waits)
      inherit(j, true);
    for (int u : c.uwaits)
      c.uhb[u] = c.muhb[u] = true;
    // data conflicts
    auto use = [&](int o, bool wr) {
      if (o >= 0)
        (wr ? c.wr : c.rd).push_back(root(w, o));
    };
    switch (c.type)
    {
    case T_WRITE: case T_FILL: case T_SPARM: case T_WRECT: case T_UNMAP:
    case T_IWRITE: case T_IFILL: case T_MAP: case T_IMAP:
      use(c.o1, true);
      break;
    case T_READ: case T_RRECT: case T_IREAD:
      use(c.o1, false);
      break;
    case T_COPY: case T_KERNEL: case T_CRECT: case T_ICOPY: case T_B2I:
    case T_I2B:
      use(c.o1, false);
      use(c.o2, true);
      break;
    default:
      break;
    }
    auto has = [](const std::vector<int> &v, int x) {
      return std::find(v.begin(), v.end(), x) != v.end();
    };
    for (int j = i - 1; j >= 0; j--)
    {
      Cmd &p = *w.cmd[j];
      bool conf = false;
      for (int x : c.wr)
        conf |= has(p.wr, x) || has(p.rd, x);
      for (int x : c.rd)
        conf |= has(p.wr, x);
      if (conf && !c.mhb[j])
      {
        if (c.type == T_MAP || c.type == T_IMAP || c.type == T_UNMAP)
          if (p.fails)
            continue; // failed commands have no effect: no order needed
        p.want_event = true;
        if (p.type == T_WAITFOR)
          continue;
        c.waits.push_back(j);
        inherit(j, true);
      }
    }
    // failure
    for (int j : c.waits)
      if (w.cmd[j]->fails)
      {
        c.fails = true;
        c.failcodes.insert(w.cmd[j]->failcodes.begin(),
                           w.cmd[j]->failcodes.end());
      }
    for (int u : c.uwaits)
      if (ufails(u))
      {
        c.fails = true;
        c.failcodes.insert(w.uev[u].status);
      }
    if (c.fails)
    {
      c.mhb = imhb;
      c.muhb = imuhb;
    }
    byq[c.q].push_back(i);
    c.expect = c.host;
    if (c.type == T_MAP)
      c.expect.resize(c.len);
    apply(w, c);
  }
  for (auto &c : w.cmd)
  {
    if (c->failcodes.size() && r.desc)
      ;
  }
  if (r.desc)
  {
    std::string s;
    for (int i = 0; i < nq; i++)
      s += w.ooo[i] ? " out-of-order" : " in-order";
    r.d("%d queues:%s; %zu memory objects", nq, s.c_str(), w.obj.size());
    for (size_t i = 0; i < w.obj.size(); i++)
    {
      Obj &o = w.obj[i];
      if (o.image)
        r.d("object %zu: image type 0x%x %zux%zux%zu, %zu bytes per pixel", i,
            o.itype, o.w, o.h, o.d, o.px);
      else if (o.parent >= 0)
        r.d("object %zu: sub-buffer of %d origin %zu size %zu", i, o.parent,
            o.origin, o.size);
      else
        r.d("object %zu: buffer size %zu", i, o.size);
    }
    for (int i = 0; i < nu; i++)
      r.d("user event %d: final status %d set by %s", i, w.uev[i].status,
          w.uev[i].helper ? "helper thread" : "main thread");
    for (auto &op : w.ops)
    {
      static const char *on[] = {"enqueue", "set-user-event", "finish", "flush",
                                 "wait", "query", "callback", "release"};
      if (op.t == O_CMD)
      {
        Cmd &c = *w.cmd[op.a];
        std::string t;
        for (int j : c.waits)
          t += " c" + std::to_string(j);
        for (int j : c.uwaits)
          t += " u" + std::to_string(j);
        r.d("enqueue c%d %s%s on q%d waits[%s ]%s objs %d,%d off %zu,%zu len %zu "
            "org (%zu,%zu,%zu) (%zu,%zu,%zu) region (%zu,%zu,%zu) pitch %zu,%zu "
            "%zu,%zu zero mask %x",
            c.id, CTN[c.type], c.blocking ? " blocking" : "", c.q, t.c_str(),
            c.fails ? " (must fail)" : "", c.o1, c.o2, c.off1, c.off2, c.len,
            c.org1[0], c.org1[1], c.org1[2], c.org2[0], c.org2[1], c.org2[2],
            c.reg[0], c.reg[1], c.reg[2], c.rp1, c.sp1, c.rp2, c.sp2, c.zp);
      }
      else
        r.d("%s %d %d", on[op.t], op.a, op.b);
    }
  }

  // ------------------------------------------------------------- execution
  int workers = 1 + q(3);
  set_threads(workers);
  if (prof)
  {
    Rnd f(r.seed ^ 0xc10c);
    if (f(4))
    {
      r.cfg.p_clock = 0.02 + 0.3 * (f(100) / 100.0);
      r.cfg.clock_max_jump_ns = 1000000000ll << f(13);
    }
  }
  obs_start(1 << OB_LOG);
  r.cfg.max_steps = 20000000;
  r.begin();
  cl_int e;
  for (int i = 0; i < nq; i++)
  {
    cl_command_queue_properties p = CL_QUEUE_PROFILING_ENABLE;
    if (w.ooo[i])
      p |= CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE;
    w.q.push_back(clCreateCommandQueue(CTX, g_device, p, &e));
    r.require_cl(e, CL_SUCCESS, "clCreateCommandQueue");
  }
  for (size_t i = 0; i < w.obj.size(); i++)
  {
    Obj &o = w.obj[i];
    if (o.image)
    {
      static const std::map<size_t, std::pair<int, int>> fm = {
        {1, {CL_R, CL_UNSIGNED_INT8}},    {2, {CL_RG, CL_UNSIGNED_INT8}},
        {4, {CL_RGBA, CL_UNSIGNED_INT8}}, {8, {CL_RGBA, CL_UNSIGNED_INT16}},
        {16, {CL_RGBA, CL_UNSIGNED_INT32}}};
      cl_image_format f;
      f.image_channel_order = fm.at(o.px).first;
      f.image_channel_data_type = fm.at(o.px).second;
      cl_image_desc d;
      memset(&d, 0, sizeof d);
      d.image_type = o.itype;
      d.image_width = o.w;
      d.image_height = o.h;
      d.image_depth = o.d;
      d.image_array_size = o.itype == CL_MEM_OBJECT_IMAGE1D_ARRAY ? o.h : o.d;
      if (o.itype == CL_MEM_OBJECT_IMAGE1D_ARRAY)
        d.image_height = 0;
      Bytes init = w.init[i];
      o.mem = clCreateImage(CTX, CL_MEM_COPY_HOST_PTR, &f, &d, init.data(), &e);
      r.require_cl(e, CL_SUCCESS, "clCreateImage");
    }
    else if (o.parent < 0)
    {
      Bytes init = w.init[i];
      o.mem = clCreateBuffer(CTX, CL_MEM_COPY_HOST_PTR, o.size, init.data(), &e);
      std::fill(init.begin(), init.end(), 0xdd);
      r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
    }
    else
    {
      cl_buffer_region rg = {o.origin, o.size};
      o.mem = clCreateSubBuffer(w.obj[o.parent].mem, 0,
                                CL_BUFFER_CREATE_TYPE_REGION, &rg, &e);
      r.require_cl(e, CL_SUCCESS, "clCreateSubBuffer");
    }
  }
  std::vector<Helper> hs(1 + q(2));
  for (int i = 0; i < nu; i++)
  {
    w.uev[i].ev = clCreateUserEvent(CTX, &e);
    r.require_cl(e, CL_SUCCESS, "clCreateUserEvent");
    int hi = q(hs.size());
    int dl = q(3) ? q(50) : q(2000);
    int cbt = q(4);
    if (cbt == 0 && (order || status))
    {
      auto cb = std::make_unique<CB>();
      cb->w = &w;
      cb->cmd = -1;
      cb->user = i;
      cb->type = CL_COMPLETE;
      cb->registered = true;
      r.require_cl(clSetEventCallback(w.uev[i].ev, CL_COMPLETE, cb_fn, cb.get()),
                   CL_SUCCESS, "clSetEventCallback");
      w.cbs.push_back(std::move(cb));
    }
    if (w.uev[i].helper)
    {
      hs[hi].u.push_back(i);
      hs[hi].delay.push_back(dl);
    }
  }
  std::vector<pthread_t> th;
  for (auto &h : hs)
  {
    h.w = &w;
    if (h.u.empty())
      continue;
    pthread_t t;
    pthread_create(&t, NULL, helper_main, &h);
    th.push_back(t);
  }
  auto setu = [&](int u) {
    UEv &x = w.uev[u];
    if (x.helper || x.set)
      return;
    x.setting = true;
    r.require_cl(clSetUserEventStatus(x.ev, x.status), CL_SUCCESS,
                 "clSetUserEventStatus");
    x.set = true;
  };
  // a blocking call needs the main thread's own user events to be set
  auto need = [&](const std::vector<int> &cs) {
    for (int c : cs)
      for (int u = 0; u < nu; u++)
        if (w.cmd[c]->uhb[u])
          setu(u);
  };
  auto inqueue = [&](int qi) {
    std::vector<int> v;
    for (auto &c : w.cmd)
      if (c->enqueued && c->q == qi)
        v.push_back(c->id);
    return v;
  };
  for (auto &op : w.ops)
  {
    switch (op.t)
    {
    case O_CMD:
    {
      Cmd &c = *w.cmd[op.a];
      if (c.blocking || c.type == T_MAP || c.type == T_IMAP)
        need({c.id});
      do_cmd(w, c);
      break;
    }
    case O_SETU:
    {
      UEv &x = w.uev[op.a % nu];
      if (!x.set)
      {
        setu(op.a % nu);
        if (op.a / nu % 2)
          break;
      }
      if (x.set)
      {
        // its status cannot be set a second time
        r.require_cl(clSetUserEventStatus(x.ev, op.a / nu % 4 ? CL_COMPLETE : -100), CL_INVALID_OPERATION,
                     "clSetUserEventStatus on an event that is set");
        cl_int st = 99;
        r.require_cl(clGetEventInfo(x.ev, CL_EVENT_COMMAND_EXECUTION_STATUS, sizeof st, &st, NULL),
                     CL_SUCCESS, "clGetEventInfo");
        if (st != x.status)
          r.fail("status", "user event %d was set to %d, now its status is %d", op.a % nu, x.status, st);
        r.stat("user_event_set_again");
      }
      break;
    }
    case O_FINISH: case O_FLUSH:
    {
      auto v = inqueue(op.a);
      if (op.t == O_FLUSH)
      {
        // every command that depends on no unset user event must make
        // progress, and the call must not wait for the others
        std::vector<int> ready;
        for (int c : v)
        {
          bool ok = true;
          for (int u = 0; u < nu; u++)
            ok &= !w.cmd[c]->uhb[u] || w.uev[u].set;
          if (ok)
            ready.push_back(c);
        }
        r.require_cl(clFlush(w.q[op.a]), CL_SUCCESS, "clFlush");
        for (int c : ready)
          query(w, *w.cmd[c], true);
      }
      else
      {
        need(v);
        r.require_cl(clFinish(w.q[op.a]), CL_SUCCESS, "clFinish");
        for (int c : v)
          query(w, *w.cmd[c], true);
      }
      break;
    }
    case O_WAIT:
    {
      std::vector<int> cand, sel;
      for (auto &c : w.cmd)
        if (c->ev)
          cand.push_back(c->id);
      if (cand.empty() && !nu)
        break;
      std::vector<cl_event> evs;
      std::vector<int> users;
      bool fail = false;
      for (int x : op.l)
      {
        if (nu && (cand.empty() || x / 7 % 3 == 0))
        {
          // a user event, which may be set by a helper during the wait
          int u = x % nu;
          users.push_back(u);
          evs.push_back(w.uev[u].ev);
          fail |= w.uev[u].status < 0;
          setu(u);
          continue;
        }
        int c = cand[x % cand.size()];
        sel.push_back(c);
        evs.push_back(w.cmd[c]->ev);
        fail |= w.cmd[c]->fails;
      }
      need(sel);
      cl_int s = clWaitForEvents(evs.size(), evs.data());
      if (s != (fail ? CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST : CL_SUCCESS))
        r.fail("api-status", "clWaitForEvents returned %d, %s event failed", s,
               fail ? "an" : "no");
      for (int c : sel)
        query(w, *w.cmd[c], true);
      for (int u : users)
      {
        cl_int st = 99;
        r.require_cl(clGetEventInfo(w.uev[u].ev, CL_EVENT_COMMAND_EXECUTION_STATUS, sizeof st, &st, NULL),
                     CL_SUCCESS, "clGetEventInfo");
        if (!w.uev[u].setting || st != w.uev[u].status)
          r.fail("wait", "clWaitForEvents returned, but user event %d has status %d", u, st);
        r.stat("user_event_waits");
      }
      break;
    }
    case O_QUERY: case O_CB:
    {
      std::vector<int> cand;
      for (auto &c : w.cmd)
        if (c->ev)
          cand.push_back(c->id);
      if (cand.empty())
        break;
      Cmd &c = *w.cmd[cand[op.a % cand.size()]];
      if (op.t == O_QUERY)
        query(w, c, false);
      else
      {
        auto cb = std::make_unique<CB>();
        cb->w = &w;
        cb->cmd = c.id;
        cb->type = op.b == 1 ? CL_RUNNING : op.b == 2 ? CL_SUBMITTED : CL_COMPLETE;
        cb->registered = true;
        CB *p = cb.get();
        w.cbs.push_back(std::move(cb));
        r.require_cl(clSetEventCallback(c.ev, p->type, cb_fn, p), CL_SUCCESS,
                     "clSetEventCallback");
      }
      break;
    }
    }
  }
  for (int u = 0; u < nu; u++)
    setu(u);
  for (int i = 0; i < nq; i++)
  {
    r.require_cl(clFinish(w.q[i]), CL_SUCCESS, "clFinish");
    for (int c : inqueue(i))
      query(w, *w.cmd[c], true);
  }
  for (auto t : th)
    pthread_join(t, NULL);
  w.finished = true;
  // liveness and exactly-once of callbacks
  for (auto &cb : w.cbs)
    if (cb->calls != 1)
      r.fail("callback", "callback of %s %d (type %d) called %d times",
             cb->user >= 0 ? "user event" : "command",
             cb->user >= 0 ? cb->user : cb->cmd, cb->type, cb->calls);
  // profiling
  auto prof_of = [&](Cmd &c, cl_ulong *t) {
    static const int pn[] = {CL_PROFILING_COMMAND_QUEUED, CL_PROFILING_COMMAND_SUBMIT,
                             CL_PROFILING_COMMAND_START, CL_PROFILING_COMMAND_END};
    for (int i = 0; i < 4; i++)
      r.require_cl(clGetEventProfilingInfo(c.ev, pn[i], 8, &t[i], NULL),
                   CL_SUCCESS, "clGetEventProfilingInfo");
  };
  if (prof)
    for (auto &c : w.cmd)
      if (c->ev && !c->fails)
      {
        cl_ulong t[4];
        prof_of(*c, t);
        if (!(t[0] <= t[1] && t[1] <= t[2] && t[2] <= t[3]) || t[3] == 0)
          r.fail("profiling",
                 "command %d: queued %lu submit %lu start %lu end %lu", c->id,
                 t[0], t[1], t[2], t[3]);
        for (auto &p : w.cmd)
          if (c->mhb[p->id] && p->ev && !p->fails)
          {
            cl_ulong s[4];
            prof_of(*p, s);
            if (s[3] > t[2])
              r.fail("profiling",
                     "command %d started at %lu before its dependency %d ended "
                     "at %lu",
                     c->id, t[2], p->id, s[3]);
          }
        r.stat("profiled_events");
      }
  // final data
  for (size_t i = 0; i < w.obj.size(); i++)
  {
    Obj &o = w.obj[i];
    if (o.parent >= 0)
      continue;
    Bytes b(o.size, 0xAA);
    if (o.image)
    {
      size_t org[3] = {0, 0, 0}, rg[3] = {o.w, o.h, o.d};
      r.require_cl(clEnqueueReadImage(w.q[0], o.mem, CL_TRUE, org, rg, 0, 0,
                                      b.data(), 0, NULL, NULL),
                   CL_SUCCESS, "clEnqueueReadImage");
    }
    else
      r.require_cl(clEnqueueReadBuffer(w.q[0], o.mem, CL_TRUE, 0, o.size,
                                       b.data(), 0, NULL, NULL),
                   CL_SUCCESS, "clEnqueueReadBuffer");
    for (size_t k = 0; k < o.size; k++)
      if (b[k] != w.shadow[i][k])
        r.fail("data", "object %zu byte %zu is 0x%02x, reference 0x%02x", i, k,
               b[k], w.shadow[i][k]);
  }
  for (auto &c : w.cmd)
  {
    if (c->host != c->expect && c->type != T_MAP && c->type != T_IMAP)
      r.fail("data", "host memory of command %d (%s) differs from the reference",
             c->id, CTN[c->type]);
    if (c->ev)
    {
      cl_uint rc = 0;
      clGetEventInfo(c->ev, CL_EVENT_REFERENCE_COUNT, sizeof rc, &rc, NULL);
      if (rc != 1)
        r.fail("refcount", "event of command %d has %u references at the end",
               c->id, rc);
      clReleaseEvent(c->ev);
    }
  }
  for (auto &u : w.uev)
  {
    cl_uint rc = 0;
    clGetEventInfo(u.ev, CL_EVENT_REFERENCE_COUNT, sizeof rc, &rc, NULL);
    if (rc != 1)
      r.fail("refcount", "a user event has %u references at the end", rc);
    clReleaseEvent(u.ev);
  }
  for (auto &o : w.obj)
  {
    cl_uint rc = 0;
    clGetMemObjectInfo(o.mem, CL_MEM_REFERENCE_COUNT, sizeof rc, &rc, NULL);
    bool parent = false;
    for (auto &s : w.obj)
      if (s.parent >= 0 && s.mem && &w.obj[s.parent] == &o)
        parent = true;
    if (rc != 1 && !parent)
      r.fail("refcount", "a memory object has %u references at the end", rc);
  }
  for (size_t i = w.obj.size(); i-- > 0;)
    r.require_cl(clReleaseMemObject(w.obj[i].mem), CL_SUCCESS,
                 "clReleaseMemObject");
  for (auto x : w.q)
    clReleaseCommandQueue(x);
  r.end();
  obs_stop();
  if (!g_logs.empty())
    r.fail("unexpected-message", "%.400s", g_logs[0].c_str());
  uint64_t ex = 0;
  for (auto &c : w.cmd)
  {
    r.stat(CTN[c->type]);
    if (c->fails)
      r.stat("failed_commands");
    ex += c->executed;
  }
  r.stat("callbacks", w.cbs.size());
  r.stat("user_events", nu);
  r.stat("helper_threads", th.size());
}
static RegWorkload reg("queue", setup, run);
} // namespace
