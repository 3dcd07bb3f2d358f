// Several host threads, each with a context of its own (C22). Every thread runs a
// random sequential script of API calls whose results are known; what the other
// threads do meanwhile must not show.
#include "h.h"
#include <algorithm>
#include <atomic>
#include <pthread.h>

namespace
{
static const int NC = 3; // contexts
static const int NB = 3; // buffers of a thread
static const size_t NE = 96; // uints of a buffer
static cl_context CTX[NC];
static cl_program PRG[NC];
static int ctxid[NC];
static std::atomic<int> notes[NC];
static bool CHECKED;

static const char *SRC =
  "kernel void ids(global uint *a, global uint *b, uint x)\n"
  "{ size_t i = get_global_id(0) + get_global_id(1) * get_global_size(0);\n"
  "  b[i] = a[i] * 3 + x + (uint)(get_group_id(0) * 7 + get_group_id(1) * 31 + get_local_id(0)); }\n"
  "kernel void rev(global uint *a, local uint *l, uint x)\n"
  "{ size_t g = get_global_id(0), i = get_local_id(0), n = get_local_size(0);\n"
  "  l[i] = a[g] + x; barrier(CLK_LOCAL_MEM_FENCE); a[g] = l[n - 1 - i]; }\n"
  "kernel void sum(global uint *a, global uint *b, uint x)\n"
  "{ atomic_add(&b[get_global_id(0) % x], a[get_global_id(0)]); }\n"
  "kernel void oob(global uint *a, uint x)\n"
  "{ size_t i = get_global_id(0); if (i == x) a[i + 100000] = 1; a[i] += 5; }\n"
  "kernel void pr(global uint *a, uint x)\n"
  "{ printf(\"<%u:%u:%u>\\n\", x, (uint)get_global_id(0), a[get_global_id(0)]); }\n";

static void CL_CALLBACK notify(const char *, const void *, size_t, void *u) { notes[*(int *)u]++; }

static void setup(const std::string &variant)
{
  if (variant == "tools")
  {
    setenv("OCLGRIND_DATA_RACES", "1", 1);
    CHECKED = true;
  }
  setenv("OCLGRIND_CHECK_API", "1", 1);
  unsetenv("OCLGRIND_PLUGINS");
  cl_setup_platform();
  for (int i = 0; i < NC; i++)
  {
    cl_int err;
    ctxid[i] = i;
    CTX[i] = clCreateContext(NULL, 1, &g_device, notify, &ctxid[i], &err);
    PRG[i] = cl_build(CTX[i], SRC, i == 1 ? "-cl-opt-disable" : "");
  }
}

enum { O_WRITE, O_READ, O_FILL, O_COPY, O_IDS, O_REV, O_SUM, O_OOB, O_PR, O_INVALID, O_FINISH, O_RECREATE, O_SUB, O_MAP, NO };
static const char *ON[] = {"write", "read", "fill", "copy", "ids", "rev", "sum", "oob", "printf", "invalid",
                           "finish", "recreate", "sub-buffer", "map"};
struct Op
{
  int t, a, b;
  size_t off, n, ls, rows;
  uint32_t x;
  bool blocking, user, fail; // waits for a user event (that fails)
  bool newk;                 // uses a kernel of its own
};
struct Cb
{
  int fired = 0, status = 99;
};
static void CL_CALLBACK on_event(cl_event, cl_int st, void *p)
{
  ((Cb *)p)->fired++;
  ((Cb *)p)->status = st;
}
struct Host
{
  Run *r;
  int id;
  bool ooo;
  std::vector<Op> ops;
  std::vector<uint32_t> init;
  uint64_t cmds = 0;
  int wantnotes = 0;
  size_t wantoob = 0;
  std::vector<std::string> lines;
};

static void *host(void *p)
{
  Host &h = *(Host *)p;
  Run &r = *h.r;
  cl_context ctx = CTX[h.id];
  cl_int e;
#define CK(call) r.require_cl(call, CL_SUCCESS, #call)
#define CE(what) r.require_cl(e, CL_SUCCESS, what)
  cl_command_queue q =
    clCreateCommandQueue(ctx, g_device, h.ooo ? CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE : 0, &e);
  CE("clCreateCommandQueue");
  std::vector<std::vector<uint32_t>> M(NB);
  cl_mem B[NB];
  for (int i = 0; i < NB; i++)
  {
    M[i].assign(h.init.begin() + i * NE, h.init.begin() + (i + 1) * NE);
    B[i] = clCreateBuffer(ctx, CL_MEM_COPY_HOST_PTR, NE * 4, M[i].data(), &e);
    CE("clCreateBuffer");
  }
  cl_kernel K[5];
  static const char *KN[] = {"ids", "rev", "sum", "oob", "pr"};
  for (int i = 0; i < 5; i++)
  {
    K[i] = clCreateKernel(PRG[h.id], KN[i], &e);
    CE("clCreateKernel");
  }
  for (size_t oi = 0; oi < h.ops.size(); oi++)
  {
    Op &o = h.ops[oi];
    cl_event ue = NULL, ev = NULL;
    cl_uint nw = 0;
    Cb cb;
    if (o.user)
    {
      ue = clCreateUserEvent(ctx, &e);
      CE("clCreateUserEvent");
      nw = 1;
    }
    std::vector<uint32_t> host(o.n);
    for (size_t i = 0; i < o.n; i++)
      host[i] = o.x + i * 77;
    std::vector<uint32_t> &A = M[o.a], &D = M[o.b];
    size_t ob = o.off * 4, nb = o.n * 4;
    cl_bool bl = o.blocking && !o.user;
    bool cmd = true, run = !(o.user && o.fail);
    auto kern = [&](int i) {
      cl_kernel k = K[i];
      if (o.newk)
      {
        k = clCreateKernel(PRG[h.id], KN[i], &e);
        CE("clCreateKernel");
      }
      return k;
    };
    auto done = [&](cl_kernel k) {
      if (o.newk)
        CK(clReleaseKernel(k));
    };
    switch (o.t)
    {
    case O_WRITE:
      CK(clEnqueueWriteBuffer(q, B[o.a], bl, ob, nb, host.data(), nw, nw ? &ue : NULL, &ev));
      if (run)
        std::copy(host.begin(), host.end(), A.begin() + o.off);
      break;
    case O_READ:
      CK(clEnqueueReadBuffer(q, B[o.a], bl, ob, nb, host.data(), nw, nw ? &ue : NULL, &ev));
      break;
    case O_FILL:
      CK(clEnqueueFillBuffer(q, B[o.a], &o.x, 4, ob, nb, nw, nw ? &ue : NULL, &ev));
      if (run)
        std::fill(A.begin() + o.off, A.begin() + o.off + o.n, o.x);
      break;
    case O_COPY:
      CK(clEnqueueCopyBuffer(q, B[o.a], B[o.b], ob, 0, nb, nw, nw ? &ue : NULL, &ev));
      if (run)
        std::copy(A.begin() + o.off, A.begin() + o.off + o.n, D.begin());
      break;
    case O_IDS:
    {
      cl_kernel k = kern(0);
      CK(clSetKernelArg(k, 0, sizeof(cl_mem), &B[o.a]));
      CK(clSetKernelArg(k, 1, sizeof(cl_mem), &B[o.b]));
      CK(clSetKernelArg(k, 2, 4, &o.x));
      size_t gs[2] = {o.n, o.rows}, ls[2] = {o.ls, 1};
      CK(clEnqueueNDRangeKernel(q, k, 2, NULL, gs, ls, nw, nw ? &ue : NULL, &ev));
      done(k);
      if (run)
        for (size_t j = 0; j < o.rows; j++)
          for (size_t i = 0; i < o.n; i++)
            D[i + j * o.n] = A[i + j * o.n] * 3 + o.x + i / o.ls * 7 + j * 31 + i % o.ls;
      break;
    }
    case O_REV:
    {
      cl_kernel k = kern(1);
      CK(clSetKernelArg(k, 0, sizeof(cl_mem), &B[o.a]));
      CK(clSetKernelArg(k, 1, o.ls * 4, NULL));
      CK(clSetKernelArg(k, 2, 4, &o.x));
      size_t gs = o.n / o.ls * o.ls;
      CK(clEnqueueNDRangeKernel(q, k, 1, NULL, &gs, &o.ls, nw, nw ? &ue : NULL, &ev));
      done(k);
      if (run)
        for (size_t g = 0; g < gs; g += o.ls)
        {
          std::vector<uint32_t> l(A.begin() + g, A.begin() + g + o.ls);
          for (size_t i = 0; i < o.ls; i++)
            A[g + i] = l[o.ls - 1 - i] + o.x;
        }
      break;
    }
    case O_SUM:
    {
      cl_kernel k = kern(2);
      uint32_t x = 1 + o.x % 7;
      CK(clSetKernelArg(k, 0, sizeof(cl_mem), &B[o.a]));
      CK(clSetKernelArg(k, 1, sizeof(cl_mem), &B[o.b]));
      CK(clSetKernelArg(k, 2, 4, &x));
      size_t gs = o.n / o.ls * o.ls;
      CK(clEnqueueNDRangeKernel(q, k, 1, NULL, &gs, &o.ls, nw, nw ? &ue : NULL, &ev));
      done(k);
      if (run)
      {
        std::vector<uint32_t> s = A;
        for (size_t i = 0; i < gs; i++)
          D[i % x] += s[i];
      }
      break;
    }
    case O_OOB:
    case O_PR:
    {
      cl_kernel k = kern(o.t == O_OOB ? 3 : 4);
      uint32_t x = o.t == O_OOB ? o.x % o.n : h.id * 1000 + oi;
      CK(clSetKernelArg(k, 0, sizeof(cl_mem), &B[o.a]));
      CK(clSetKernelArg(k, 1, 4, &x));
      size_t gs = o.n / o.ls * o.ls;
      CK(clEnqueueNDRangeKernel(q, k, 1, NULL, &gs, &o.ls, nw, nw ? &ue : NULL, &ev));
      done(k);
      if (run && o.t == O_OOB)
      {
        h.wantoob += x < gs;
        for (size_t i = 0; i < gs; i++)
          A[i] += 5;
      }
      else if (run)
        for (size_t i = 0; i < gs; i++)
        {
          char b[64];
          snprintf(b, sizeof b, "<%u:%u:%u>", x, (unsigned)i, A[i]);
          h.lines.push_back(b);
        }
      break;
    }
    case O_INVALID:
      cmd = false;
      h.wantnotes++;
      if (o.x % 3 == 0)
        r.require_cl(clEnqueueReadBuffer(q, B[o.a], CL_TRUE, ob, NE * 4 + 1, host.data(), 0, NULL, NULL),
                     CL_INVALID_VALUE, "clEnqueueReadBuffer out of range");
      else if (o.x % 3 == 1)
        r.require_cl(clSetKernelArg(K[0], 9, 4, &o.x), CL_INVALID_ARG_INDEX, "clSetKernelArg 9");
      else
        r.require_cl(clEnqueueCopyBuffer(q, B[o.a], B[o.a], 0, 4, 16, 0, NULL, NULL), CL_MEM_COPY_OVERLAP,
                     "clEnqueueCopyBuffer overlapping");
      break;
    case O_FINISH:
      cmd = false;
      CK(clFinish(q));
      break;
    case O_RECREATE:
    {
      cmd = false;
      cl_command_queue n =
        clCreateCommandQueue(ctx, g_device, h.ooo ? CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE : 0, &e);
      CE("clCreateCommandQueue");
      CK(clReleaseCommandQueue(q));
      q = n;
      CK(clReleaseMemObject(B[o.a]));
      B[o.a] = clCreateBuffer(ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, NE * 4, A.data(), &e);
      CE("clCreateBuffer");
      break;
    }
    case O_SUB:
    {
      cl_buffer_region rg = {ob, nb};
      cl_mem s = clCreateSubBuffer(B[o.a], 0, CL_BUFFER_CREATE_TYPE_REGION, &rg, &e);
      CE("clCreateSubBuffer");
      CK(clEnqueueWriteBuffer(q, s, bl, 0, nb, host.data(), nw, nw ? &ue : NULL, &ev));
      CK(clReleaseMemObject(s));
      if (run)
        std::copy(host.begin(), host.end(), A.begin() + o.off);
      break;
    }
    case O_MAP:
    {
      uint32_t *m = (uint32_t *)clEnqueueMapBuffer(q, B[o.a], CL_TRUE, CL_MAP_READ | CL_MAP_WRITE, ob, nb, 0,
                                                   NULL, NULL, &e);
      CE("clEnqueueMapBuffer");
      for (size_t i = 0; i < o.n; i++)
        if (m[i] != A[o.off + i])
          r.fail("hosts", "host %d op %zu: mapped word %zu is %u instead of %u", h.id, oi, i, m[i], A[o.off + i]);
      for (size_t i = 0; i < o.n; i++)
        m[i] = A[o.off + i] = host[i];
      CK(clEnqueueUnmapMemObject(q, B[o.a], m, nw, nw ? &ue : NULL, &ev));
      run = true;
      break;
    }
    }
    if (cmd)
    {
      h.cmds++;
      CK(clSetEventCallback(ev, CL_COMPLETE, on_event, &cb));
      if (o.user)
      {
        if (o.x & 1)
          CK(clFlush(q));
        CK(clSetUserEventStatus(ue, o.fail ? -7 : CL_COMPLETE));
        CK(clReleaseEvent(ue));
      }
      bool bad = o.user && o.fail;
      if (o.x & 2)
      {
        h.wantnotes += bad;
        r.require_cl(clWaitForEvents(1, &ev), bad ? CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST : CL_SUCCESS,
                     "clWaitForEvents");
      }
      else
        CK(clFinish(q));
      cl_int st = 99;
      CK(clGetEventInfo(ev, CL_EVENT_COMMAND_EXECUTION_STATUS, sizeof st, &st, NULL));
      if (bad ? st >= 0 : st != CL_COMPLETE)
        r.fail("hosts", "host %d op %zu (%s): status %d", h.id, oi, ON[o.t], st);
      if (cb.fired != 1)
        r.fail("hosts", "host %d op %zu (%s): callback called %d times", h.id, oi, ON[o.t], cb.fired);
      cl_context c2;
      CK(clGetEventInfo(ev, CL_EVENT_CONTEXT, sizeof c2, &c2, NULL));
      if (c2 != ctx)
        r.fail("hosts", "host %d op %zu: the event belongs to another context", h.id, oi);
      cl_uint rc = 0;
      CK(clGetEventInfo(ev, CL_EVENT_REFERENCE_COUNT, sizeof rc, &rc, NULL));
      if (rc != 1)
        r.fail("hosts", "host %d op %zu (%s): %u references to the finished event", h.id, oi, ON[o.t], rc);
      CK(clReleaseEvent(ev));
      if (o.t == O_READ && run)
        for (size_t i = 0; i < o.n; i++)
          if (host[i] != A[o.off + i])
            r.fail("hosts", "host %d op %zu: word %zu is %u instead of %u", h.id, oi, o.off + i, host[i],
                   A[o.off + i]);
      dsim_event(0x4853, h.id * 100 + oi);
    }
  }
  for (int i = 0; i < NB; i++)
  {
    std::vector<uint32_t> got(NE);
    CK(clEnqueueReadBuffer(q, B[i], CL_TRUE, 0, NE * 4, got.data(), 0, NULL, NULL));
    for (size_t j = 0; j < NE; j++)
      if (got[j] != M[i][j])
        r.fail("hosts", "host %d: word %zu of buffer %d is %u instead of %u at the end", h.id, j, i, got[j],
               M[i][j]);
    cl_uint rc;
    CK(clGetMemObjectInfo(B[i], CL_MEM_REFERENCE_COUNT, 4, &rc, NULL));
    if (rc != 1)
      r.fail("hosts", "host %d: buffer %d has %u references at the end", h.id, i, rc);
    CK(clReleaseMemObject(B[i]));
  }
  for (auto k : K)
    CK(clReleaseKernel(k));
  CK(clReleaseCommandQueue(q));
  return NULL;
}

static void run(Run &r)
{
  Rnd &q = r.rng;
  int nh = 2 + q(NC - 1), workers = 1 + q(3);
  std::vector<Host> hs(nh);
  bool kernelheavy = q(2);
  for (int i = 0; i < nh; i++)
  {
    Host &h = hs[i];
    h.r = &r;
    h.id = i;
    h.ooo = q(3) == 0;
    for (size_t j = 0; j < NB * NE; j++)
      h.init.push_back(q.next());
    int n = 2 + q(kernelheavy ? 6 : 12);
    for (int k = 0; k < n; k++)
    {
      static const int KO[] = {O_IDS, O_REV, O_SUM, O_OOB, O_PR};
      Op o;
      o.t = kernelheavy && q(3) ? KO[q(5)] : (int)q(NO);
      o.a = q(NB);
      o.b = (o.a + 1 + q(NB - 1)) % NB;
      o.off = q(NE - 1);
      o.n = 1 + q(NE - o.off);
      o.ls = 1 + q(4);
      o.rows = 1;
      o.x = q.next();
      if (o.t == O_IDS)
      {
        o.rows = 1 + q(3);
        o.ls = 1 + q(3);
        o.n = o.ls * (1 + q(6));
      }
      else if (o.t == O_REV || o.t == O_SUM || o.t == O_OOB || o.t == O_PR)
        o.n = o.ls * (1 + q(o.t == O_PR ? 3 : 8));
      o.blocking = q(2);
      o.user = q(3) == 0;
      o.fail = q(3) == 0;
      o.newk = q(4) == 0;
      if (o.t == O_FINISH || o.t == O_INVALID || o.t == O_RECREATE)
        o.user = false;
      if (!r.keep())
        continue;
      r.d("host %d: %s a=%d b=%d off=%zu n=%zu ls=%zu rows=%zu x=%u%s%s%s", i, ON[o.t], o.a, o.b, o.off, o.n,
          o.ls, o.rows, o.x, o.blocking ? " blocking" : "", o.user ? o.fail ? " failing user event" : " user event" : "",
          o.newk ? " own kernel" : "");
      h.ops.push_back(o);
    }
  }
  r.d("%d hosts, %d workers", nh, workers);
  for (auto &n : notes)
    n = 0;
  capture_reset();
  set_threads(workers);
  r.begin();
  std::vector<pthread_t> th(nh);
  for (int i = 1; i < nh; i++)
    pthread_create(&th[i], NULL, host, &hs[i]);
  host(&hs[0]);
  for (int i = 1; i < nh; i++)
    pthread_join(th[i], NULL);
  for (int i = 0; i < nh; i++)
  {
    cl_uint rc = 0;
    clGetContextInfo(CTX[i], CL_CONTEXT_REFERENCE_COUNT, sizeof rc, &rc, NULL);
    cl_uint pc = 0;
    clGetProgramInfo(PRG[i], CL_PROGRAM_REFERENCE_COUNT, sizeof pc, &pc, NULL);
    if (rc != 2 || pc != 1)
      r.fail("hosts", "context %d has %u references and its program %u at the end", i, rc, pc);
  }
  r.end();
  size_t want = 0, oob = 0, api = 0, wapi = 0;
  for (int i = 0; i < nh; i++)
  {
    if (notes[i] != hs[i].wantnotes)
      r.fail("hosts", "context %d was notified %d times instead of %d", i, (int)notes[i], hs[i].wantnotes);
    wapi += hs[i].wantnotes;
    want += hs[i].wantoob;
    r.stat("commands", hs[i].cmds);
  }
  std::string e = captured_stderr(), o = captured_stdout();
  for (size_t p = 0; (p = e.find("Invalid write of size", p)) != std::string::npos; p++)
    oob++;
  for (size_t p = 0; (p = e.find("Oclgrind - OpenCL runtime error", p)) != std::string::npos; p++)
    api++;
  if (oob != want || api != wapi)
    r.fail("hosts", "%zu invalid writes and %zu API errors were reported instead of %zu and %zu: %.600s", oob, api,
           want, wapi, e.c_str());
  std::vector<std::string> w, g;
  for (auto &h : hs)
    w.insert(w.end(), h.lines.begin(), h.lines.end());
  for (size_t p = 0; p < o.size();)
  {
    size_t n = o.find('\n', p);
    if (n == std::string::npos)
      n = o.size();
    g.push_back(o.substr(p, n - p));
    p = n + 1;
  }
  std::sort(w.begin(), w.end());
  std::sort(g.begin(), g.end());
  if (w != g)
    r.fail("hosts", "printed lines differ: %zu instead of %zu: %.600s", g.size(), w.size(), o.c_str());
  r.stat("host_threads", nh);
  r.stat("invalid_accesses", want);
  r.stat("printed_lines", w.size());
  r.stat("rejected_calls", wapi);
}
static RegWorkload reg("hosts", setup, run);
} // namespace
