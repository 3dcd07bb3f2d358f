// Image built-ins (C28): kernels that read, filter, write, copy and query images of
// every type and format, mixed with host transfers, on several workers, with the
// objects they use replaced or released before they run.
#include "h.h"
#include <cmath>
#include <memory>

namespace
{
typedef std::vector<uint8_t> Bytes;
static cl_context CTX;
static cl_program PROG;

enum { D1, D1A, D2, D2A, D3, D1B, NDIM };
static const int ITYPE[] = {CL_MEM_OBJECT_IMAGE1D, CL_MEM_OBJECT_IMAGE1D_ARRAY,
                            CL_MEM_OBJECT_IMAGE2D, CL_MEM_OBJECT_IMAGE2D_ARRAY,
                            CL_MEM_OBJECT_IMAGE3D, CL_MEM_OBJECT_IMAGE1D_BUFFER};
static const char *DN[] = {"image1d_t", "image1d_array_t", "image2d_t",
                           "image2d_array_t", "image3d_t", "image1d_buffer_t"};
static const char *SW[] = {".x", ".xy", ".xy", "", "", ".x"};  // coordinate
static const char *FN[] = {"f", "i", "ui"};
static const char *AS[] = {"as_float4", "as_int4", ""};
struct CSamp
{
  int norm, mode, filt;
};
static const CSamp CS[] = {
  {0, CL_ADDRESS_NONE, 0},         {0, CL_ADDRESS_CLAMP_TO_EDGE, 0},
  {0, CL_ADDRESS_CLAMP, 0},        {0, CL_ADDRESS_CLAMP, 1},
  {0, CL_ADDRESS_CLAMP_TO_EDGE, 1}, {1, CL_ADDRESS_CLAMP_TO_EDGE, 0},
  {1, CL_ADDRESS_CLAMP, 1},        {1, CL_ADDRESS_REPEAT, 0},
  {1, CL_ADDRESS_REPEAT, 1},       {1, CL_ADDRESS_MIRRORED_REPEAT, 0},
  {1, CL_ADDRESS_MIRRORED_REPEAT, 1}, {0, CL_ADDRESS_NONE, 1}};
static const int NCS = sizeof CS / sizeof *CS;
static const char *modename(int m, bool clk)
{
  static std::map<int, const char *> n = {{CL_ADDRESS_NONE, "CLK_ADDRESS_NONE"},
                                          {CL_ADDRESS_CLAMP_TO_EDGE, "CLK_ADDRESS_CLAMP_TO_EDGE"},
                                          {CL_ADDRESS_CLAMP, "CLK_ADDRESS_CLAMP"},
                                          {CL_ADDRESS_REPEAT, "CLK_ADDRESS_REPEAT"},
                                          {CL_ADDRESS_MIRRORED_REPEAT, "CLK_ADDRESS_MIRRORED_REPEAT"}};
  return n.at(m) + (clk ? 0 : 12);
}

static std::string source()
{
  std::string s = "#pragma OPENCL EXTENSION cl_khr_3d_image_writes : enable\n";
  for (int i = 0; i < NCS; i++)
    s += "constant sampler_t S" + std::to_string(i) + " = " +
         (CS[i].norm ? "CLK_NORMALIZED_COORDS_TRUE" : "CLK_NORMALIZED_COORDS_FALSE") +
         " | " + modename(CS[i].mode, true) + " | " +
         (CS[i].filt ? "CLK_FILTER_LINEAR" : "CLK_FILTER_NEAREST") + ";\n";
  for (int d = 0; d < NDIM; d++)
  {
    std::string D = std::to_string(d), T = DN[d], C = SW[d];
    for (int f = 0; f < 3; f++)
    {
      std::string F = FN[f];
      std::string tail = D + "_" + std::to_string(f);
      std::string U = f == 2 ? "" : "as_uint4";
      std::string head = "kernel void ";
      auto rd = [&](const std::string &name, const std::string &sp, const std::string &sx,
                    const char *ct, int cv) {
        s += head + name + tail + "(read_only " + T + " im" + sp + ", global const " + ct +
             "4 *co, global uint4 *out)\n{\n  size_t i = get_global_id(0);\n  out[i] = " + U +
             "(read_image" + F + "(im" + sx + ", co[i]" + C + "));\n}\n";
        (void)cv;
      };
      rd("rn", "", "", "int", 0);
      if (d != D1B)
      {
        rd("ri", ", sampler_t s", ", s", "int", 0);
        rd("rf", ", sampler_t s", ", s", "float", 1);
        if (f != 1)
          for (int k = 0; k < NCS; k++)
            if ((f == 0 || !CS[k].filt) && (d == D2 || (d == D3 && k % 3 == 0) || (d == D1A && k % 3 == 1)))
              rd("rc" + std::to_string(k) + "_", "", ", S" + std::to_string(k), "float", 1);
      }
      s += head + "wr" + tail + "(write_only " + T + " im, global const int4 *co, global const "
           "uint4 *v)\n{\n  size_t i = get_global_id(0);\n  write_image" + F + "(im, co[i]" + C +
           ", " + AS[f] + "(v[i]));\n}\n";
      s += head + "cp" + tail + "(read_only " + T + " im, write_only " + T +
           " to, global const int4 *co)\n{\n  size_t i = get_global_id(0);\n  write_image" + F +
           "(to, co[i]" + C + ", read_image" + F + "(im, co[i]" + C + "));\n}\n";
    }
    s += "kernel void qu" + D + "_0(read_only " + T + " im, global uint *o)\n{\n"
         "  o[0] = get_image_width(im);\n  o[1] = get_image_channel_data_type(im);\n"
         "  o[2] = get_image_channel_order(im);\n";
    if (d >= D2 && d <= D3)
      s += "  o[3] = get_image_height(im);\n";
    if (d == D1A || d == D2A)
      s += "  o[4] = get_image_array_size(im);\n";
    if (d == D3)
      s += "  o[5] = get_image_depth(im);\n  int4 q = get_image_dim(im);\n"
           "  o[6] = q.x; o[7] = q.y; o[8] = q.z; o[9] = q.w;\n";
    if (d == D2 || d == D2A)
      s += "  int2 q = get_image_dim(im);\n  o[6] = q.x; o[7] = q.y;\n";
    s += "}\n";
  }
  return s;
}

// ------------------------------------------------------------ formats
enum { NORM, SINT, UINT };
static int klass(int t)
{
  switch (t)
  {
  case CL_SIGNED_INT8: case CL_SIGNED_INT16: case CL_SIGNED_INT32: return SINT;
  case CL_UNSIGNED_INT8: case CL_UNSIGNED_INT16: case CL_UNSIGNED_INT32: return UINT;
  }
  return NORM;
}
static int chsize(int t)
{
  switch (t)
  {
  case CL_SNORM_INT8: case CL_UNORM_INT8: case CL_SIGNED_INT8: case CL_UNSIGNED_INT8:
    return 1;
  case CL_SIGNED_INT32: case CL_UNSIGNED_INT32: case CL_FLOAT:
    return 4;
  }
  return 2;
}
// the component (0 r, 1 g, 2 b, 3 a) kept in each channel
static std::vector<int> channels(int o)
{
  switch (o)
  {
  case CL_R: case CL_Rx: case CL_INTENSITY: case CL_LUMINANCE: return {0};
  case CL_A: return {3};
  case CL_RG: case CL_RGx: return {0, 1};
  case CL_RA: return {0, 3};
  case CL_RGBA: return {0, 1, 2, 3};
  case CL_ARGB: return {3, 0, 1, 2};
  case CL_BGRA: return {2, 1, 0, 3};
  }
  return {};
}
static float half2f(uint16_t h)
{
  int e = h >> 10 & 31, m = h & 1023;
  double v = e == 0 ? ldexp(m, -24) : ldexp(m + 1024, e - 25);
  return h >> 15 ? -v : v;
}
static uint16_t f2half(float f) // exactly representable values only
{
  for (uint32_t h = 0; h < 65536; h++)
    if ((h >> 10 & 31) != 31)
    {
      float g = half2f(h);
      if (!memcmp(&g, &f, 4))
        return h;
    }
  return 0;
}

union Comp
{
  float f;
  int32_t i;
  uint32_t u;
};
struct Img
{
  int dim, order, type, klass, buf = -1; // D1B: number of the buffer object
  int w = 1, h = 1, d = 1, layers = 1;
  std::vector<int> ch;
  int px = 0;
  Bytes data;
  cl_mem mem = NULL;
  int bytes() const { return w * h * d * layers * px; }
  size_t at(int x, int y, int z, int l) const
  {
    return (size_t)(((l * d + z) * h + y) * w + x) * px;
  }
};
static void decode(const Img &im, const uint8_t *p, Comp *c) // -> r g b a
{
  Comp one, zero;
  zero.u = 0;
  if (im.klass == NORM)
    one.f = 1;
  else
    one.u = 1;
  c[0] = c[1] = c[2] = zero;
  c[3] = one;
  for (size_t k = 0; k < im.ch.size(); k++)
  {
    Comp v;
    v.u = 0;
    const uint8_t *q = p + k * chsize(im.type);
    int8_t a; int16_t b = 0; uint16_t e = 0;
    memcpy(&a, q, 1);
    if (chsize(im.type) >= 2)
      memcpy(&b, q, 2), memcpy(&e, q, 2);
    switch (im.type)
    {
    case CL_SNORM_INT8: v.f = std::max(a / 127.f, -1.f); break;
    case CL_UNORM_INT8: v.f = q[0] / 255.f; break;
    case CL_SNORM_INT16: v.f = std::max(b / 32767.f, -1.f); break;
    case CL_UNORM_INT16: v.f = e / 65535.f; break;
    case CL_SIGNED_INT8: v.i = a; break;
    case CL_UNSIGNED_INT8: v.u = q[0]; break;
    case CL_SIGNED_INT16: v.i = b; break;
    case CL_UNSIGNED_INT16: v.u = e; break;
    case CL_HALF_FLOAT: v.f = half2f(e); break;
    default: memcpy(&v, q, 4);
    }
    c[im.ch[k]] = v;
    if (im.order == CL_INTENSITY)
      c[1] = c[2] = c[3] = v;
    if (im.order == CL_LUMINANCE)
      c[1] = c[2] = v;
  }
}
// one channel from its component
static void encode(const Img &im, Comp c, uint8_t *q)
{
  auto sat = [](double v, double lo, double hi) { return std::min(std::max(v, lo), hi); };
  int8_t a; int16_t b; uint16_t e;
  switch (im.type)
  {
  case CL_SNORM_INT8: a = (int)rint(sat(c.f * 127.0, -128, 127)); memcpy(q, &a, 1); break;
  case CL_UNORM_INT8: q[0] = (int)rint(sat(c.f * 255.0, 0, 255)); break;
  case CL_SNORM_INT16: b = (int)rint(sat(c.f * 32767.0, -32768, 32767)); memcpy(q, &b, 2); break;
  case CL_UNORM_INT16: e = (int)rint(sat(c.f * 65535.0, 0, 65535)); memcpy(q, &e, 2); break;
  case CL_SIGNED_INT8: a = (int)sat(c.i, -128, 127); memcpy(q, &a, 1); break;
  case CL_UNSIGNED_INT8: q[0] = std::min(c.u, 255u); break;
  case CL_SIGNED_INT16: b = (int)sat(c.i, -32768, 32767); memcpy(q, &b, 2); break;
  case CL_UNSIGNED_INT16: e = std::min(c.u, 65535u); memcpy(q, &e, 2); break;
  case CL_HALF_FLOAT: e = f2half(c.f); memcpy(q, &e, 2); break;
  default: memcpy(q, &c, 4);
  }
}
static void store(Img &im, size_t at, const Comp *c)
{
  for (size_t k = 0; k < im.ch.size(); k++)
    encode(im, c[im.ch[k]], &im.data[at + k * chsize(im.type)]);
}
static float tame(Rnd &q, bool half)
{
  switch (q(5))
  {
  case 0: return ((int)q(65) - 32) / 4.f;
  case 1: return q(2) ? 1 : q(2) ? 0 : -1;
  case 2: return half ? half2f(q(1024) | q(2) << 15) : (q(2) ? 1 : -1) * ldexpf(1 + q(100), -140 - (int)q(8));
  case 3: return half2f((q(4) + 14) << 10 | q(1024) | q(2) << 15);
  }
  return half ? half2f((10 + q(6)) << 10 | q(1024)) : ((int)q(2000001) - 1000000) / 123456.7f;
}
static void raw(Rnd &q, const Img &im, uint8_t *p, size_t n)
{
  if (im.type == CL_FLOAT)
    for (size_t i = 0; i + 4 <= n; i += 4)
    {
      float f = tame(q, false);
      memcpy(p + i, &f, 4);
    }
  else if (im.type == CL_HALF_FLOAT)
    for (size_t i = 0; i + 2 <= n; i += 2)
    {
      uint16_t h = f2half(tame(q, true));
      memcpy(p + i, &h, 2);
    }
  else
    for (size_t i = 0; i < n; i++)
      p[i] = q(6) ? q(256) : q(2) ? 0x80 : 0xff;
}
// a component to be written, such that the stored value is not in doubt
static Comp towrite(Rnd &q, const Img &im)
{
  Comp c;
  c.u = 0;
  double e = ((int)q(77) - 38) / 100.0;
  switch (im.type)
  {
  case CL_SNORM_INT8: c.f = q(6) ? ((int)q(255) - 127 + e) / 127 : (q(2) ? 1 : -1) * (1.1 + q(50)); break;
  case CL_UNORM_INT8: c.f = q(6) ? (q(256) + e) / 255 : q(2) ? 1.1 + q(50) : -0.1 - q(50); break;
  case CL_SNORM_INT16: c.f = q(6) ? ((int)q(65535) - 32767 + e) / 32767 : (q(2) ? 1 : -1) * (1.1 + q(50)); break;
  case CL_UNORM_INT16: c.f = q(6) ? (q(65536) + e) / 65535 : q(2) ? 1.1 + q(50) : -0.1 - q(50); break;
  case CL_FLOAT: c.f = tame(q, false); break;
  case CL_HALF_FLOAT: c.f = tame(q, true); break;
  case CL_SIGNED_INT8: case CL_SIGNED_INT16: case CL_SIGNED_INT32:
  case CL_UNSIGNED_INT8: case CL_UNSIGNED_INT16: case CL_UNSIGNED_INT32:
    switch (q(5))
    {
    case 0: c.u = q(2) ? 0x7fffffff + q(2) : q(2) ? 0xffffffff : 0; break;
    case 1: c.u = (q(2) ? 127 : 32767) + q(3); break;
    case 2: c.u = (q(2) ? 255 : 65535) + q(3); break;
    case 3: c.i = -(int)((q(2) ? 128 : 32768) + q(3)); break;
    default: c.u = q.next() >> q(32); break;
    }
  }
  return c;
}

// ----------------------------------------------------- reference reads
// the pixel that coordinate p of one dimension means; -1 the border
static int pixel(int mode, int p, int size)
{
  switch (mode)
  {
  case CL_ADDRESS_CLAMP_TO_EDGE: return std::min(std::max(p, 0), size - 1);
  case CL_ADDRESS_REPEAT: return (p % size + size) % size;
  case CL_ADDRESS_MIRRORED_REPEAT:
  {
    int m = (p % (2 * size) + 2 * size) % (2 * size);
    return m < size ? m : 2 * size - 1 - m;
  }
  }
  return p < 0 || p >= size ? -1 : p;
}
static void fetch(const Img &im, int mode, const int *p, int layer, Comp *c)
{
  int x = pixel(mode, p[0], im.w), y = pixel(mode, p[1], im.h), z = pixel(mode, p[2], im.d);
  if (x >= 0 && y >= 0 && z >= 0)
    return decode(im, &im.data[im.at(x, y, z, layer)], c);
  bool one = im.order == CL_R || im.order == CL_RG || im.order == CL_LUMINANCE;
  for (int i = 0; i < 4; i++)
    c[i].u = 0;
  if (one && im.klass == NORM)
    c[3].f = 1;
  else if (one)
    c[3].u = 1;
}

struct Op
{
  enum { READ, WRITE, COPY, QUERY, HWRITE, HREAD, SETU, FINISH } t;
  int a = 0, b = 0;
  int fn = 0;
  int how = 0; // READ: 0 no sampler, 1 integer coordinates, 2 float, 3+ constant sampler
  CSamp s = {0, 0, 0};
  std::vector<int32_t> ci;
  std::vector<float> cf;
  std::vector<Comp> v;
  int n = 0, ls = 1;
  bool gate = false, early = false, reset = false, clone = false;
  // expectation
  std::vector<Comp> want;
  std::vector<float> tol;
  std::vector<uint32_t> got;
  Bytes hb, hwant;
  size_t org[3] = {0, 0, 0}, reg[3] = {1, 1, 1};
  cl_mem out = NULL;
  cl_event ev = NULL;
};

static void setup(const std::string &)
{
  unsetenv("OCLGRIND_PLUGINS");
  obs_hooks.threadsafe = 1;
  setenv("OCLGRIND_PLUGINS", BUILD_DIR "/libobs.so", 1);
  cl_setup_platform();
  CTX = cl_new_context();
  PROG = cl_build(CTX, source().c_str(), "-cl-std=CL1.2");
}

// host view of the image: 1D arrays use the second coordinate for the layer
static void hostdims(const Img &im, int *d)
{
  d[0] = im.w;
  d[1] = im.dim == D1A ? im.layers : im.h;
  d[2] = im.dim == D2A ? im.layers : im.d;
}

static void run(Run &r)
{
  Rnd &q = r.rng;
  int workers = 1 + q(4);
  static const int OALL[] = {CL_R, CL_Rx, CL_A, CL_RG, CL_RGx, CL_RA, CL_RGBA};
  static const int TALL[] = {CL_SNORM_INT8, CL_SNORM_INT16, CL_UNORM_INT8, CL_UNORM_INT16,
                             CL_SIGNED_INT8, CL_SIGNED_INT16, CL_SIGNED_INT32, CL_UNSIGNED_INT8,
                             CL_UNSIGNED_INT16, CL_UNSIGNED_INT32, CL_FLOAT, CL_HALF_FLOAT};
  static const int TN[] = {CL_SNORM_INT8, CL_SNORM_INT16, CL_UNORM_INT8, CL_UNORM_INT16, CL_FLOAT, CL_HALF_FLOAT};
  static const int TB[] = {CL_SNORM_INT8, CL_UNORM_INT8, CL_SIGNED_INT8, CL_UNSIGNED_INT8};
  std::vector<Img> im(1 + q(4));
  for (auto &x : im)
  {
    x.dim = q(NDIM);
    switch (q(4))
    {
    case 0: x.order = q(2) ? CL_INTENSITY : CL_LUMINANCE; x.type = TN[q(6)]; break;
    case 1: x.order = q(2) ? CL_ARGB : CL_BGRA; x.type = TB[q(4)]; break;
    default: x.order = OALL[q(7)]; x.type = TALL[q(12)]; break;
    }
  }
  // often two images a copy can go between
  if (im.size() > 1 && q(2))
  {
    im[1].dim = im[0].dim;
    im[1].type = im[0].type;
    if (q(2) && chsize(im[0].type) > 1)
      im[1].order = im[0].order;
    else if (chsize(im[0].type) > 1)
      im[1].order = OALL[q(7)];
  }
  for (auto &x : im)
  {
    static const int SZ[] = {1, 2, 3, 4, 5, 7, 8};
    x.klass = klass(x.type);
    x.ch = channels(x.order);
    x.px = x.ch.size() * chsize(x.type);
    x.w = SZ[q(7)];
    if (x.dim == D2 || x.dim == D2A || x.dim == D3)
      x.h = SZ[q(5)];
    if (x.dim == D3)
      x.d = SZ[q(4)];
    if (x.dim == D1A || x.dim == D2A)
      x.layers = SZ[q(4)];
    x.data.resize(x.bytes());
    raw(q, x, x.data.data(), x.data.size());
    r.d("image %zu: type 0x%x %dx%dx%d layers %d order 0x%x data 0x%x", &x - &im[0], ITYPE[x.dim],
        x.w, x.h, x.d, x.layers, x.order, x.type);
  }
  std::vector<Img> init = im;
  // ----------------------------------------------------------- operations
  std::vector<Op> ops;
  int nops = 3 + q(10);
  bool gated = q(3) == 0;
  for (int i = 0; i < nops; i++)
  {
    Rnd g(q.next());
    if (!r.keep())
      continue;
    Op op;
    op.a = g(im.size());
    Img &x = im[op.a];
    op.fn = x.klass == NORM ? 0 : x.klass == SINT ? 1 : 2;
    int t = g(20);
    op.n = 1 + g(g(4) ? 12 : 30);
    op.gate = gated && g(3) == 0;
    op.early = g(2);
    op.reset = g(3) == 0;
    op.clone = g(6) == 0;
    auto layered = [&](int l, int32_t *c) {
      if (x.dim == D1A)
        c[1] = l;
      if (x.dim == D2A)
        c[2] = l;
    };
    // distinct pixels of x
    auto places = [&](const Img &b) {
      int w = std::min(x.w, b.w), h = std::min(x.h, b.h), d = std::min(x.d, b.d);
      int l = std::min(x.layers, b.layers);
      std::vector<int> p;
      for (int k = 0; k < w * h * d * l; k++)
        p.push_back(k);
      for (size_t k = p.size(); k > 1; k--)
        std::swap(p[k - 1], p[g(k)]);
      if ((size_t)op.n > p.size() || g(5) == 0)
        op.n = p.size();
      for (int k = 0; k < op.n; k++)
      {
        int v = p[k];
        int32_t c[4] = {v % w, v / w % h, v / w / h % d, (int32_t)g(100) - 50};
        layered(v / w / h / d, c);
        if (x.dim == D1 || x.dim == D1B)
          c[1] = c[2] = g(9);
        op.ci.insert(op.ci.end(), c, c + 4);
      }
    };
    auto locate = [&](const Img &b, const int32_t *c) {
      bool two = b.dim >= D2 && b.dim <= D3;
      return b.at(c[0], two ? c[1] : 0, b.dim == D3 ? c[2] : 0,
                  b.dim == D1A ? c[1] : b.dim == D2A ? c[2] : 0);
    };
    if (t < 8) // read
    {
      op.t = Op::READ;
      static const int MODES[] = {CL_ADDRESS_NONE, CL_ADDRESS_CLAMP_TO_EDGE, CL_ADDRESS_CLAMP,
                                  CL_ADDRESS_REPEAT, CL_ADDRESS_MIRRORED_REPEAT};
      op.how = x.dim == D1B ? 0 : g(6);
      bool lin_ok = x.klass == NORM;
      if (op.how == 0)
        op.s = {0, CL_ADDRESS_NONE, 0};
      else if (op.how == 1)
        op.s = {0, MODES[g(3)], 0};
      else if (op.how < 5 || op.fn == 1 || (x.dim != D1A && x.dim != D2 && x.dim != D3))
      {
        op.how = 2;
        op.s.norm = g(2);
        op.s.mode = MODES[g(op.s.norm ? 5 : 3)];
        op.s.filt = lin_ok && g(2);
      }
      else
      {
        int k;
        do
          k = g(NCS);
        while ((CS[k].filt && !lin_ok) || (x.dim == D3 && k % 3) || (x.dim == D1A && k % 3 != 1));
        op.how = 3 + k;
        op.s = CS[k];
      }
      int sz[3] = {x.w, x.h, x.d};
      int ncoord = x.dim == D3 ? 3 : x.dim == D2 || x.dim == D2A ? 2 : 1;
      if (op.s.filt && op.s.mode == CL_ADDRESS_NONE)
        for (int k = 0; k < ncoord; k++)
          if (sz[k] < 2) // both pixels have to be there
            op.s.mode = -1;
      if (op.s.mode == -1)
      {
        if (op.how > 2)
          op.how = 2;
        op.s.mode = CL_ADDRESS_CLAMP_TO_EDGE;
      }
      for (int k = 0; k < op.n; k++)
      {
        float cf[4] = {0, 0, 0, 0};
        int32_t ci[4] = {0, 0, 0, 0};
        int p[3] = {0, 0, 0};
        double w[3] = {0, 0, 0};
        for (int z = 0; z < ncoord; z++)
        {
          int size = sz[z];
          switch (op.s.mode)
          {
          case CL_ADDRESS_NONE: p[z] = g(size); break;
          case CL_ADDRESS_REPEAT: case CL_ADDRESS_MIRRORED_REPEAT:
            p[z] = (int)g(6 * size) - 3 * size;
            break;
          default:
            p[z] = g(12) ? (int)g(size + 4) - 2 : (int)g(20001) - 10000;
          }
          ci[z] = p[z];
          double fr = (10 + g(81)) / 100.0;
          if (op.s.filt)
          {
            // pixel p and the next one, the second with weight fr
            if (op.s.mode == CL_ADDRESS_NONE)
              p[z] = g(size - 1);
            if (g(8) == 0)
              fr = 0.5; // on the border of two pixels
            w[z] = fr;
            cf[z] = op.s.norm ? (p[z] + 0.5 + fr) / size : p[z] + 0.5 + fr;
          }
          else
            cf[z] = op.s.norm ? (p[z] + fr) / size : p[z] + fr;
          if (!op.s.filt && op.s.norm && (op.s.mode == CL_ADDRESS_REPEAT || op.s.mode == CL_ADDRESS_MIRRORED_REPEAT) && g(10) == 0)
          {
            // where the image repeats, as exactly as the coordinate can say it
            int k = (int)g(7) - 3;
            p[z] = op.s.mode == CL_ADDRESS_REPEAT || k % 2 == 0 ? 0 : size - 1;
            cf[z] = k ? k : -1e-9 * g(3);
          }
        }
        int layer = 0;
        if (x.layers > 1 || x.dim == D1A || x.dim == D2A)
        {
          int at = x.dim == D1A ? 1 : 2;
          if (op.s.mode == CL_ADDRESS_NONE)
          {
            layer = g(x.layers);
            ci[at] = layer;
            cf[at] = layer + ((int)g(81) - 40) / 100.0;
          }
          else
          {
            int l = (int)g(x.layers + 4) - 2;
            ci[at] = l;
            cf[at] = l + ((int)g(81) - 40) / 100.0;
            layer = std::min(std::max(l, 0), x.layers - 1);
          }
        }
        op.ci.insert(op.ci.end(), ci, ci + 4);
        op.cf.insert(op.cf.end(), cf, cf + 4);
        Comp c[4];
        float tol = 0;
        if (!op.s.filt)
        {
          fetch(im[op.a], op.s.mode, p, layer, c);
          if (x.klass == NORM && x.type != CL_FLOAT && x.type != CL_HALF_FLOAT)
            tol = 1e-6;
        }
        else
        {
          double sum[4] = {0, 0, 0, 0}, mx = 0;
          for (int m = 0; m < 8; m++)
          {
            double f = 1;
            int pp[3];
            for (int z = 0; z < 3; z++)
            {
              f *= m >> z & 1 ? w[z] : 1 - w[z];
              pp[z] = p[z] + (m >> z & 1);
            }
            if (f == 0)
              continue;
            fetch(im[op.a], op.s.mode, pp, layer, c);
            for (int z = 0; z < 4; z++)
            {
              sum[z] += f * c[z].f;
              mx = std::max(mx, fabs((double)c[z].f));
            }
          }
          for (int z = 0; z < 4; z++)
            c[z].f = sum[z];
          // the weights are computed from coordinates of limited precision
          double big = 0;
          for (int z = 0; z < 3; z++)
            big = std::max(big, fabs((double)p[z]) + 2);
          tol = mx * (1e-5 + big * 1e-6) * 4 + 1e-37;
        }
        op.want.insert(op.want.end(), c, c + 4);
        op.tol.push_back(tol);
      }
    }
    else if (t < 13) // write
    {
      op.t = Op::WRITE;
      places(x);
      for (int k = 0; k < op.n; k++)
      {
        Comp c[4];
        for (auto &y : c)
          y = towrite(g, x);
        store(x, locate(x, &op.ci[k * 4]), c);
        op.v.insert(op.v.end(), c, c + 4);
      }
    }
    else if (t < 15) // copy
    {
      std::vector<int> to;
      for (size_t k = 0; k < im.size(); k++)
        if ((int)k != op.a && im[k].dim == x.dim && im[k].type == x.type)
          to.push_back(k);
      if (to.empty())
        continue;
      op.b = g.pick(to);
      Img &y = im[op.b];
      op.t = Op::COPY;
      places(y);
      for (int k = 0; k < op.n; k++)
      {
        Comp c[4];
        decode(x, &x.data[locate(x, &op.ci[k * 4])], c);
        store(y, locate(y, &op.ci[k * 4]), c);
      }
    }
    else if (t == 15)
      op.t = Op::QUERY;
    else if (t < 18)
    {
      op.t = t == 16 ? Op::HWRITE : Op::HREAD;
      if (x.dim == D1B)
        continue;
      int d[3];
      hostdims(x, d);
      for (int z = 0; z < 3; z++)
      {
        op.org[z] = g(d[z]);
        op.reg[z] = 1 + g(d[z] - op.org[z]);
      }
      size_t n = op.reg[0] * op.reg[1] * op.reg[2] * x.px;
      op.hb.resize(n);
      if (t == 16)
        raw(g, x, op.hb.data(), n);
      op.hwant.resize(n);
      for (size_t z = 0; z < op.reg[2]; z++)
        for (size_t y = 0; y < op.reg[1]; y++)
        {
          size_t at = (((op.org[2] + z) * d[1] + op.org[1] + y) * d[0] + op.org[0]) * x.px;
          size_t h = (z * op.reg[1] + y) * op.reg[0] * x.px;
          if (t == 16)
            memcpy(&x.data[at], &op.hb[h], op.reg[0] * x.px);
          else
            memcpy(&op.hwant[h], &x.data[at], op.reg[0] * x.px);
        }
    }
    else
      op.t = t == 18 ? Op::SETU : Op::FINISH;
    if (op.t <= Op::COPY)
    {
      std::vector<int> dv;
      for (int k = 1; k <= op.n; k++)
        if (op.n % k == 0)
          dv.push_back(k);
      op.ls = g.pick(dv);
    }
    if (r.desc)
    {
      static const char *ON[] = {"read", "write", "copy", "query", "host write", "host read",
                                 "set user event", "finish"};
      r.d("%s image %d to %d: %d work-items in groups of %d, access %d, sampler %s %s %s%s%s%s%s",
          ON[op.t], op.a, op.b, op.n, op.ls, op.how, op.s.norm ? "normalised" : "unnormalised",
          op.t == Op::READ ? modename(op.s.mode, false) : "", op.s.filt ? "linear" : "nearest",
          op.gate ? " gated" : "", op.early ? " early release" : "", op.reset ? " arguments replaced" : "",
          op.clone ? " cloned" : "");
    }
    if (op.t == Op::READ)
      r.nontrivial((uint64_t)x.dim | x.order << 4 | (uint64_t)x.type << 20 |
                   (uint64_t)op.s.mode << 36 | (uint64_t)op.s.filt << 52 | (uint64_t)op.s.norm << 53 |
                   (uint64_t)std::min(op.how, 3) << 54);
    if (op.t == Op::WRITE)
      r.nontrivial((uint64_t)x.dim | x.order << 4 | (uint64_t)x.type << 20 | 1ull << 60);
    ops.push_back(std::move(op));
  }

  // ------------------------------------------------------------- execution
  set_threads(workers);
  obs_start(1 << OB_LOG);
  r.cfg.max_steps = 20000000;
  r.begin();
  cl_int e;
  cl_command_queue cq = clCreateCommandQueue(CTX, g_device, 0, &e);
  r.require_cl(e, CL_SUCCESS, "clCreateCommandQueue");
  for (auto &x : init)
  {
    cl_image_format f = {(cl_channel_order)x.order, (cl_channel_type)x.type};
    cl_image_desc d;
    memset(&d, 0, sizeof d);
    d.image_type = ITYPE[x.dim];
    d.image_width = x.w;
    if (x.dim >= D2 && x.dim <= D3)
      d.image_height = x.h;
    if (x.dim == D3)
      d.image_depth = x.d;
    if (x.dim == D1A || x.dim == D2A)
      d.image_array_size = x.layers;
    cl_mem b = NULL;
    if (x.dim == D1B)
    {
      b = clCreateBuffer(CTX, CL_MEM_COPY_HOST_PTR, x.data.size(), x.data.data(), &e);
      r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
      d.buffer = b;
    }
    im[&x - &init[0]].mem =
      clCreateImage(CTX, b ? 0 : CL_MEM_COPY_HOST_PTR, &f, &d, b ? NULL : x.data.data(), &e);
    r.require_cl(e, CL_SUCCESS, "clCreateImage");
    if (b)
      r.require_cl(clReleaseMemObject(b), CL_SUCCESS, "clReleaseMemObject");
  }
  cl_event gate = NULL;
  auto open = [&] {
    if (gate)
    {
      r.require_cl(clSetUserEventStatus(gate, CL_COMPLETE), CL_SUCCESS, "clSetUserEventStatus");
      r.require_cl(clReleaseEvent(gate), CL_SUCCESS, "clReleaseEvent");
      gate = NULL;
    }
  };
  // image that the arguments of a launched kernel are replaced with
  cl_mem spare[NDIM] = {};
  for (auto &op : ops)
  {
    if (op.gate && !gate)
    {
      gate = clCreateUserEvent(CTX, &e);
      r.require_cl(e, CL_SUCCESS, "clCreateUserEvent");
    }
    cl_uint nw = op.gate ? 1 : 0;
    const cl_event *wl = op.gate ? &gate : NULL;
    Img &x = im[op.a];
    if (op.t <= Op::QUERY)
    {
      static const char *KN[] = {"", "wr", "cp", "qu"};
      std::string name = KN[op.t];
      if (op.t == Op::READ)
        name = op.how == 0 ? "rn" : op.how == 1 ? "ri" : op.how == 2 ? "rf"
               : "rc" + std::to_string(op.how - 3) + "_";
      name += std::to_string(x.dim) + "_" + std::to_string(op.t == Op::QUERY ? 0 : op.fn);
      cl_kernel k = clCreateKernel(PROG, name.c_str(), &e);
      r.require_cl(e, CL_SUCCESS, "clCreateKernel");
      int a = 0;
      std::vector<cl_mem> mine;
      auto mem = [&](cl_mem m) {
        r.require_cl(clSetKernelArg(k, a++, sizeof m, &m), CL_SUCCESS, "clSetKernelArg");
      };
      auto buf = [&](size_t n, const void *p) {
        cl_mem b = clCreateBuffer(CTX, p ? CL_MEM_COPY_HOST_PTR : 0, n, (void *)p, &e);
        r.require_cl(e, CL_SUCCESS, "clCreateBuffer");
        mem(b);
        return b;
      };
      cl_sampler sm = NULL;
      mem(x.mem);
      if (op.t == Op::READ && (op.how == 1 || op.how == 2))
      {
        if (op.early)
          sm = clCreateSampler(CTX, op.s.norm, op.s.mode, op.s.filt ? CL_FILTER_LINEAR : CL_FILTER_NEAREST, &e);
        else
        {
          cl_sampler_properties sp[] = {CL_SAMPLER_NORMALIZED_COORDS, (cl_sampler_properties)op.s.norm,
                                        CL_SAMPLER_ADDRESSING_MODE, (cl_sampler_properties)op.s.mode,
                                        CL_SAMPLER_FILTER_MODE,
                                        (cl_sampler_properties)(op.s.filt ? CL_FILTER_LINEAR : CL_FILTER_NEAREST), 0};
          sm = clCreateSamplerWithProperties(CTX, sp, &e);
        }
        r.require_cl(e, CL_SUCCESS, "clCreateSampler");
        r.require_cl(clSetKernelArg(k, a++, sizeof sm, &sm), CL_SUCCESS, "clSetKernelArg");
      }
      if (op.t == Op::COPY)
        mem(im[op.b].mem);
      if (op.t != Op::QUERY)
        mine.push_back(op.t == Op::READ && op.how > 1 ? buf(op.cf.size() * 4, op.cf.data())
                                                      : buf(op.ci.size() * 4, op.ci.data()));
      if (op.t == Op::WRITE)
        mine.push_back(buf(op.v.size() * 4, op.v.data()));
      size_t outn = op.t == Op::READ ? op.n * 16 : op.t == Op::QUERY ? 40 : 0;
      if (outn)
      {
        Bytes fill(outn, 0xcd);
        op.out = buf(outn, fill.data());
        op.got.resize(outn / 4);
      }
      cl_kernel kk = k;
      if (op.clone)
      {
        kk = clCloneKernel(k, &e);
        r.require_cl(e, CL_SUCCESS, "clCloneKernel");
        r.require_cl(clReleaseKernel(k), CL_SUCCESS, "clReleaseKernel");
      }
      size_t gs = op.t == Op::QUERY ? 1 : op.n, ls = op.t == Op::QUERY ? 1 : op.ls;
      r.require_cl(clEnqueueNDRangeKernel(cq, kk, 1, NULL, &gs, &ls, nw, wl, NULL), CL_SUCCESS,
                   "clEnqueueNDRangeKernel");
      r.stat(op.t == Op::READ ? (op.s.filt ? "linear_reads" : "reads") : op.t == Op::WRITE ? "writes"
             : op.t == Op::COPY ? "copies" : "queries");
      if (op.reset)
      {
        // the enqueued kernel has got its own arguments
        if (!spare[x.dim])
        {
          cl_image_format f = {CL_RGBA, CL_UNSIGNED_INT8};
          cl_image_desc d;
          memset(&d, 0, sizeof d);
          d.image_type = ITYPE[x.dim];
          d.image_width = 2;
          d.image_height = x.dim >= D2 && x.dim <= D3 ? 2 : 0;
          d.image_depth = x.dim == D3 ? 2 : 0;
          d.image_array_size = x.dim == D1A || x.dim == D2A ? 2 : 0;
          cl_mem b = NULL;
          if (x.dim == D1B)
            d.buffer = b = clCreateBuffer(CTX, 0, 64, NULL, &e);
          spare[x.dim] = clCreateImage(CTX, 0, &f, &d, NULL, &e);
          r.require_cl(e, CL_SUCCESS, "clCreateImage");
          if (b)
            clReleaseMemObject(b);
        }
        r.require_cl(clSetKernelArg(kk, 0, sizeof(cl_mem), &spare[x.dim]), CL_SUCCESS, "clSetKernelArg");
        if (sm)
        {
          cl_sampler s2 = clCreateSampler(CTX, !op.s.norm, CL_ADDRESS_CLAMP, CL_FILTER_NEAREST, &e);
          r.require_cl(clSetKernelArg(kk, 1, sizeof s2, &s2), CL_SUCCESS, "clSetKernelArg");
          clReleaseSampler(s2);
        }
        r.stat("arguments_replaced");
      }
      if (outn)
      {
        r.require_cl(clEnqueueReadBuffer(cq, op.out, CL_FALSE, 0, outn, op.got.data(), 0, NULL, NULL),
                     CL_SUCCESS, "clEnqueueReadBuffer");
        mine.push_back(op.out);
      }
      if (sm)
        r.require_cl(clReleaseSampler(sm), CL_SUCCESS, "clReleaseSampler");
      for (auto m : mine)
        r.require_cl(clReleaseMemObject(m), CL_SUCCESS, "clReleaseMemObject");
      r.require_cl(clReleaseKernel(kk), CL_SUCCESS, "clReleaseKernel");
    }
    else if (op.t == Op::HWRITE)
      r.require_cl(clEnqueueWriteImage(cq, x.mem, CL_FALSE, op.org, op.reg, 0, 0, op.hb.data(), nw, wl, NULL),
                   CL_SUCCESS, "clEnqueueWriteImage");
    else if (op.t == Op::HREAD)
      r.require_cl(clEnqueueReadImage(cq, x.mem, CL_FALSE, op.org, op.reg, 0, 0, op.hb.data(), nw, wl, NULL),
                   CL_SUCCESS, "clEnqueueReadImage");
    else if (op.t == Op::SETU)
      open();
    else
    {
      open();
      r.require_cl(clFinish(cq), CL_SUCCESS, "clFinish");
    }
  }
  // the images themselves; some are released as soon as they are read
  std::vector<Bytes> fin(im.size());
  for (size_t i = 0; i < im.size(); i++)
  {
    Img &x = im[i];
    fin[i].resize(x.data.size());
    int d[3];
    hostdims(x, d);
    size_t z3[3] = {0, 0, 0}, r3[3] = {(size_t)d[0], (size_t)d[1], (size_t)d[2]};
    r.require_cl(clEnqueueReadImage(cq, x.mem, CL_FALSE, z3, r3, 0, 0, fin[i].data(), 0, NULL, NULL),
                 CL_SUCCESS, "clEnqueueReadImage");
    r.require_cl(clReleaseMemObject(x.mem), CL_SUCCESS, "clReleaseMemObject");
  }
  open();
  r.require_cl(clFinish(cq), CL_SUCCESS, "clFinish");
  for (auto m : spare)
    if (m)
      clReleaseMemObject(m);
  clReleaseCommandQueue(cq);
  r.end();
  obs_stop();
  if (g_logs.size())
    r.fail("unexpected-message", "diagnostic on a correct program: %.600s", g_logs[0].c_str());
  for (size_t i = 0; i < ops.size(); i++)
  {
    Op &op = ops[i];
    Img &x = im[op.a];
    if (op.t == Op::READ)
    {
      for (int k = 0; k < op.n * 4; k++)
      {
        Comp g;
        g.u = op.got[k];
        Comp w = op.want[k];
        bool same = g.u == w.u;
        if (!same && x.klass == NORM)
          same = fabs((double)g.f - w.f) <= op.tol[k / 4];
        if (!same)
          r.fail("image-read",
                 "operation %zu: work-item %d component %d is 0x%x (%g), reference 0x%x (%g); "
                 "coordinates (%g, %g, %g) / (%d, %d, %d)",
                 i, k / 4, k % 4, g.u, x.klass == NORM ? g.f : (double)g.i, w.u,
                 x.klass == NORM ? w.f : (double)w.i, op.cf[k & ~3], op.cf[(k & ~3) + 1],
                 op.cf[(k & ~3) + 2], op.ci[k & ~3], op.ci[(k & ~3) + 1], op.ci[(k & ~3) + 2]);
      }
    }
    else if (op.t == Op::HREAD)
    {
      for (size_t k = 0; k < op.hb.size(); k++)
        if (op.hb[k] != op.hwant[k])
          r.fail("image-data", "operation %zu: byte %zu read by the host is 0x%x, reference 0x%x", i, k,
                 op.hb[k], op.hwant[k]);
    }
    else if (op.t == Op::QUERY)
    {
      std::vector<uint32_t> w(10, 0xcdcdcdcd);
      w[0] = x.w;
      w[1] = x.type;
      w[2] = x.order;
      if (x.dim >= D2 && x.dim <= D3)
        w[3] = x.h, w[6] = x.w, w[7] = x.h;
      if (x.dim == D1A || x.dim == D2A)
        w[4] = x.layers;
      if (x.dim == D3)
        w[5] = x.d, w[8] = x.d, w[9] = 0;
      for (int k = 0; k < 10; k++)
        if (op.got[k] != w[k])
          r.fail("image-query", "operation %zu: value %d of the query kernel is %u, reference %u", i, k,
                 op.got[k], w[k]);
    }
  }
  for (size_t i = 0; i < im.size(); i++)
    for (size_t k = 0; k < fin[i].size(); k++)
      if (fin[i][k] != im[i].data[k])
        r.fail("image-data", "image %zu byte %zu is 0x%x, reference 0x%x", i, k, fin[i][k], im[i].data[k]);
}
static RegWorkload reg("image", setup, run);
} // namespace
