// Op-interpreting kernel: random per-work-item programs are data, so one
// compiled kernel serves every simulated run and programs can be shrunk.
#pragma once
#include "h.h"
#include <cstddef>

enum KOp : uint32_t
{
  K_END = 0,
  K_LDG, K_STG, K_LDL, K_STL, K_IMM, K_MIX, K_PST, K_PLD, K_KT, K_CALL, K_VEC,
  K_BARL, K_BARG, K_BARLG, K_BARX,
  // 32-bit global atomics: r[d] = op(&G[a], b)
  K_GA_ADD = 20, K_GA_SUB, K_GA_INC, K_GA_DEC, K_GA_XCHG, K_GA_CAS, K_GA_MIN,
  K_GA_MAX, K_GA_AND, K_GA_OR, K_GA_XOR, K_GA_IMIN, K_GA_IMAX,
  // 32-bit local atomics
  K_LA_ADD = 40, K_LA_SUB, K_LA_INC, K_LA_DEC, K_LA_XCHG, K_LA_CAS, K_LA_MIN,
  K_LA_MAX, K_LA_AND, K_LA_OR, K_LA_XOR,
  // 64-bit global atomics on G8
  K_G8_ADD = 60, K_G8_XCHG, K_G8_CAS, K_G8_MAX, K_G8_INC,
  // async copies: d = event slot, a = dst | src << 16, b = n | stride << 16
  K_AS_GL = 70, K_AS_LG, K_ASS_GL, K_ASS_LG, K_WAIT1, K_WAIT2,
  K_AS_GL_CHAIN,
  K_PRINT = 80, K_PRINT2, K_PRINTV, K_PRINTS,
  K_OUTR = 90, K_IDS,
  K_FATAL = 95
};
struct KI
{
  uint32_t op, d, a, b;
};
static const int KREG = 8; // registers
static const int KPRIV = 8;

struct NDR
{
  int dims = 1;
  size_t off[3] = {0, 0, 0}, gs[3] = {1, 1, 1}, ls[3] = {1, 1, 1};
  size_t ng[3] = {1, 1, 1};
  bool uniform = true;
  size_t groups() const { return ng[0] * ng[1] * ng[2]; }
  size_t items() const { return gs[0] * gs[1] * gs[2]; }
  // items of group g (linear) as global linear indices, in local order
  std::vector<int> group_items(size_t g) const;
  void group_id(size_t g, size_t *id) const;
  void group_size(size_t g, size_t *sz) const;
};
NDR gen_ndr(Rnd &q, int max_items, int max_groups, bool allow_nonuniform,
            bool allow_offset);

// One simulated device: context with the kernel built for CL1.2 and CL2.0
struct KDev
{
  cl_context ctx;
  cl_program p12, p20;
};
KDev kdev_setup();
extern const char *KERN_SRC;

struct KProg
{
  std::vector<std::vector<KI>> items; // per global linear index
};
struct KState
{
  std::vector<uint32_t> G;
  std::vector<uint64_t> G8;
  std::vector<uint32_t> out; // KREG per item
  std::vector<uint32_t> outr; // OUTN slots per item (K_OUTR)
};
static const int OUTN = 12;
static const int LCELLS = 24;
static const int L8CELLS = 4;

// Runs the program through the OpenCL API inside the simulation window.
// Returns false if the kernel could not be enqueued.
void kern_exec(Run &r, KDev &dev, const NDR &n, const KProg &p, KState &st,
               cl_event *evout = NULL);
std::string kop_str(const KI &i);
uint32_t khelper(uint32_t x, uint32_t n);
extern const uint32_t KTAB[8];
void krun_begin(Run &r, int workers);
