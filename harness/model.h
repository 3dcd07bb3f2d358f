// Reference executor for kernel programs made of KI operations.
#pragma once
#include "kern.h"

struct GroupModel
{
  std::vector<uint32_t> L;
  std::vector<uint64_t> L8;
};

// Runs program p on state st with a bulk-synchronous reference semantics that
// is exact for race-free programs.  divergent[g] is set when the items of
// group g do not all reach the same barrier in the same round.
struct Model
{
  const NDR &n;
  const KProg &p;
  KState &st;
  std::vector<bool> divergent;
  uint64_t barriers = 0, copies = 0;
  Model(const NDR &n, const KProg &p, KState &st);
  void run();

private:
  void run_group(size_t g);
};

// Race-free random program generation. Elements are offered to r.keep().
struct GenOpts
{
  int max_items = 24, max_groups = 8;
  bool nonuniform = true, offset = true;
  bool shared_atomics = true;
  bool async = true;
  int max_phases = 4, max_ops = 6;
  bool print = false;
};
struct GenState
{
  NDR n;
  KProg p;
  KState st;
};
static const int GPRIV = 6;  // private global cells per group
static const int GRO = 6;    // read-only cells
static const int GAT = 6;    // shared atomic cells
static const int G8N = 4;
void gen_init(Run &r, Rnd &q, const GenOpts &o, GenState &s);
void gen_group(Run &r, Rnd &q, const GenOpts &o, GenState &s, size_t g);
void describe(Run &r, const GenState &s);
std::vector<std::string> split_lines(const std::string &s);
