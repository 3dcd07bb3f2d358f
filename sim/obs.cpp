// Observation plugin: forwards Oclgrind's public plugin callbacks to the
// harness.  Compiled against the headers in /repo/src.
#include "core/common.h"
#include "core/Context.h"
#include "core/Kernel.h"
#include "core/KernelInvocation.h"
#include "core/Memory.h"
#include "core/Plugin.h"
#include "core/WorkGroup.h"
#include "core/WorkItem.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include <stack>

using namespace oclgrind;

extern "C"
{
  struct obs_hooks_t
  {
    uint32_t mask;
    int threadsafe;
    void (*fn)(int kind, const size_t *id, uint64_t a, uint64_t b, uint64_t c,
               const char *text);
  };
  extern obs_hooks_t obs_hooks;
}
enum ObsKind
{
  OB_KERNEL_BEGIN, OB_KERNEL_END, OB_WG_BEGIN, OB_WG_COMPLETE, OB_WG_BARRIER,
  OB_WI_BEGIN, OB_WI_COMPLETE, OB_LOG, OB_INST, OB_LOAD, OB_STORE, OB_ALOAD,
  OB_ASTORE, OB_HLOAD, OB_HSTORE, OB_ALLOC, OB_FREE, OB_MAP, OB_UNMAP, OB_STEP
};
#define ON(k) (obs_hooks.mask & (1u << (k)))

class Obs : public Plugin
{
  static void send(int k, const Size3 *s, uint64_t a, uint64_t b, uint64_t c,
                   const char *t = NULL)
  {
    size_t id[3] = {0, 0, 0};
    if (s)
    {
      id[0] = s->x;
      id[1] = s->y;
      id[2] = s->z;
    }
    obs_hooks.fn(k, id, a, b, c, t);
  }

public:
  Obs(const Context *c) : Plugin(c) {}
  void kernelBegin(const KernelInvocation *ki) override
  {
    if (ON(OB_KERNEL_BEGIN))
      send(OB_KERNEL_BEGIN, NULL, (uint64_t)m_context, 0, 0);
  }
  void kernelEnd(const KernelInvocation *ki) override
  {
    if (ON(OB_KERNEL_END))
      send(OB_KERNEL_END, NULL, (uint64_t)m_context, 0, 0);
  }
  void workGroupBegin(const WorkGroup *g) override
  {
    if (ON(OB_WG_BEGIN))
    {
      Size3 id = g->getGroupID();
      send(OB_WG_BEGIN, &id, (uint64_t)m_context, g->getGroupIndex(), 0);
    }
  }
  void workGroupComplete(const WorkGroup *g) override
  {
    if (ON(OB_WG_COMPLETE))
    {
      Size3 id = g->getGroupID();
      send(OB_WG_COMPLETE, &id, (uint64_t)m_context, 0, 0);
    }
  }
  void workGroupBarrier(const WorkGroup *g, uint32_t flags) override
  {
    if (ON(OB_WG_BARRIER))
    {
      Size3 id = g->getGroupID();
      send(OB_WG_BARRIER, &id, (uint64_t)m_context, flags, 0);
    }
  }
  void workItemBegin(const WorkItem *w) override
  {
    if (ON(OB_WI_BEGIN))
    {
      Size3 id = w->getGlobalID();
      send(OB_WI_BEGIN, &id, (uint64_t)m_context, w->getGlobalIndex(), 0);
    }
  }
  void workItemComplete(const WorkItem *w) override
  {
    if (ON(OB_WI_COMPLETE))
    {
      Size3 id = w->getGlobalID();
      send(OB_WI_COMPLETE, &id, (uint64_t)m_context, 0, 0);
    }
  }
  void log(MessageType type, const char *message) override
  {
    if (ON(OB_LOG))
      send(OB_LOG, NULL, type, 0, 0, message);
  }
  void instructionExecuted(const WorkItem *w, const llvm::Instruction *i,
                           const TypedValue &) override
  {
    if (ON(OB_INST))
    {
      Size3 id = w->getGlobalID();
      send(OB_INST, &id, (uint64_t)m_context, (uint64_t)i, 0);
    }
    if (ON(OB_STEP))
      step(w);
  }
  // where a work-item is in the source code: line, depth of calls, state, function
  void step(const WorkItem *w)
  {
    Size3 id = w->getGlobalID();
    uint64_t state = w->getState() == WorkItem::FINISHED ? 2 : w->getState() == WorkItem::BARRIER;
    const llvm::Instruction *i = w->getCurrentInstruction();
    std::stack<const llvm::Instruction *> calls = w->getCallStack();
    uint64_t depth = calls.size() - (!calls.empty() && calls.top() == i), line = 0;
    if (state != 2)
      if (auto *md = llvm::dyn_cast_or_null<llvm::DILocation>(i->getMetadata("dbg")))
        line = md->getLine();
    send(OB_STEP, &id, (uint64_t)m_context, line | depth << 32, state,
         state == 2 ? "" : i->getFunction()->getName().str().c_str());
  }
#define MEMCB(name, K)                                                         \
  void name(const Memory *m, const WorkItem *w, size_t a, size_t n) override   \
  {                                                                            \
    if (ON(K))                                                                 \
    {                                                                          \
      Size3 id = w->getGlobalID();                                             \
      send(K, &id, m->getAddressSpace(), a, n);                                \
    }                                                                          \
  }
  using Plugin::memoryLoad;
  using Plugin::memoryStore;
  MEMCB(memoryLoad, OB_LOAD)
  void memoryStore(const Memory *m, const WorkItem *w, size_t a, size_t n,
                   const uint8_t *) override
  {
    if (ON(OB_STORE))
    {
      Size3 id = w->getGlobalID();
      send(OB_STORE, &id, m->getAddressSpace(), a, n);
    }
  }
  void memoryAllocated(const Memory *m, size_t a, size_t n, cl_mem_flags f,
                       const uint8_t *) override
  {
    if (ON(OB_ALLOC) && m->getAddressSpace() == AddrSpaceGlobal)
      send(OB_ALLOC, NULL, a, n, f);
  }
  void memoryDeallocated(const Memory *m, size_t a) override
  {
    if (ON(OB_FREE) && m->getAddressSpace() == AddrSpaceGlobal)
      send(OB_FREE, NULL, a, 0, 0);
  }
  void memoryMap(const Memory *m, size_t a, size_t o, size_t n,
                 cl_map_flags f) override
  {
    if (ON(OB_MAP))
      send(OB_MAP, NULL, a, o, n);
  }
  void memoryUnmap(const Memory *m, size_t a, const void *p) override
  {
    if (ON(OB_UNMAP))
      send(OB_UNMAP, NULL, a, (uint64_t)p, 0);
  }
  bool isThreadSafe() const override { return obs_hooks.threadsafe; }
};

static std::map<Context *, Obs *> *plugins()
{
  static std::map<Context *, Obs *> m;
  return &m;
}
extern "C" void initializePlugins(Context *c)
{
  Obs *o = new Obs(c);
  (*plugins())[c] = o;
  c->registerPlugin(o);
}
extern "C" void releasePlugins(Context *c)
{
  auto it = plugins()->find(c);
  if (it == plugins()->end())
    return;
  c->unregisterPlugin(it->second);
  delete it->second;
  plugins()->erase(it);
}

#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
// Name of an instruction in the terms of the instruction count report, worked
// out independently of the plugin under test.
static const char *inst_name(uint64_t p, uint64_t *bytes)
{
  static std::string s;
  const llvm::Instruction *i = (const llvm::Instruction *)p;
  static const char *as[] = {"private", "global", "constant", "local"};
  *bytes = 0;
  if (auto *l = llvm::dyn_cast<llvm::LoadInst>(i))
  {
    unsigned a = l->getPointerAddressSpace();
    s = std::string("load ") + (a < 4 ? as[a] : "(unknown)");
    *bytes = getTypeSize(l->getType());
  }
  else if (auto *st = llvm::dyn_cast<llvm::StoreInst>(i))
  {
    unsigned a = st->getPointerAddressSpace();
    s = std::string("store ") + (a < 4 ? as[a] : "(unknown)");
    *bytes = getTypeSize(st->getValueOperand()->getType());
  }
  else
  {
    s = llvm::Instruction::getOpcodeName(i->getOpcode());
    if (auto *c = llvm::dyn_cast<llvm::CallInst>(i))
      if (c->getCalledFunction())
        s = "call " + c->getCalledFunction()->getName().str() + "()";
  }
  return s.c_str();
}
extern "C" const char *(*obs_inst_name_fn)(uint64_t, uint64_t *);
static int obs_register = (obs_inst_name_fn = inst_name, 0);
