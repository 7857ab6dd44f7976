// Symbolic executor for LLVM IR.
#pragma once
#include "expr.h"
#include "solver.h"
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>

struct Val {
  uint64_t c = 0;
  E e = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  explicit Val(uint64_t v) : c(v) {}
  bool conc() const { return !e && !agg; }
};
inline Val VE(E e) { Val v; if (e->k == K::Const && e->w <= 64) v.c = e->imm; else v.e = e; return v; }
inline E toE(const Val &v, uint32_t w) { return v.e ? v.e : mkConst(v.c, w); }

struct SB { E e; uint32_t idx; };
enum ObjKind : uint8_t { OK_Global, OK_Heap, OK_Stack, OK_Func, OK_Extern, OK_Freed };
struct MemObj {
  uint64_t size = 0;
  std::vector<uint8_t> b;
  std::vector<SB> s;      // empty, or one per byte (e == null: concrete)
  ObjKind kind = OK_Heap;
  uint8_t allocKind = 0;  // 1 malloc, 2 new, 3 new[]
  bool ro = false;
  bool lazyFill = false;
  const llvm::Value *site = nullptr;
};
typedef std::shared_ptr<MemObj> ObjP;
struct Chunk { ObjP o[64]; };
struct ObjTable {
  std::vector<std::shared_ptr<Chunk>> ch;
  uint32_t n = 1;
  uint32_t add(ObjP p) {
    uint32_t id = n++;
    if ((id >> 6) >= ch.size()) ch.push_back(std::make_shared<Chunk>());
    set(id, std::move(p)); return id;
  }
  MemObj *rd(uint32_t id) const { if (id == 0 || id >= n) return nullptr; return ch[id >> 6]->o[id & 63].get(); }
  void set(uint32_t id, ObjP p) {
    auto &c = ch[id >> 6];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    c->o[id & 63] = std::move(p);
  }
  MemObj *wr(uint32_t id) {
    auto &c = ch[id >> 6];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    ObjP &p = c->o[id & 63];
    if (p.use_count() > 1) p = std::make_shared<MemObj>(*p);
    return p.get();
  }
};

struct Executor;
struct State;
struct DI;
typedef void (*Handler)(Executor &, State &, DI &);

struct DI { // decoded instruction
  unsigned op = 0;
  const llvm::Instruction *I = nullptr;
  int dst = -1;
  uint32_t w = 0, sw = 0; // result / source width
  std::vector<int> ops;
  // gep
  int64_t gepOff = 0; std::vector<std::pair<int, uint64_t>> gepVar; std::vector<uint32_t> gepW;
  // br/switch/phi
  std::vector<int> blocks;
  std::vector<uint64_t> caseVals;
  llvm::Function *callee = nullptr;
  struct FnInfo *calleeInfo = nullptr;
  Handler h = nullptr;
  bool executed = false;
  unsigned pred = 0;
  uint64_t size = 0; bool simple = true; // load/store of scalar
  uint32_t lastFork = 0;
};
struct FnInfo {
  llvm::Function *F = nullptr;
  std::vector<DI> code;
  std::vector<int> blockStart; // block idx -> code idx
  int nslots = 0, nargs = 0;
  std::vector<Val> consts;
  bool entered = false;
};

struct Frame {
  FnInfo *f; int pc = 0; int block = 0, prev = -1;
  std::vector<Val> r;
  std::vector<uint32_t> allocas;
  bool discardRet = false;      // frame pushed by the engine itself
  std::vector<Val> varargs; 
};

struct ExcObj { uint64_t obj; uint64_t type; uint64_t dtor; int handlers; uint64_t adjusted; };
struct Thread {
  std::vector<Frame> st;
  int status = 0; // 0 runnable 1 blocked on mutex 2 blocked on join 3 done 4 blocked on cond
  uint64_t waitOn = 0;
  bool schedDone = false;
  std::vector<uint32_t> vc; int rs = 0; // vector clock indexed by rs: slots restart whenever a single thread is left
  std::vector<uint64_t> caught;
};

// happens-before race detection: one cell per byte of an object accessed while several threads exist
typedef std::vector<uint32_t> VC;
inline void vcJoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
struct Cell { uint32_t w = 0, r[4] = {0, 0, 0, 0}; uint32_t ws = 0, rs[4] = {0, 0, 0, 0}; }; // epochs: (tid << 24 | clock) for writes, clocks for reads; site numbers
struct Shadow { std::vector<Cell> c; };
struct State {
  std::unordered_map<uint32_t, std::shared_ptr<Shadow>> shadow;
  std::map<uint64_t, VC> sync; bool solo = true; int slots = 1;
  ObjTable mem;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<E> pc;
  std::unordered_map<uint32_t, uint64_t> known;
  std::shared_ptr<Model> model;
  std::map<uint64_t, ExcObj> exc;
  std::vector<uint64_t> inflight;
  std::vector<std::pair<std::string, Val>> inputs; // name, value with width in widths
  std::vector<uint32_t> inputW;
  std::vector<int> schedule;
  int preempt = 0;
  uint64_t steps = 0;
  uint32_t forks = 0;
  std::vector<std::string> notes;
  std::map<std::string, uint64_t> kv;
  Frame &top() { return th[cur].st.back(); }
};
typedef std::unique_ptr<State> StateP;

struct Violation { std::string kind, label, where; std::vector<std::pair<std::string, std::pair<uint32_t, uint64_t>>> inputs; std::vector<int> schedule; };

struct PathEnd {};   // thrown to terminate the current path
struct Retry {};     // thrown to re-execute the current instruction (after scheduling away)

struct Executor {
  llvm::Module *M; const llvm::DataLayout *DL;
  std::unordered_map<const llvm::Function *, std::unique_ptr<FnInfo>> fns;
  std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr;
  std::unordered_map<uint32_t, const llvm::GlobalValue *> gobj;
  std::unordered_map<uint64_t, int> tiIndex; // typeinfo address -> selector
  std::vector<StateP> work;
  std::vector<Violation> violations, samples; uint64_t completed = 0;
  std::map<std::string, int> violCount;
  std::map<std::string, uint64_t> reached, incomplete;
  std::set<std::string> asserts, asserted;
  uint64_t instrs = 0, paths = 0, forks = 0, assertQ = 0, memChecks = 0, maxStepsPath = 0, threadsMax = 1, schedPoints = 0;
  uint64_t limitSteps = 200000000; double limitTime = 600; uint64_t limitPaths = 1000000; int preemptBound = 2;
  unsigned maxConc = 64, roundSplit = 0; int maxViol = 3; uint64_t pathSteps = 50000000;
  bool checkMem = true; bool traceCalls = false; bool onlyFirst = false; bool leakCheck = false;
  std::vector<uint64_t> samplesDone;
  double t0 = 0;
  std::map<const llvm::Instruction*, uint64_t> forkSites;

  Executor(llvm::Module *m);
  FnInfo *info(llvm::Function *F);
  void initGlobals(State &);
  Val constVal(const llvm::Constant *C);
  void storeConst(State &, uint64_t addr, const llvm::Constant *C);
  uint64_t alloc(State &, uint64_t size, ObjKind k, uint8_t fill, const llvm::Value *site, uint8_t ak = 0);
  void run(llvm::Function *entry);
  bool step(State &);         // one instruction; may throw PathEnd
  void exec(State &, DI &);
  void pushCall(State &, llvm::Function *F, const std::vector<Val> &args, bool discard);
  void doCall(State &, DI &);
  void doRet(State &, const Val *);
  void jump(State &, int block);
  // memory
  Val load(State &, const Val &p, llvm::Type *T, uint64_t size, uint32_t w);
  void store(State &, const Val &p, const Val &v, llvm::Type *T, uint64_t size, uint32_t w);
  Val loadRaw(State &, const Val &p, uint64_t n);
  void storeRaw(State &, const Val &p, const Val &v, uint64_t n);
  Val readObj(MemObj *o, uint64_t off, uint64_t n);
  void writeObj(MemObj *o, uint64_t off, const Val &v, uint64_t n);
  struct Alt { E guard; uint32_t obj; E off; uint64_t coff; bool symOff; };
  void resolve(State &, const Val &p, uint64_t n, bool wr, std::vector<Alt> &out);
  bool alignedUse(State &s, MemObj *o, uint64_t off, uint64_t n, bool wr);
  // symbolic decisions
  bool evalCond(State &, E c);
  bool mayBeTrue(State &, E c, std::shared_ptr<Model> *m);
  void addC(State &, E c);
  uint64_t concretize(State &, const Val &v, uint32_t w, const char *what);
  bool splitRound(State &, E x, int mode, double &out);
  uint64_t modelValue(State &, E e);
  StateP fork(State &);
  // reports
  void violation(State &, const std::string &kind, const std::string &label, E cond /*null: PC itself*/);
  void samplePath(State &);
  [[noreturn]] void memError(State &, const std::string &msg, E cond);
  [[noreturn]] void giveUp(State &, const std::string &why);
  std::string where(State &, int maxd = 6);
  // exceptions
  void throwExc(State &, uint64_t obj);
  bool catchMatches(State &, uint64_t catchTi, uint64_t thrownTi, uint64_t &adj);
  bool baseOf(State &, uint64_t ti, uint64_t target, int64_t &off, uint64_t obj, int depth = 0);
  std::string gname(uint64_t addr);
  // threads
  bool races = false; uint64_t raceChecks = 0; std::vector<const llvm::Instruction *> sites{nullptr}; std::unordered_map<const llvm::Instruction *, uint32_t> siteNo;
  void access(State &, const Val &p, uint64_t n, bool wr, const llvm::Instruction *I);
  void acquire(State &, uint64_t a); void release(State &, uint64_t a);
  void schedPoint(State &);
  bool switchAway(State &);   // current thread cannot run; pick another (forks)
  Val &setDst(State &s, DI &d);
  const Val &opv(State &s, int i) { Frame &f = s.top(); return i >= 0 ? f.r[i] : f.f->consts[-1 - i]; }
  std::string readStr(State &, const Val &p);
  uint64_t argC(State &s, DI &d, int i, const char *what);
};
void registerHandlers(std::unordered_map<std::string, Handler> &);
Handler findHandler(const std::string &name);
extern int g_stopRequested;
