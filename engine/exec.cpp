#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
using namespace llvm;
int g_stopRequested = 0;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static const uint64_t BASE = 0x10000;
static inline uint64_t objAddr(uint32_t id) { return ((uint64_t)id << 32) + BASE; }
static inline uint32_t addrObj(uint64_t a) { return (uint32_t)(a >> 32); }
static inline uint64_t addrOff(uint64_t a) { return (a & 0xffffffffull) - BASE; }

static uint32_t tw(Type *T, const DataLayout *DL) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  if (T->isHalfTy()) return 16;
  return 0; // aggregate / vector / void / unsupported
}

Executor::Executor(Module *m) : M(m), DL(&m->getDataLayout()) { t0 = nowS(); }

std::string Executor::gname(uint64_t addr) {
  auto it = gobj.find(addrObj(addr));
  return it == gobj.end() ? "" : it->second->getName().str();
}

uint64_t Executor::alloc(State &s, uint64_t size, ObjKind k, uint8_t fill, const Value *site, uint8_t ak) {
  if (size > (1ull << 28)) giveUp(s, "allocation larger than 256 MB");
  auto o = std::make_shared<MemObj>();
  o->size = size; o->b.assign(size, fill); o->kind = k; o->allocKind = ak; o->site = site;
  return objAddr(s.mem.add(std::move(o)));
}

// ---------- constants ----------
static Val zeroVal(Type *T) {
  Val v;
  if (auto *ST = dyn_cast<StructType>(T)) { v.agg = std::make_shared<std::vector<Val>>(); for (auto *e : ST->elements()) v.agg->push_back(zeroVal(e)); }
  else if (auto *AT = dyn_cast<ArrayType>(T)) { Val z = zeroVal(AT->getElementType()); v.agg = std::make_shared<std::vector<Val>>(AT->getNumElements(), z); }
  else if (auto *VT = dyn_cast<FixedVectorType>(T)) { Val z = zeroVal(VT->getElementType()); v.agg = std::make_shared<std::vector<Val>>(VT->getNumElements(), z); }
  else if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) v.e = mkConst(0, T->getIntegerBitWidth());
  return v;
}
static E apE(const APInt &a) {
  unsigned w = a.getBitWidth();
  if (w <= 64) return mkConst(a.getZExtValue(), w);
  E r = nullptr;
  for (unsigned o = 0; o < w; o += 64) { unsigned n = std::min(64u, w - o); E p = mkConst(a.extractBitsAsZExtValue(n, o), n); r = r ? mkConcat(p, r) : p; }
  return r;
}
Val Executor::constVal(const Constant *C) {
  Type *T = C->getType();
  if (auto *CI = dyn_cast<ConstantInt>(C)) return VE(apE(CI->getValue()));
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    if (T->isX86_FP80Ty() || T->isFP128Ty()) { bool lost; APFloat f = CF->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost); return Val(f.bitcastToAPInt().getZExtValue()); }
    return VE(apE(CF->getValueAPF().bitcastToAPInt())); }
  if (isa<ConstantPointerNull>(C)) return Val(0);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroVal(T);
  if (auto *GV = dyn_cast<GlobalValue>(C)) {
    if (auto *GA = dyn_cast<GlobalAlias>(GV)) return constVal(GA->getAliasee());
    auto it = gaddr.find(GV);
    if (it == gaddr.end()) { errs() << "no address for global " << GV->getName() << "\n"; return Val(0); }
    return Val(it->second);
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < CA->getNumOperands(); i++) v.agg->push_back(constVal(CA->getOperand(i))); return v; }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < CD->getNumElements(); i++) v.agg->push_back(constVal(CD->getElementAsConstant(i))); return v; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      Val v = constVal(CE->getOperand(0)); uint32_t w = tw(T, DL); if (w && w < 64 && v.conc()) v.c &= maskw(w); return v; }
    case Instruction::Trunc: { Val v = constVal(CE->getOperand(0)); v.c &= maskw(tw(T, DL)); return v; }
    case Instruction::GetElementPtr: {
      Val b = constVal(CE->getOperand(0)); APInt off(64, 0);
      if (cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) return Val(b.c + off.getZExtValue());
      break; }
    case Instruction::Add: return Val((constVal(CE->getOperand(0)).c + constVal(CE->getOperand(1)).c) & maskw(tw(T, DL)));
    case Instruction::Sub: return Val((constVal(CE->getOperand(0)).c - constVal(CE->getOperand(1)).c) & maskw(tw(T, DL)));
    case Instruction::ICmp: { uint64_t a = constVal(CE->getOperand(0)).c, b = constVal(CE->getOperand(1)).c;
      switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return Val(a == b); case CmpInst::ICMP_NE: return Val(a != b); case CmpInst::ICMP_ULT: return Val(a < b); case CmpInst::ICMP_UGT: return Val(a > b); default: break; } break; }
    default: break;
    }
  }
  errs() << "unhandled constant: " << *C << "\n";
  return zeroVal(T);
}

void Executor::writeObj(MemObj *o, uint64_t off, const Val &v, uint64_t n) {
  if (v.e) {
    if (o->s.empty()) o->s.resize(o->size, SB{nullptr, 0});
    E e = v.e;
    if (e->w < n * 8) e = mkZExt(e, n * 8);
    for (uint64_t i = 0; i < n; i++) o->s[off + i] = SB{e, (uint32_t)i};
  } else {
    uint64_t c = v.c;
    if (n <= 8) memcpy(&o->b[off], &c, n);
    else { memcpy(&o->b[off], &c, 8); memset(&o->b[off + 8], 0, n - 8); }
    if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[off + i].e = nullptr;
  }
}
Val Executor::readObj(MemObj *o, uint64_t off, uint64_t n) {
  if (o->s.empty() ) {
    if (n <= 8) { uint64_t c = 0; memcpy(&c, &o->b[off], n); return Val(c); }
  } else {
    SB *p = &o->s[off];
    if (p[0].e && p[0].idx == 0 && p[0].e->w == n * 8) {
      bool same = true;
      for (uint64_t i = 1; i < n; i++) if (p[i].e != p[0].e || p[i].idx != i) { same = false; break; }
      if (same) return VE(p[0].e);
    }
    bool anyS = false; for (uint64_t i = 0; i < n; i++) if (p[i].e) anyS = true;
    if (!anyS && n <= 8) { uint64_t c = 0; memcpy(&c, &o->b[off], n); return Val(c); }
  }
  // general: assemble runs, most significant first
  E r = nullptr;
  uint64_t i = 0;
  while (i < n) {
    E piece;
    if (!o->s.empty() && o->s[off + i].e) {
      E src = o->s[off + i].e; uint32_t st = o->s[off + i].idx; uint64_t j = i + 1;
      while (j < n && o->s[off + j].e == src && o->s[off + j].idx == st + (j - i)) j++;
      piece = mkExtract(src, st * 8, (j - i) * 8); i = j;
    } else {
      uint64_t j = i; uint64_t c = 0; unsigned sh = 0;
      while (j < n && (o->s.empty() || !o->s[off + j].e) && j - i < 8) { c |= (uint64_t)o->b[off + j] << sh; sh += 8; j++; }
      piece = mkConst(c, sh); i = j;
    }
    r = r ? mkConcat(piece, r) : piece;
  }
  return VE(r);
}

void Executor::storeConst(State &s, uint64_t addr, const Constant *C) {
  Type *T = C->getType();
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return;
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    MemObj *o = s.mem.wr(addrObj(addr)); StringRef d = CD->getRawDataValues(); memcpy(&o->b[addrOff(addr)], d.data(), d.size()); return; }
  if (isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
    uint64_t es = DL->getTypeAllocSize(C->getOperand(0)->getType());
    for (unsigned i = 0; i < C->getNumOperands(); i++) storeConst(s, addr + i * es, cast<Constant>(C->getOperand(i))); return; }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    auto *SL = DL->getStructLayout(CS->getType());
    for (unsigned i = 0; i < C->getNumOperands(); i++) storeConst(s, addr + SL->getElementOffset(i), cast<Constant>(C->getOperand(i))); return; }
  Val v = constVal(C);
  writeObj(s.mem.wr(addrObj(addr)), addrOff(addr), v, DL->getTypeStoreSize(T));
}

void Executor::initGlobals(State &s) {
  for (auto &F : *M) {
    auto o = std::make_shared<MemObj>(); o->size = 16; o->b.assign(16, 0); o->kind = OK_Func; o->ro = true;
    uint32_t id = s.mem.add(o); gaddr[&F] = objAddr(id); gobj[id] = &F;
  }
  for (auto &G : M->globals()) {
    uint64_t size; ObjKind k = OK_Global;
    if (G.isDeclaration()) { size = std::max<uint64_t>(4096, G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0); k = OK_Extern; }
    else size = DL->getTypeAllocSize(G.getValueType());
    auto o = std::make_shared<MemObj>(); o->size = size; o->b.assign(size, 0); o->kind = k;
    uint32_t id = s.mem.add(o); gaddr[&G] = objAddr(id); gobj[id] = &G;
  }
  for (auto &A : M->aliases()) { Val v = constVal(A.getAliasee()); gaddr[&A] = v.c; }
  for (auto &G : M->globals()) if (!G.isDeclaration()) {
    storeConst(s, gaddr[&G], G.getInitializer());
    if (G.isConstant()) s.mem.wr(addrObj(gaddr[&G]))->ro = true;
  }
}

// ---------- decoding ----------
FnInfo *Executor::info(Function *F) {
  auto &p = fns[F];
  if (p) return p.get();
  p = std::make_unique<FnInfo>();
  FnInfo *fi = p.get(); fi->F = F;
  if (F->isDeclaration()) return fi;
  std::unordered_map<const Value *, int> slot;
  std::unordered_map<const BasicBlock *, int> bidx;
  int n = 0;
  for (auto &A : F->args()) slot[&A] = n++;
  fi->nargs = n;
  int bi = 0;
  for (auto &B : *F) { bidx[&B] = bi++; for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  fi->nslots = n;
  std::unordered_map<const Value *, int> cidx;
  auto opnd = [&](const Value *V) -> int {
    auto it = slot.find(V);
    if (it != slot.end()) return it->second;
    auto c = cidx.find(V);
    if (c != cidx.end()) return c->second;
    int r = -1 - (int)fi->consts.size();
    if (auto *C = dyn_cast<Constant>(V)) fi->consts.push_back(constVal(C));
    else fi->consts.push_back(Val(0)); // metadata, inline asm, ...
    return cidx[V] = r;
  };
  for (auto &B : *F) {
    fi->blockStart.push_back(fi->code.size());
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      fi->code.emplace_back();
      DI &d = fi->code.back();
      d.op = I.getOpcode(); d.I = &I;
      if (!I.getType()->isVoidTy()) { d.dst = slot[&I]; d.w = tw(I.getType(), DL); }
      switch (I.getOpcode()) {
      case Instruction::GetElementPtr: {
        auto *G = cast<GEPOperator>(&I);
        d.ops.push_back(opnd(G->getPointerOperand()));
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (auto *ST = gi.getStructTypeOrNull()) d.gepOff += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *CI = dyn_cast<ConstantInt>(ix)) d.gepOff += (int64_t)sz * CI->getSExtValue();
            else { d.gepVar.push_back({opnd(ix), sz}); d.gepW.push_back(tw(ix->getType(), DL)); }
          }
        }
        if (I.getType()->isVectorTy()) d.simple = false;
        break; }
      case Instruction::Br: {
        auto *B2 = cast<BranchInst>(&I);
        if (B2->isConditional()) d.ops.push_back(opnd(B2->getCondition()));
        for (unsigned i = 0; i < B2->getNumSuccessors(); i++) d.blocks.push_back(bidx[B2->getSuccessor(i)]);
        break; }
      case Instruction::Switch: {
        auto *S = cast<SwitchInst>(&I);
        d.ops.push_back(opnd(S->getCondition())); d.sw = tw(S->getCondition()->getType(), DL);
        d.blocks.push_back(bidx[S->getDefaultDest()]);
        for (auto &c : S->cases()) { d.caseVals.push_back(c.getCaseValue()->getZExtValue()); d.blocks.push_back(bidx[c.getCaseSuccessor()]); }
        break; }
      case Instruction::PHI: {
        auto *P = cast<PHINode>(&I);
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { d.ops.push_back(opnd(P->getIncomingValue(i))); d.blocks.push_back(bidx[P->getIncomingBlock(i)]); }
        break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto *CB = cast<CallBase>(&I);
        for (auto &a : CB->args()) d.ops.push_back(opnd(a.get()));
        d.callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
        if (!d.callee) if (auto *GA = dyn_cast<GlobalAlias>(CB->getCalledOperand())) d.callee = dyn_cast<Function>(GA->getAliaseeObject());
        if (!d.callee) d.ops.push_back(opnd(CB->getCalledOperand()));
        else {
          std::string nm = d.callee->getName().str();
          if (nm.compare(0, 5, "llvm.") == 0) { // strip type suffixes
            std::string t = nm; Handler h = nullptr;
            while (!(h = findHandler(t))) { size_t q = t.rfind('.'); if (q == std::string::npos || q <= 4) break; t = t.substr(0, q); }
            d.h = h;
          } else d.h = findHandler(nm);
        }
        if (auto *II = dyn_cast<InvokeInst>(&I)) { d.blocks.push_back(bidx[II->getNormalDest()]); d.blocks.push_back(bidx[II->getUnwindDest()]); }
        break; }
      default:
        for (auto &o : I.operands()) if (!isa<BasicBlock>(o.get())) d.ops.push_back(opnd(o.get()));
        if (I.getNumOperands()) d.sw = tw(I.getOperand(0)->getType(), DL);
        if (auto *L = dyn_cast<LoadInst>(&I)) { d.size = DL->getTypeStoreSize(L->getType()); d.simple = d.w != 0; }
        if (auto *S = dyn_cast<StoreInst>(&I)) { d.size = DL->getTypeStoreSize(S->getValueOperand()->getType()); d.sw = tw(S->getValueOperand()->getType(), DL); d.simple = d.sw != 0; }
        if (auto *C = dyn_cast<CmpInst>(&I)) d.pred = C->getPredicate();
        if (auto *A = dyn_cast<AllocaInst>(&I)) d.size = DL->getTypeAllocSize(A->getAllocatedType());
        break;
      }
    }
  }
  return fi;
}

Val &Executor::setDst(State &s, DI &d) { return s.top().r[d.dst]; }

// ---------- reporting ----------
static std::string instLoc(const Instruction *I) {
  std::string r;
  const DILocation *L = I->getDebugLoc().get();
  int n = 0;
  while (L && n++ < 8) {
    std::string fn = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "?";
    std::string file = L->getFilename().str(); size_t q = file.rfind('/'); if (q != std::string::npos) file = file.substr(q + 1);
    r += (r.empty() ? "" : " < ") + fn + "@" + file + ":" + std::to_string(L->getLine());
    L = L->getInlinedAt();
  }
  return r;
}
std::string Executor::where(State &s, int maxd) {
  std::string r; auto &st = s.th[s.cur].st;
  for (int i = (int)st.size() - 1; i >= 0 && maxd-- > 0; i--) {
    Frame &f = st[i];
    int pc = f.pc; if (i != (int)st.size() - 1) pc = std::max(0, pc);
    if (pc >= (int)f.f->code.size()) pc = f.f->code.size() - 1;
    std::string l = instLoc(f.f->code[pc].I);
    if (l.empty()) l = demangle(f.f->F->getName().str()).substr(0, 80);
    r += (r.empty() ? "" : " << ") + l;
  }
  return r;
}
void Executor::violation(State &s, const std::string &kind, const std::string &label, E cond) {
  std::string w = where(s, 8);
  std::string key = kind + "|" + label + "|" + (kind == "assert" ? "" : w);
  if (violCount[key]++ >= 2 || (int)violations.size() >= 40) return;
  Violation v; v.kind = kind; v.label = label; v.where = w; v.schedule = s.schedule;
  std::vector<E> cs = s.pc; if (cond) cs.push_back(cond);
  Model m;
  // full model: solve whole PC (needed for replay of every input)
  std::shared_ptr<Model> base = s.model;
  std::vector<E> sl; Model part; bool ok = false;
  if (base && base->valid && cond) {
    relevantSlice(s.pc, cond, sl); sl.push_back(cond);
    if (solverCheck(sl, &part) == SR::Sat) { m.m = base->m; for (auto &kv : part.m) m.m[kv.first] = kv.second; ok = true; }
  } else if (base && base->valid) { m.m = base->m; ok = true; }
  if (!ok) { if (solverCheck(cs, &part) == SR::Sat) { m.m = part.m; ok = true; } }
  if (!ok) { incomplete["no model for a candidate violation: " + label]++; return; }
  for (size_t i = 0; i < s.inputs.size(); i++) {
    uint64_t val; Val &x = s.inputs[i].second;
    if (!x.e) val = x.c; else { u128 o = 0; Model mm; mm.m = m.m; evalE(x.e, mm, o); val = (uint64_t)o; }
    v.inputs.push_back({s.inputs[i].first, {s.inputW[i], val}});
  }
  violations.push_back(v);
}
// inputs of some completed paths: replayed natively to validate the encoding
void Executor::samplePath(State &s) {
  completed++;
  if ((completed & (completed - 1)) || samples.size() >= 12 || s.th.size() > 1) return;
  if (!s.model || !s.model->valid) return;
  for (E e : s.pc) { u128 o; if (!evalE(e, *s.model, o) || o != 1) return; }
  // vary the inputs at random where the path condition allows it
  Model rm; rm.m = s.model->m;
  auto holds = [&](Model &m) { m.memo.clear(); for (E e : s.pc) { u128 o; if (!evalE(e, m, o) || o != 1) return false; } return true; };
  for (size_t i = 0; i < s.inputs.size(); i++) if (s.inputs[i].second.e) for (uint32_t vid : varsOf(s.inputs[i].second.e)) for (int t = 0; t < 3; t++) {
    static uint64_t rs = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) * 2654435761u + 12345 : 12345;
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    uint64_t old = rm.m[vid]; rm.m[vid] = (rs * 0x9E3779B97F4A7C15ull >> 7) & maskw(g_vars[vid].w);
    if (holds(rm)) break; rm.m[vid] = old; }
  rm.memo.clear();
  Violation v; v.kind = "sample"; v.schedule = s.schedule;
  for (size_t i = 0; i < s.inputs.size(); i++) {
    uint64_t val; Val &x = s.inputs[i].second;
    if (!x.e) val = x.c; else { u128 o = 0; evalE(x.e, rm, o); val = (uint64_t)o; }
    v.inputs.push_back({s.inputs[i].first, {s.inputW[i], val}});
  }
  samples.push_back(v);
}
void Executor::memError(State &s, const std::string &msg, E cond) { violation(s, "memory", msg, cond); throw PathEnd(); }
void Executor::giveUp(State &s, const std::string &why) { incomplete[why + " @ " + where(s, 3)]++; throw PathEnd(); }

// ---------- symbolic decisions ----------
StateP Executor::fork(State &s) {
  auto n = std::make_unique<State>(s); n->forks++; forks++;
  auto *I = s.top().f->code[s.top().pc].I; forkSites[I]++;
  return n;
}
void Executor::addC(State &s, E c) {
  if (isTrue(c)) return;
  if (c->k == K::And && c->w == 1) { addC(s, c->o[0]); addC(s, c->o[1]); return; }
  s.known[c->id] = 1;
  if (c->k == K::Eq && isC(c->o[0])) s.known[c->o[1]->id] = c->o[0]->imm;
  if (c->k == K::Xor && isTrue(c->o[0])) s.known[c->o[1]->id] = 0;
  s.pc.push_back(c);
}
bool Executor::mayBeTrue(State &s, E c, std::shared_ptr<Model> *mo) {
  if (isTrue(c)) { if (mo) *mo = s.model; return true; }
  if (isFalse(c)) return false;
  auto k = s.known.find(c->id);
  if (k != s.known.end()) { if (k->second == 0) return false; if (mo) *mo = s.model; return true; }
  if (s.model && s.model->valid) { u128 o; if (evalE(c, *s.model, o)) { if (o == 1) { g_ss.modelHits++; if (mo) *mo = s.model; return true; } } }
  std::vector<E> sl;
  bool slice = s.model && s.model->valid;
  if (slice) relevantSlice(s.pc, c, sl); else { relevantSlice(s.pc, c, sl); }
  sl.push_back(c);
  Model m; SR r = solverCheck(sl, &m);
  if (r == SR::Unsat) return false;
  if (r == SR::Unknown) { incomplete["solver gave no answer @ " + where(s, 2)]++; if (mo) *mo = nullptr; return true; }
  if (mo) {
    auto nm = std::make_shared<Model>();
    if (slice && m.valid) { nm->m = s.model->m; for (auto &kv : m.m) nm->m[kv.first] = kv.second; nm->valid = true; *mo = nm; }
    else *mo = nullptr;
  }
  return true;
}
bool Executor::evalCond(State &s, E c) {
  if (isC(c)) return c->imm;
  auto k = s.known.find(c->id);
  if (k != s.known.end()) return k->second;
  E nc = mkNot(c);
  int side = -1; // side known feasible through the model
  if (s.model && s.model->valid) { u128 o; if (evalE(c, *s.model, o)) { side = (int)(o & 1); g_ss.modelHits++; } }
  std::shared_ptr<Model> mT = s.model, mF = s.model;
  bool canT = side == 1 ? true : mayBeTrue(s, c, &mT);
  bool canF;
  if (!canT && side != 0) canF = true; // PC is satisfiable
  else canF = side == 0 ? true : mayBeTrue(s, nc, &mF);
  if (canT && canF) {
    auto n = fork(s);
    addC(*n, nc); n->known[c->id] = 0; n->model = mF;
    work.push_back(std::move(n));
    addC(s, c); s.known[c->id] = 1; s.model = mT;
    return true;
  }
  s.known[c->id] = canT; s.known[nc->id] = !canT;
  return canT;
}
uint64_t Executor::modelValue(State &s, E e) {
  u128 o;
  if (s.model && s.model->valid && evalE(e, *s.model, o)) return (uint64_t)o;
  std::vector<E> cs = s.pc; Model m;
  // give variables of e a value even if unconstrained
  SR r = solverCheck(cs, &m);
  if (r != SR::Sat) giveUp(s, "no model for concretization");
  if (m.valid) { s.model = std::make_shared<Model>(m); }
  m.memo.clear();
  if (!evalE(e, m, o)) giveUp(s, "cannot evaluate expression for concretization");
  return (uint64_t)o;
}
uint64_t Executor::concretize(State &s, const Val &v, uint32_t w, const char *what) {
  if (!v.e) return v.c;
  E e = v.e;
  auto k = s.known.find(e->id);
  if (k != s.known.end()) return k->second;
  for (unsigned i = 0; i < maxConc; i++) {
    uint64_t x = modelValue(s, e);
    E eq = mkBin(K::Eq, mkConst(x, e->w), e);
    if (isFalse(eq)) giveUp(s, "inconsistent model");
    std::shared_ptr<Model> mo;
    if (isTrue(eq)) return x;
    bool other = mayBeTrue(s, mkNot(eq), &mo);
    if (!other) { s.known[e->id] = x; return x; }
    // fork: this state takes x; the sibling excludes it and re-executes
    auto n = fork(s);
    addC(*n, mkNot(eq)); n->model = mo; 
    n->kv[std::string("conc:") + std::to_string(e->id)]++;
    if (n->kv[std::string("conc:") + std::to_string(e->id)] > maxConc) {
      incomplete[std::string("too many values for ") + what + " @ " + where(s, 3)]++;
    } else work.push_back(std::move(n));
    addC(s, eq); s.known[e->id] = x;
    return x;
  }
  giveUp(s, "concretize");
}

// Over the reals, rounding to an integer is decided by forking on the integer: the path then carries two
// comparisons instead of a conversion. Up to roundSplit values per expression; after that the caller keeps the term.
bool Executor::splitRound(State &s, E x, int mode, double &out) {
  if (g_fpMode != 2 || !roundSplit || isC(x) || mode > RM_TRUNC) return false;
  uint32_t w = x->w; auto fc = [&](double d) { return mkConst(w == 32 ? f2bits((float)d) : d2bits(d), w); };
  auto key = std::string("round:") + std::to_string(x->id);
  if (s.kv[key] > (int)roundSplit) return false;
  uint64_t b = modelValue(s, x); double v = w == 32 ? bits2f((uint32_t)b) : bits2d(b);
  if (!(std::fabs(v) < 1e9)) return false;
  double base = mode == RM_CEIL ? std::ceil(v) : mode == RM_FLOOR ? std::floor(v) : std::trunc(v);
  for (int dlt : {0, 1, -1}) {
    double n = base + dlt;
    E lo, hi; // conditions under which rounding gives n
    if (mode == RM_FLOOR || (mode == RM_TRUNC && n > 0)) { lo = mkBin(K::FOle, fc(n), x); hi = mkBin(K::FOlt, x, fc(n + 1)); }
    else if (mode == RM_CEIL || n < 0) { lo = mkBin(K::FOlt, fc(n - 1), x); hi = mkBin(K::FOle, x, fc(n)); }
    else { lo = mkBin(K::FOlt, fc(-1), x); hi = mkBin(K::FOlt, x, fc(1)); }
    E in = mkBin(K::And, lo, hi);
    if (isFalse(in)) continue;
    if (!isTrue(in)) {
      std::shared_ptr<Model> mo, mi;
      if (!mayBeTrue(s, in, &mi)) continue;
      if (mayBeTrue(s, mkNot(in), &mo)) { auto o = fork(s); addC(*o, mkNot(in)); o->model = mo; o->kv[key]++; work.push_back(std::move(o)); }
      addC(s, in); s.model = mi;
    }
    out = n; return true;
  }
  return false;
}

// ---------- memory access ----------
static uint64_t pow2Stride(E e, int depth = 0) { // largest power of two known to divide e, up to 2^12; residue handled by caller
  if (depth > 12) return 1;
  if (isC(e)) return e->imm == 0 ? 4096 : std::min<uint64_t>(4096, e->imm & (~e->imm + 1));
  switch (e->k) {
  case K::Concat: if (isC(e->o[1]) && e->o[1]->imm == 0) return std::min<uint64_t>(4096, (1ull << std::min(12u, e->o[1]->w))); return e->o[1]->w < 12 ? std::min<uint64_t>(pow2Stride(e->o[1], depth + 1), 1ull << e->o[1]->w) : pow2Stride(e->o[1], depth + 1);
  case K::Add: case K::Sub: return std::min(pow2Stride(e->o[0], depth + 1), pow2Stride(e->o[1], depth + 1));
  case K::Mul: return std::min<uint64_t>(4096, pow2Stride(e->o[0], depth + 1) * pow2Stride(e->o[1], depth + 1));
  case K::Ite: return std::min(pow2Stride(e->o[1], depth + 1), pow2Stride(e->o[2], depth + 1));
  case K::ZExt: case K::SExt: return pow2Stride(e->o[0], depth + 1);
  case K::Shl: return pow2Stride(e->o[0], depth + 1);
  default: return 1;
  }
}
static uint64_t mulStride(E e, int depth = 0) { // stride assuming no wrap-around (verified by the caller)
  if (depth > 12) return 1;
  if (isC(e)) return e->imm; // gcd(0,x) = x
  auto g = [](uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; };
  switch (e->k) {
  case K::Add: { uint64_t a = isC(e->o[0]) ? 0 : mulStride(e->o[0], depth + 1); uint64_t b = mulStride(e->o[1], depth + 1); uint64_t c = isC(e->o[0]) ? (int64_t)e->o[0]->imm < 0 ? 0 - e->o[0]->imm : e->o[0]->imm : 0; return g(g(a, b), c); }
  case K::Sub: return g(mulStride(e->o[0], depth + 1), mulStride(e->o[1], depth + 1));
  case K::Mul: if (isC(e->o[0])) return e->o[0]->imm * mulStride(e->o[1], depth + 1); return mulStride(e->o[0], depth + 1) * mulStride(e->o[1], depth + 1);
  case K::Concat: case K::Shl: return pow2Stride(e);
  case K::Ite: return g(mulStride(e->o[1], depth + 1), mulStride(e->o[2], depth + 1));
  case K::ZExt: case K::SExt: return mulStride(e->o[0], depth + 1);
  default: return 1;
  }
}

static bool validObj(State &s, uint64_t a) { uint32_t id = addrObj(a); return id && id < s.mem.n && s.mem.rd(id); }

static const char *kindName(MemObj *o) { return o->kind == OK_Heap ? "heap" : o->kind == OK_Stack ? "stack" : o->kind == OK_Freed ? "freed" : "global"; }

// find an Ite below an Add tree whose leaves carry the object base
static E findIte(State &s, E e, int depth = 0) {
  if (depth > 6) return nullptr;
  if (e->k == K::Ite && e->w == 64) return e;
  if (e->k == K::Add && e->w == 64) { if (E r = findIte(s, e->o[0], depth + 1)) return r; return findIte(s, e->o[1], depth + 1); }
  return nullptr;
}
static E substTerm(E e, E from, E to) {
  if (e == from) return to;
  if (e->k == K::Add) return mkBin(K::Add, substTerm(e->o[0], from, to), substTerm(e->o[1], from, to));
  return e;
}

void Executor::resolve(State &s, const Val &p, uint64_t n, bool wr, std::vector<Alt> &out) {
  std::vector<std::pair<E, E>> todo{{nullptr, p.e}};
  int count = 0;
  while (!todo.empty()) {
    E g = todo.back().first, e = todo.back().second; todo.pop_back();
    if (g && isFalse(g)) continue;
    if (++count > 600) giveUp(s, "pointer with too many targets");
    auto AND = [&](E a, E b) { return a ? mkBin(K::And, a, b) : b; };
    if (isC(e)) {
      uint64_t a = e->imm;
      MemObj *o = s.mem.rd(addrObj(a));
      bool bad = !o || o->kind == OK_Freed || addrOff(a) > o->size || n > o->size - addrOff(a);
      memChecks++;
      if (bad) {
        std::string msg = !o || a < BASE ? "access through null or invalid pointer" : o->kind == OK_Freed ? "use after free" : "out of bounds access";
        if (!g) memError(s, msg, nullptr);
        std::shared_ptr<Model> mo;
        if (mayBeTrue(s, g, &mo)) {
          violation(s, "memory", msg, g);
          std::shared_ptr<Model> m2;
          if (!mayBeTrue(s, mkNot(g), &m2)) throw PathEnd();
          addC(s, mkNot(g)); s.model = m2;
        }
        continue;
      }
      out.push_back({g, addrObj(a), nullptr, addrOff(a), false});
      continue;
    }
    auto kk = s.known.find(e->id);
    if (kk != s.known.end()) { todo.push_back({g, mkConst(kk->second, 64)}); continue; }
    if (e->k == K::Ite) { todo.push_back({AND(g, mkNot(e->o[0])), e->o[2]}); todo.push_back({AND(g, e->o[0]), e->o[1]}); continue; }
    uint64_t base = 0;
    if (e->k == K::Add && isC(e->o[0]) && validObj(s, e->o[0]->imm) && e->o[0]->imm >= BASE + (1ull << 32)) base = objAddr(addrObj(e->o[0]->imm));
    else if (E it = findIte(s, e)) {
      // split over the Ite
      todo.push_back({AND(g, mkNot(it->o[0])), substTerm(e, it, it->o[2])});
      todo.push_back({AND(g, it->o[0]), substTerm(e, it, it->o[1])});
      continue;
    } else {
      if (g) { // make the guard definite first
        if (!evalCond(s, g)) continue;
        g = nullptr;
      }
      uint64_t a = modelValue(s, e);
      if (!validObj(s, a)) {
        // null or wild: is it certain?
        E isv = mkBin(K::Eq, mkConst(a, 64), e);
        memError(s, "access through null or invalid pointer", isv);
      }
      base = objAddr(addrObj(a));
      MemObj *o = s.mem.rd(addrObj(a));
      E inr = mkBin(K::Ule, mkBin(K::Sub, e, mkConst(base, 64)), mkConst(o->size, 64));
      if (!isTrue(inr) && !evalCond(s, inr)) { todo.push_back({nullptr, e}); continue; }
    }
    MemObj *o = s.mem.rd(addrObj(base));
    E off = mkBin(K::Sub, e, mkConst(base, 64));
    memChecks++;
    if (isC(off)) { todo.push_back({g, mkConst(base + off->imm, 64)}); continue; }
    E bad;
    if (o->kind == OK_Freed) bad = mkConst(1, 1);
    else if (o->size < n) bad = mkConst(1, 1);
    else bad = mkBin(K::Ult, mkConst(o->size - n, 64), off);
    E gb = AND(g, bad);
    auto kb = s.known.find(gb->id);
    if (!(kb != s.known.end() && kb->second == 0)) {
      std::shared_ptr<Model> mo;
      if (mayBeTrue(s, gb, &mo)) {
        violation(s, "memory", o->kind == OK_Freed ? "use after free" : std::string("out of bounds ") + (wr ? "write" : "read") + " (" + kindName(o) + " object)", gb);
        std::shared_ptr<Model> m2;
        if (!mayBeTrue(s, mkNot(gb), &m2)) throw PathEnd();
        addC(s, mkNot(gb)); s.model = m2;
      } else s.known[gb->id] = 0;
    }
    if (o->kind == OK_Freed) continue;
    out.push_back({g, addrObj(base), off, 0, true});
  }
}

// positions of a symbolic offset
static bool positions(Executor &X, State &s, MemObj *o, E off, E g, uint64_t n, std::vector<uint64_t> &pos, uint64_t &stride) {
  uint64_t c = 0; E var = off;
  if (off->k == K::Add && isC(off->o[0])) { c = off->o[0]->imm; var = off->o[1]; }
  uint64_t p2 = pow2Stride(var), ms = mulStride(var);
  stride = p2; 
  if (ms && ms > p2 && ms % p2 == 0 && ms < (1ull << 20)) {
    // verify no wrap: every in-bounds offset is congruent to c mod ms
    uint64_t r = ((c % ms) + ms) % ms; if ((int64_t)c < 0) { r = (ms - ((0 - c) % ms)) % ms; }
    std::vector<uint64_t> ps; for (uint64_t p = r; p + n <= o->size; p += ms) ps.push_back(p);
    if (ps.size() <= 4096 && !ps.empty()) {
      E any = mkConst(0, 1);
      if (ps.size() <= 512) {
        E d = mkBin(K::Sub, off, mkConst(r, 64));
        E bad = mkBin(K::Xor, mkConst(1, 1), mkBin(K::Eq, mkConst(0, 32), mkBin(K::URem, mkExtract(d, 0, 32), mkConst(ms, 32))));
        (void)any;
        // in-bounds already assumed by the caller; off < 2^32
        E q = g ? mkBin(K::And, g, bad) : bad;
        std::shared_ptr<Model> mo;
        auto kb = s.known.find(q->id);
        bool may = kb != s.known.end() ? kb->second : X.mayBeTrue(s, q, &mo);
        if (!may) { s.known[q->id] = 0; pos = ps; stride = ms; return true; }
      }
    }
  }
  uint64_t r = c & (p2 - 1);
  for (uint64_t p = r; p + n <= o->size; p += p2) { pos.push_back(p); if (pos.size() > 8192) return false; }
  return true;
}

Val Executor::loadRaw(State &s, const Val &p, uint64_t n) {
  if (!p.e) {
    uint32_t id = addrObj(p.c); MemObj *o = s.mem.rd(id); uint64_t off = addrOff(p.c);
    if (!o || p.c < BASE) memError(s, "read through null or invalid pointer", nullptr);
    if (o->kind == OK_Freed) memError(s, "use after free (read)", nullptr);
    if (off > o->size || n > o->size - off) memError(s, std::string("out of bounds read (") + kindName(o) + " object of " + std::to_string(o->size) + " bytes, offset " + std::to_string((int64_t)(int32_t)off) + ")", nullptr);
    return readObj(o, off, n);
  }
  std::vector<Alt> alts; resolve(s, p, n, false, alts);
  if (alts.empty()) throw PathEnd();
  E res = nullptr;
  for (auto &a : alts) {
    MemObj *o = s.mem.rd(a.obj);
    E v;
    if (!a.symOff) v = toE(readObj(o, a.coff, n), n * 8);
    else {
      std::vector<uint64_t> pos; uint64_t st;
      if (!positions(*this, s, o, a.off, a.guard, n, pos, st) || pos.empty()) {
        uint64_t c = concretize(s, VE(a.off), 64, "symbolic load offset");
        v = toE(readObj(o, c, n), n * 8);
      } else {
        v = toE(readObj(o, pos.back(), n), n * 8);
        for (int i = (int)pos.size() - 2; i >= 0; i--) v = mkIte(mkBin(K::Eq, mkConst(pos[i], 64), a.off), toE(readObj(o, pos[i], n), n * 8), v);
      }
    }
    if (!res) res = v; else res = a.guard ? mkIte(a.guard, v, res) : v;
  }
  return VE(res);
}
void Executor::storeRaw(State &s, const Val &p, const Val &v, uint64_t n) {
  if (!p.e) {
    uint32_t id = addrObj(p.c); MemObj *o = s.mem.rd(id); uint64_t off = addrOff(p.c);
    if (!o || p.c < BASE) memError(s, "write through null or invalid pointer", nullptr);
    if (o->kind == OK_Freed) memError(s, "use after free (write)", nullptr);
    if (off > o->size || n > o->size - off) memError(s, std::string("out of bounds write (") + kindName(o) + " object of " + std::to_string(o->size) + " bytes, offset " + std::to_string((int64_t)(int32_t)off) + ")", nullptr);
    if (o->ro) memError(s, "write to read-only memory", nullptr);
    writeObj(s.mem.wr(id), off, v, n); return;
  }
  std::vector<Alt> alts; resolve(s, p, n, true, alts);
  for (auto &a : alts) {
    if (a.symOff) { MemObj *o = s.mem.rd(a.obj); std::vector<uint64_t> pos; uint64_t st;
      if (!positions(*this, s, o, a.off, a.guard, n, pos, st) || pos.empty() || st < n) { // fork on the value
        uint64_t c = concretize(s, VE(a.off), 64, "symbolic store offset"); a.symOff = false; a.coff = c; } }
  }
  for (auto &a : alts) {
    MemObj *o = s.mem.wr(a.obj);
    if (o->ro) giveUp(s, "symbolic write to read-only memory");
    E ve = toE(v, n * 8);
    if (!a.symOff) {
      E nv = a.guard && alts.size() > 1 ? mkIte(a.guard, ve, toE(readObj(o, a.coff, n), n * 8)) : ve;
      writeObj(o, a.coff, VE(nv), n);
    } else {
      std::vector<uint64_t> pos; uint64_t st; positions(*this, s, o, a.off, a.guard, n, pos, st);
      o = s.mem.wr(a.obj);
      for (uint64_t q : pos) {
        E c = mkBin(K::Eq, mkConst(q, 64), a.off);
        if (a.guard && alts.size() > 1) c = mkBin(K::And, a.guard, c);
        if (isFalse(c)) continue;
        writeObj(o, q, VE(mkIte(c, ve, toE(readObj(o, q, n), n * 8))), n);
      }
    }
  }
}
Val Executor::load(State &s, const Val &p, Type *T, uint64_t size, uint32_t w) {
  if (w) {
    Val v = loadRaw(s, p, size);
    if (w < size * 8) { if (v.e) return VE(mkExtract(v.e, 0, w)); v.c &= maskw(w); }
    return v;
  }
  Val r; r.agg = std::make_shared<std::vector<Val>>();
  auto at = [&](uint64_t off) { return p.e ? VE(mkBin(K::Add, p.e, mkConst(off, 64))) : Val(p.c + off); };
  if (auto *VT = dyn_cast<FixedVectorType>(T)) { Type *ET = VT->getElementType(); uint32_t ew = tw(ET, DL);
    if (ew % 8) giveUp(s, "bit vector load");
    for (unsigned i = 0; i < VT->getNumElements(); i++) r.agg->push_back(load(s, at(i * (ew / 8)), ET, ew / 8, ew)); return r; }
  if (auto *AT = dyn_cast<ArrayType>(T)) { Type *ET = AT->getElementType(); uint64_t es = DL->getTypeAllocSize(ET);
    for (unsigned i = 0; i < AT->getNumElements(); i++) r.agg->push_back(load(s, at(i * es), ET, DL->getTypeStoreSize(ET), tw(ET, DL))); return r; }
  if (auto *ST = dyn_cast<StructType>(T)) { auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) r.agg->push_back(load(s, at(SL->getElementOffset(i)), ST->getElementType(i), DL->getTypeStoreSize(ST->getElementType(i)), tw(ST->getElementType(i), DL))); return r; }
  if (T->isX86_FP80Ty()) { return loadRaw(s, p, 8); }
  giveUp(s, "load of unsupported type");
}
void Executor::store(State &s, const Val &p, const Val &v, Type *T, uint64_t size, uint32_t w) {
  if (w) { storeRaw(s, p, v, size); return; }
  auto at = [&](uint64_t off) { return p.e ? VE(mkBin(K::Add, p.e, mkConst(off, 64))) : Val(p.c + off); };
  if (auto *VT = dyn_cast<FixedVectorType>(T)) { Type *ET = VT->getElementType(); uint32_t ew = tw(ET, DL);
    if (ew % 8) giveUp(s, "bit vector store");
    for (unsigned i = 0; i < VT->getNumElements(); i++) store(s, at(i * (ew / 8)), (*v.agg)[i], ET, ew / 8, ew); return; }
  if (auto *AT = dyn_cast<ArrayType>(T)) { Type *ET = AT->getElementType(); uint64_t es = DL->getTypeAllocSize(ET);
    for (unsigned i = 0; i < AT->getNumElements(); i++) store(s, at(i * es), (*v.agg)[i], ET, DL->getTypeStoreSize(ET), tw(ET, DL)); return; }
  if (auto *ST = dyn_cast<StructType>(T)) { auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) store(s, at(SL->getElementOffset(i)), (*v.agg)[i], ST->getElementType(i), DL->getTypeStoreSize(ST->getElementType(i)), tw(ST->getElementType(i), DL)); return; }
  if (T->isX86_FP80Ty()) { storeRaw(s, p, v, 8); return; }
  giveUp(s, "store of unsupported type");
}

std::string Executor::readStr(State &s, const Val &p) {
  std::string r; uint64_t a = concretize(s, p, 64, "string pointer");
  for (;;) { Val b = loadRaw(s, Val(a++), 1); if (b.e) { r += '?'; } else { if (!b.c) break; r += (char)b.c; } if (r.size() > 4096) break; }
  return r;
}
uint64_t Executor::argC(State &s, DI &d, int i, const char *what) { return concretize(s, opv(s, d.ops[i]), 64, what); }

// ---------- control ----------
void Executor::jump(State &s, int block) {
  Frame &f = s.top();
  f.prev = f.block; f.block = block;
  int pc = f.f->blockStart[block];
  auto &code = f.f->code;
  if (code[pc].op == Instruction::PHI) {
    static thread_local std::vector<std::pair<int, Val>> tmp; tmp.clear();
    while (code[pc].op == Instruction::PHI) {
      DI &d = code[pc]; d.executed = true; bool ok = false;
      for (size_t i = 0; i < d.blocks.size(); i++) if (d.blocks[i] == f.prev) { tmp.push_back({d.dst, opv(s, d.ops[i])}); ok = true; break; }
      if (!ok) { errs() << "phi without matching predecessor\n"; abort(); }
      pc++;
    }
    for (auto &t : tmp) f.r[t.first] = t.second;
  }
  f.pc = pc;
}
void Executor::pushCall(State &s, Function *F, const std::vector<Val> &args, bool discard) {
  FnInfo *fi = info(F); fi->entered = true;
  if (s.th[s.cur].st.size() > 2000) memError(s, "stack overflow (recursion deeper than 2000)", nullptr);
  Frame f; f.f = fi; f.r.resize(fi->nslots); f.discardRet = discard;
  for (int i = 0; i < fi->nargs && i < (int)args.size(); i++) f.r[i] = args[i];
  for (size_t i = fi->nargs; i < args.size(); i++) f.varargs.push_back(args[i]);
  s.th[s.cur].st.push_back(std::move(f));
  s.top().pc = fi->blockStart[0];
}
static void killAllocas(State &s, Frame &f) {
  static ObjP freed; if (!freed) { freed = std::make_shared<MemObj>(); freed->kind = OK_Freed; freed->allocKind = 77; }
  for (uint32_t id : f.allocas) s.mem.set(id, freed);
}
void Executor::doRet(State &s, const Val *rv) {
  Val v; if (rv) v = *rv;
  auto &th = s.th[s.cur];
  killAllocas(s, th.st.back());
  bool disc = th.st.back().discardRet;
  th.st.pop_back();
  if (th.st.empty()) {
    th.status = 3;
    for (auto &t : s.th) if (t.status == 2 && t.waitOn == (uint64_t)s.cur) t.status = 0;
    if (s.cur == 0) { samplePath(s); throw PathEnd(); }
    if (!switchAway(s)) throw PathEnd();
    return;
  }
  Frame &f = th.st.back();
  if (disc) return; // engine-made call: resume where we are
  DI &c = f.f->code[f.pc];
  if (c.dst >= 0 && rv) f.r[c.dst] = v;
  if (c.op == Instruction::Invoke) jump(s, c.blocks[0]); else f.pc++;
}
void Executor::doCall(State &s, DI &d) {
  Function *F = d.callee; int nargs = d.ops.size();
  if (!F) {
    nargs--;
    uint64_t a = concretize(s, opv(s, d.ops.back()), 64, "indirect call target");
    auto it = gobj.find(addrObj(a));
    if (it == gobj.end() || !isa<Function>(it->second)) {
      if (isa<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand())) { if (d.dst >= 0) setDst(s, d) = zeroVal(d.I->getType()); if (d.op == Instruction::Invoke) jump(s, d.blocks[0]); else s.top().pc++; return; }
      memError(s, "call through invalid function pointer", nullptr);
    }
    F = const_cast<Function *>(cast<Function>(it->second));
    if (F->isDeclaration() || findHandler(F->getName().str())) {
      Handler h = findHandler(F->getName().str());
      if (h) { DI tmp = d; tmp.callee = F; tmp.h = h; tmp.ops.pop_back(); h(*this, s, tmp); return; }
      giveUp(s, "call of unmodelled external function " + F->getName().str());
    }
  }
  if (d.h) { d.h(*this, s, d); return; }
  if (F->isDeclaration()) giveUp(s, "call of unmodelled external function " + F->getName().str());
  std::vector<Val> args; args.reserve(nargs);
  auto *CB = cast<CallBase>(d.I);
  for (int i = 0; i < nargs; i++) {
    if (CB->isByValArgument(i)) { // copy
      uint64_t a = concretize(s, opv(s, d.ops[i]), 64, "byval pointer");
      uint64_t sz = DL->getTypeAllocSize(CB->getParamByValType(i));
      uint64_t na = alloc(s, sz, OK_Stack, 0xAA, d.I);
      for (uint64_t k = 0; k < sz; k++) storeRaw(s, Val(na + k), loadRaw(s, Val(a + k), 1), 1);
      args.push_back(Val(na));
    } else args.push_back(opv(s, d.ops[i]));
  }
  pushCall(s, F, args, false);
}

// ---------- exceptions ----------
bool Executor::baseOf(State &s, uint64_t ti, uint64_t target, int64_t &off, uint64_t obj, int depth) {
  if (ti == target) return true;
  if (!ti || depth > 12) return false;
  // same name counts too
  std::string a = gname(ti), b = gname(target);
  if (!a.empty() && a == b) return true;
  MemObj *o = s.mem.rd(addrObj(ti));
  if (!o || o->kind == OK_Extern || o->size < 16) return false;
  uint64_t vt; memcpy(&vt, &o->b[0], 8);
  std::string vn = gname(vt);
  if (vn.find("si_class_type_info") != std::string::npos && vn.find("vmi") == std::string::npos) {
    uint64_t b0; memcpy(&b0, &o->b[16], 8);
    return baseOf(s, b0, target, off, obj, depth + 1);
  }
  if (vn.find("vmi_class_type_info") != std::string::npos) {
    uint32_t cnt; memcpy(&cnt, &o->b[20], 4);
    for (uint32_t i = 0; i < cnt; i++) {
      uint64_t bt; int64_t of; memcpy(&bt, &o->b[24 + i * 16], 8); memcpy(&of, &o->b[32 + i * 16], 8);
      bool virt = of & 1; int64_t bo = of >> 8;
      if (virt && obj) { Val vp = loadRaw(s, Val(obj + off), 8); if (vp.e) return false; Val x = loadRaw(s, Val(vp.c + bo), 8); bo = (int64_t)x.c; }
      int64_t save = off; off += bo;
      if (baseOf(s, bt, target, off, obj, depth + 1)) return true;
      off = save;
    }
  }
  return false;
}
bool Executor::catchMatches(State &s, uint64_t c, uint64_t t, uint64_t &adj) {
  if (c == 0) return true;
  int64_t off = 0;
  if (c == t) return true;
  if (baseOf(s, t, c, off, adj)) { adj += off; return true; }
  // pointer exceptions
  return false;
}
void Executor::throwExc(State &s, uint64_t obj) {
  ExcObj &ex = s.exc[obj];
  auto &th = s.th[s.cur];
  // search for a handler; cleanups run on the way
  while (!th.st.empty()) {
    Frame &f = th.st.back();
    DI &d = f.f->code[f.pc];
    if (d.op == Instruction::Invoke && !f.discardRet) {
      // look at landing pad
      int blk = d.blocks[1];
      int pc = f.f->blockStart[blk];
      while (f.f->code[pc].op == Instruction::PHI) pc++;
      DI &lp = f.f->code[pc];
      auto *LP = cast<LandingPadInst>(lp.I);
      bool take = LP->isCleanup(); uint32_t sel = 0; uint64_t adj = obj;
      for (unsigned i = 0; i < LP->getNumClauses() && !sel; i++) {
        if (LP->isCatch(i)) {
          uint64_t ti = constVal(LP->getClause(i)).c; adj = obj;
          if (catchMatches(s, ti, ex.type, adj)) { if (!tiIndex.count(ti)) { int n = tiIndex.size() + 1; tiIndex[ti] = n; } sel = tiIndex[ti]; take = true; }
        } else {
          auto *arr = LP->getClause(i); bool ok = false;
          if (auto *CA = dyn_cast<ConstantArray>(arr)) for (unsigned k = 0; k < CA->getNumOperands(); k++) { uint64_t a2 = obj; if (catchMatches(s, constVal(cast<Constant>(CA->getOperand(k))).c, ex.type, a2)) ok = true; }
          if (!ok) { sel = 0xffffffff; take = true; }
        }
      }
      if (take) {
        ex.adjusted = adj;
        jump(s, blk);
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(Val(obj)); v.agg->push_back(Val(sel));
        s.top().r[lp.dst] = v; lp.executed = true;
        s.top().pc = pc + 1;
        return;
      }
    }
    if (f.f->F->doesNotThrow() && f.f->F->hasFnAttribute("sym-nounwind-check")) {}
    killAllocas(s, f);
    th.st.pop_back();
  }
  std::string tn = demangle(gname(ex.type));
  // stack empty: uncaught
  Violation v; v.kind = "uncaught"; v.label = "uncaught exception " + tn; v.where = "";
  // re-create a minimal frame-less report
  if (violCount[v.label]++ < 2) {
    Model m; bool ok = false;
    if (s.model && s.model->valid) { m.m = s.model->m; ok = true; } else if (solverCheck(s.pc, &m) == SR::Sat) ok = true;
    if (ok) {
      for (size_t i = 0; i < s.inputs.size(); i++) { uint64_t val; Val &x = s.inputs[i].second; if (!x.e) val = x.c; else { u128 o = 0; Model mm; mm.m = m.m; evalE(x.e, mm, o); val = (uint64_t)o; }
        v.inputs.push_back({s.inputs[i].first, {s.inputW[i], val}}); }
      v.schedule = s.schedule;
      violations.push_back(v);
    } else incomplete["no model for uncaught exception"]++;
  }
  throw PathEnd();
}

// ---------- threads ----------
void Executor::acquire(State &s, uint64_t a) { if (s.solo) return; auto it = s.sync.find(a); if (it != s.sync.end()) vcJoin(s.th[s.cur].vc, it->second); }
void Executor::release(State &s, uint64_t a) { if (s.solo) return; auto &t = s.th[s.cur]; vcJoin(s.sync[a], t.vc); if ((int)t.vc.size() <= t.rs) t.vc.resize(t.rs + 1); t.vc[t.rs]++; }
void Executor::access(State &s, const Val &p, uint64_t n, bool wr, const Instruction *I) {
  if (!races || s.solo || !n) return;
  uint64_t a = concretize(s, p, 64, "address accessed by a thread");
  uint32_t id = addrObj(a); MemObj *o = s.mem.rd(id); uint64_t off = addrOff(a);
  if (!o || a < BASE || o->kind == OK_Freed || o->kind == OK_Func || o->kind == OK_Extern || o->ro || off > o->size || n > o->size - off) return; // reported elsewhere
  if (o->size > (1u << 22)) giveUp(s, "object too large for race detection");
  raceChecks++;
  auto &sp = s.shadow[id];
  if (!sp) { sp = std::make_shared<Shadow>(); sp->c.resize(o->size); } else if (sp.use_count() > 1) sp = std::make_shared<Shadow>(*sp);
  uint32_t &sn = siteNo[I]; if (!sn) { sn = sites.size(); sites.push_back(I); }
  int t = s.th[s.cur].rs; auto &vc = s.th[s.cur].vc; if ((int)vc.size() < s.slots) vc.resize(s.slots); if (!vc[t]) vc[t] = 1;
  if (t >= 4) giveUp(s, "race detection handles four threads");
  for (uint64_t k = off; k < off + n; k++) {
    Cell &c = sp->c[k]; uint32_t other = 0; int ot = -1; bool ow = false;
    if (c.w) { int wt = c.w >> 24; if (wt != t && (c.w & 0xffffff) > vc[wt]) { other = c.ws; ot = wt; ow = true; } }
    if (wr) for (int q = 0; q < 4 && ot < 0; q++) if (q != t && c.r[q] && c.r[q] > (q < (int)vc.size() ? vc[q] : 0)) { other = c.rs[q]; ot = q; }
    if (ot >= 0) {
      auto loc = [&](const Instruction *J) { std::string r; if (!J) return r; if (auto *L = J->getDebugLoc().get()) { for (int d = 0; L && d < 4; L = L->getInlinedAt(), d++) r += (d ? " < " : "") + L->getFilename().rsplit('/').second.str() + ":" + std::to_string(L->getLine()); } return r + " in " + demangle(J->getFunction()->getName().str()).substr(0, 80); };
      violation(s, "race", std::string("data race: ") + (wr ? "write" : "read") + " at " + loc(I) + " unordered with " + (ow ? "write" : "read") + " at " + loc(sites[other]), nullptr);
      throw PathEnd();
    }
    if (wr) { c.w = (uint32_t)t << 24 | vc[t]; c.ws = sn; } else { c.r[t] = vc[t]; c.rs[t] = sn; }
  }
}
void Executor::schedPoint(State &s) {
  auto &t = s.th[s.cur];
  if (s.th.size() < 2) return;
  if (t.schedDone) { t.schedDone = false; return; }
  schedPoints++;
  // alternatives
  for (int i = 0; i < (int)s.th.size(); i++) {
    if (i == s.cur || s.th[i].status != 0) continue;
    if (s.preempt >= preemptBound) break;
    auto n = fork(s);
    n->preempt++;
    n->th[n->cur].schedDone = false;
    n->cur = i; n->schedule.push_back(i);
    n->th[i].schedDone = true;
    work.push_back(std::move(n));
  }
  s.schedule.push_back(s.cur);
}
bool Executor::switchAway(State &s) {
  std::vector<int> r;
  for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && s.th[i].status == 0) r.push_back(i);
  if (r.empty()) {
    bool allDone = true; for (auto &t : s.th) if (t.status != 3) allDone = false;
    if (!allDone) violation(s, "deadlock", "deadlock: no thread can run", nullptr);
    return false;
  }
  for (size_t k = 1; k < r.size(); k++) {
    auto n = std::make_unique<State>(s); forks++;
    n->cur = r[k]; n->schedule.push_back(r[k]); n->th[r[k]].schedDone = true;
    work.push_back(std::move(n));
  }
  s.cur = r[0]; s.schedule.push_back(r[0]); s.th[r[0]].schedDone = true;
  return true;
}

// ---------- instructions ----------
static Val binop(K k, const Val &a, const Val &b, uint32_t w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t v[3] = {a.c, b.c, 0}; uint32_t vw[3] = {w, w, 0}; uint64_t o;
    bool cmp = (k >= K::Eq && k <= K::Sle) || (k >= K::FOeq && k <= K::FUno);
    if (evalOp(k, cmp ? 1 : w, 0, v, vw, o)) return Val(o);
  }
  return VE(mkBin(k, toE(a, w), toE(b, w)));
}
static Val notV(const Val &a) { if (!a.e) return Val(a.c ^ 1); return VE(mkNot(a.e)); }
static Val orV(const Val &a, const Val &b) { return binop(K::Or, a, b, 1); }

static Val icmp(unsigned p, const Val &a, const Val &b, uint32_t w) {
  switch (p) {
  case CmpInst::ICMP_EQ: return binop(K::Eq, a, b, w);
  case CmpInst::ICMP_NE: return notV(binop(K::Eq, a, b, w));
  case CmpInst::ICMP_ULT: return binop(K::Ult, a, b, w);
  case CmpInst::ICMP_ULE: return binop(K::Ule, a, b, w);
  case CmpInst::ICMP_UGT: return binop(K::Ult, b, a, w);
  case CmpInst::ICMP_UGE: return binop(K::Ule, b, a, w);
  case CmpInst::ICMP_SLT: return binop(K::Slt, a, b, w);
  case CmpInst::ICMP_SLE: return binop(K::Sle, a, b, w);
  case CmpInst::ICMP_SGT: return binop(K::Slt, b, a, w);
  default: return binop(K::Sle, b, a, w);
  }
}
static Val fcmp(unsigned p, const Val &a, const Val &b, uint32_t w) {
  switch (p) {
  case CmpInst::FCMP_FALSE: return Val(0);
  case CmpInst::FCMP_TRUE: return Val(1);
  case CmpInst::FCMP_OEQ: return binop(K::FOeq, a, b, w);
  case CmpInst::FCMP_OGT: return binop(K::FOlt, b, a, w);
  case CmpInst::FCMP_OGE: return binop(K::FOle, b, a, w);
  case CmpInst::FCMP_OLT: return binop(K::FOlt, a, b, w);
  case CmpInst::FCMP_OLE: return binop(K::FOle, a, b, w);
  case CmpInst::FCMP_ORD: return notV(binop(K::FUno, a, b, w));
  case CmpInst::FCMP_UNO: return binop(K::FUno, a, b, w);
  case CmpInst::FCMP_UEQ: return orV(binop(K::FUno, a, b, w), binop(K::FOeq, a, b, w));
  case CmpInst::FCMP_UNE: return notV(binop(K::FOeq, a, b, w));
  case CmpInst::FCMP_ONE: return notV(orV(binop(K::FUno, a, b, w), binop(K::FOeq, a, b, w)));
  case CmpInst::FCMP_UGT: return notV(binop(K::FOle, a, b, w));
  case CmpInst::FCMP_UGE: return notV(binop(K::FOlt, a, b, w));
  case CmpInst::FCMP_ULT: return notV(binop(K::FOle, b, a, w));
  default: return notV(binop(K::FOlt, b, a, w)); // ULE
  }
}
static Val castV(unsigned op, const Val &a, uint32_t sw, uint32_t w) {
  K k;
  switch (op) {
  case Instruction::Trunc: if (!a.e) return Val(a.c & maskw(w)); return VE(mkExtract(a.e, 0, w));
  case Instruction::ZExt: if (!a.e && w <= 64) return Val(a.c & maskw(sw)); return VE(mkZExt(toE(a, sw), w));
  case Instruction::SExt: if (!a.e && w <= 64) return Val((uint64_t)sextw(a.c, sw) & maskw(w)); return VE(mkSExt(toE(a, sw), w));
  case Instruction::FPExt: k = K::FExt; break;
  case Instruction::FPTrunc: k = K::FTrunc; break;
  case Instruction::FPToSI: k = K::FToSI; break;
  case Instruction::FPToUI: k = K::FToUI; break;
  case Instruction::SIToFP: k = K::SIToF; break;
  case Instruction::UIToFP: k = K::UIToF; break;
  default: return a;
  }
  return VE(mkFConv(k, toE(a, sw), w));
}
static K binK(unsigned op) {
  switch (op) {
  case Instruction::Add: return K::Add; case Instruction::Sub: return K::Sub; case Instruction::Mul: return K::Mul;
  case Instruction::UDiv: return K::UDiv; case Instruction::SDiv: return K::SDiv; case Instruction::URem: return K::URem; case Instruction::SRem: return K::SRem;
  case Instruction::And: return K::And; case Instruction::Or: return K::Or; case Instruction::Xor: return K::Xor;
  case Instruction::Shl: return K::Shl; case Instruction::LShr: return K::LShr; case Instruction::AShr: return K::AShr;
  case Instruction::FAdd: return K::FAdd; case Instruction::FSub: return K::FSub; case Instruction::FMul: return K::FMul; case Instruction::FDiv: return K::FDiv;
  default: return K::Const; }
}
static Val selV(E c, const Val &a, const Val &b, Type *T, const DataLayout *DL) {
  if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) { Type *ET = isa<StructType>(T) ? T->getStructElementType(i) : isa<ArrayType>(T) ? T->getArrayElementType() : cast<VectorType>(T)->getElementType(); r.agg->push_back(selV(c, (*a.agg)[i], (*b.agg)[i], ET, DL)); } return r; }
  uint32_t w = tw(T, DL);
  return VE(mkIte(c, toE(a, w), toE(b, w)));
}
// flatten vector to one wide expr and back
static Val packVec(const Val &v, uint32_t ew) { E r = nullptr; for (auto &x : *v.agg) { E p = toE(x, ew); r = r ? mkConcat(p, r) : p; } return VE(r); }
static Val unpackVec(const Val &v, uint32_t totw, uint32_t ew, unsigned n) { Val r; r.agg = std::make_shared<std::vector<Val>>(); E e = toE(v, totw); for (unsigned i = 0; i < n; i++) r.agg->push_back(VE(mkExtract(e, i * ew, ew))); return r; }

void Executor::exec(State &s, DI &d) {
  Frame &f = s.top();
  switch (d.op) {
  case Instruction::Br:
    if (d.ops.empty()) { jump(s, d.blocks[0]); return; }
    { const Val &c = opv(s, d.ops[0]);
      bool b = c.e ? evalCond(s, c.e) : (c.c & 1);
      jump(s, d.blocks[b ? 0 : 1]); return; }
  case Instruction::Switch: {
    const Val &c = opv(s, d.ops[0]);
    if (!c.e) { for (size_t i = 0; i < d.caseVals.size(); i++) if (d.caseVals[i] == (c.c & maskw(d.sw))) { jump(s, d.blocks[i + 1]); return; } jump(s, d.blocks[0]); return; }
    for (size_t i = 0; i < d.caseVals.size(); i++) if (evalCond(s, mkBin(K::Eq, mkConst(d.caseVals[i], d.sw), c.e))) { jump(s, d.blocks[i + 1]); return; }
    jump(s, d.blocks[0]); return; }
  case Instruction::Ret:
    if (d.ops.empty()) doRet(s, nullptr); else { Val v = opv(s, d.ops[0]); doRet(s, &v); }
    return;
  case Instruction::Call: case Instruction::Invoke: doCall(s, d); return;
  case Instruction::Unreachable: giveUp(s, "reached unreachable instruction");
  case Instruction::Resume: { Val v = opv(s, d.ops[0]); uint64_t o = (*v.agg)[0].c; 
    // continue unwinding from the caller
    killAllocas(s, s.top()); s.th[s.cur].st.pop_back(); throwExc(s, o); return; }
  case Instruction::Alloca: {
    const Val &n = opv(s, d.ops[0]); uint64_t cnt = concretize(s, n, 64, "alloca size");
    uint64_t a = alloc(s, cnt * d.size, OK_Stack, 0xAA, d.I);
    f.allocas.push_back(addrObj(a)); f.r[d.dst] = Val(a); f.pc++; return; }
  case Instruction::Load: {
    if (s.th.size() > 1) {
      auto *L = cast<LoadInst>(d.I);
      if (L->isAtomic()) { schedPoint(s); if (L->getOrdering() != AtomicOrdering::Monotonic && L->getOrdering() != AtomicOrdering::Unordered) acquire(s, opv(s, d.ops[0]).c); }
      else access(s, opv(s, d.ops[0]), d.size, false, d.I);
    }
    Val v = load(s, opv(s, d.ops[0]), d.I->getType(), d.size, d.w);
    s.top().r[d.dst] = v; s.top().pc++; return; }
  case Instruction::Store: {
    if (s.th.size() > 1) {
      auto *L = cast<StoreInst>(d.I);
      if (L->isAtomic()) { schedPoint(s); if (L->getOrdering() != AtomicOrdering::Monotonic) release(s, opv(s, d.ops[1]).c); }
      else access(s, opv(s, d.ops[1]), d.size, true, d.I);
    }
    store(s, opv(s, d.ops[1]), opv(s, d.ops[0]), cast<StoreInst>(d.I)->getValueOperand()->getType(), d.size, d.sw);
    s.top().pc++; return; }
  case Instruction::GetElementPtr: {
    if (!d.simple) giveUp(s, "vector gep");
    const Val &b = opv(s, d.ops[0]);
    bool sym = b.e != nullptr; for (auto &g : d.gepVar) if (opv(s, g.first).e) sym = true;
    if (!sym) { uint64_t a = b.c + d.gepOff; for (size_t i = 0; i < d.gepVar.size(); i++) a += (uint64_t)sextw(opv(s, d.gepVar[i].first).c, d.gepW[i]) * d.gepVar[i].second; f.r[d.dst] = Val(a); }
    else {
      E a = toE(b, 64);
      for (size_t i = 0; i < d.gepVar.size(); i++) { E x = mkSExt(toE(opv(s, d.gepVar[i].first), d.gepW[i]), 64); a = mkBin(K::Add, a, mkBin(K::Mul, mkConst(d.gepVar[i].second, 64), x)); }
      a = mkBin(K::Add, mkConst(d.gepOff, 64), a);
      f.r[d.dst] = VE(a);
    }
    f.pc++; return; }
  case Instruction::ICmp: case Instruction::FCmp: {
    const Val &a = opv(s, d.ops[0]), &b = opv(s, d.ops[1]);
    bool I = d.op == Instruction::ICmp;
    if (a.agg) { auto *VT = cast<VectorType>(d.I->getOperand(0)->getType()); uint32_t ew = tw(VT->getElementType(), DL); Val r; r.agg = std::make_shared<std::vector<Val>>();
      for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(I ? icmp(d.pred, (*a.agg)[i], (*b.agg)[i], ew) : fcmp(d.pred, (*a.agg)[i], (*b.agg)[i], ew)); f.r[d.dst] = r; }
    else { if (!d.sw) giveUp(s, "compare of unsupported type"); f.r[d.dst] = I ? icmp(d.pred, a, b, d.sw) : fcmp(d.pred, a, b, d.sw); }
    f.pc++; return; }
  case Instruction::Select: {
    const Val &c = opv(s, d.ops[0]); const Val &a = opv(s, d.ops[1]), &b = opv(s, d.ops[2]);
    if (c.agg) { auto *VT = cast<VectorType>(d.I->getType()); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < c.agg->size(); i++) r.agg->push_back(selV(toE((*c.agg)[i], 1), (*a.agg)[i], (*b.agg)[i], VT->getElementType(), DL)); f.r[d.dst] = r; f.pc++; return; }
    if (!c.e) f.r[d.dst] = (c.c & 1) ? a : b;
    else { auto k = s.known.find(c.e->id); if (k != s.known.end()) f.r[d.dst] = k->second ? a : b; else f.r[d.dst] = selV(c.e, a, b, d.I->getType(), DL); }
    f.pc++; return; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPExt: case Instruction::FPTrunc:
  case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: {
    const Val &a = opv(s, d.ops[0]);
    if (a.agg) { auto *VS = cast<VectorType>(d.I->getOperand(0)->getType()); auto *VD = cast<VectorType>(d.I->getType()); Val r; r.agg = std::make_shared<std::vector<Val>>();
      for (auto &x : *a.agg) r.agg->push_back(castV(d.op, x, tw(VS->getElementType(), DL), tw(VD->getElementType(), DL))); f.r[d.dst] = r; f.pc++; return; }
    if (d.I->getType()->isX86_FP80Ty() || d.I->getOperand(0)->getType()->isX86_FP80Ty()) {
      // long double is modelled with double precision
      uint32_t sw = d.sw ? d.sw : 64, w = d.w ? d.w : 64;
      if ((d.op == Instruction::FPExt || d.op == Instruction::FPTrunc) && sw == w) f.r[d.dst] = a; else f.r[d.dst] = castV(sw == 64 && w == 32 ? (unsigned)Instruction::FPTrunc : d.op, a, sw, w);
      f.pc++; return; }
    if (!d.w || !d.sw) giveUp(s, "cast of unsupported type");
    if ((d.op == Instruction::FPToSI || d.op == Instruction::FPToUI) && a.e) { double n; if (splitRound(s, a.e, RM_TRUNC, n)) { f.r[d.dst] = Val((uint64_t)(int64_t)n & (d.w == 64 ? ~0ull : (1ull << d.w) - 1)); f.pc++; return; } }
    f.r[d.dst] = castV(d.op, a, d.sw, d.w); f.pc++; return; }
  case Instruction::BitCast: {
    const Val &a = opv(s, d.ops[0]); Type *S = d.I->getOperand(0)->getType(), *D = d.I->getType();
    if (!S->isVectorTy() && !D->isVectorTy()) f.r[d.dst] = a;
    else {
      uint32_t tot = DL->getTypeSizeInBits(S);
      Val x = a; if (auto *V = dyn_cast<FixedVectorType>(S)) x = packVec(a, tw(V->getElementType(), DL));
      if (auto *V = dyn_cast<FixedVectorType>(D)) x = unpackVec(x, tot, tw(V->getElementType(), DL), V->getNumElements());
      f.r[d.dst] = x;
    }
    f.pc++; return; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
    Val a = opv(s, d.ops[0]);
    uint32_t sw = d.sw, w = d.w;
    if (w < sw) a = castV(Instruction::Trunc, a, sw, w); else if (w > sw) a = castV(Instruction::ZExt, a, sw, w);
    f.r[d.dst] = a; f.pc++; return; }
  case Instruction::Freeze: f.r[d.dst] = opv(s, d.ops[0]); f.pc++; return;
  case Instruction::FNeg: {
    const Val &a = opv(s, d.ops[0]);
    if (a.agg) { uint32_t ew = tw(cast<VectorType>(d.I->getType())->getElementType(), DL); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto &x : *a.agg) r.agg->push_back(VE(mkF1(K::FNeg, toE(x, ew)))); f.r[d.dst] = r; }
    else f.r[d.dst] = VE(mkF1(K::FNeg, toE(a, d.w ? d.w : 64)));
    f.pc++; return; }
  case Instruction::ExtractValue: {
    Val v = opv(s, d.ops[0]);
    for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { Val t = (*v.agg)[i]; v = t; }
    f.r[d.dst] = v; f.pc++; return; }
  case Instruction::InsertValue: {
    Val v = opv(s, d.ops[0]); Val x = opv(s, d.ops[1]);
    std::function<Val(const Val &, ArrayRef<unsigned>)> ins = [&](const Val &a, ArrayRef<unsigned> ix) -> Val {
      if (ix.empty()) return x; Val r; r.agg = std::make_shared<std::vector<Val>>(*a.agg); (*r.agg)[ix[0]] = ins((*a.agg)[ix[0]], ix.drop_front()); return r; };
    f.r[d.dst] = ins(v, cast<InsertValueInst>(d.I)->getIndices()); f.pc++; return; }
  case Instruction::ExtractElement: {
    Val v = opv(s, d.ops[0]); uint64_t i = concretize(s, opv(s, d.ops[1]), 64, "vector index");
    f.r[d.dst] = (*v.agg)[i]; f.pc++; return; }
  case Instruction::InsertElement: {
    Val v = opv(s, d.ops[0]); uint64_t i = concretize(s, opv(s, d.ops[2]), 64, "vector index");
    Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); (*r.agg)[i] = opv(s, d.ops[1]); f.r[d.dst] = r; f.pc++; return; }
  case Instruction::ShuffleVector: {
    auto *SV = cast<ShuffleVectorInst>(d.I); const Val &a = opv(s, d.ops[0]), &b = opv(s, d.ops[1]);
    Val r; r.agg = std::make_shared<std::vector<Val>>(); int n = a.agg->size();
    for (int m : SV->getShuffleMask()) r.agg->push_back(m < 0 ? Val(0) : m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
    f.r[d.dst] = r; f.pc++; return; }
  case Instruction::AtomicRMW: {
    schedPoint(s);
    auto *R = cast<AtomicRMWInst>(d.I); if (R->getOrdering() != AtomicOrdering::Monotonic) { acquire(s, opv(s, d.ops[0]).c); release(s, opv(s, d.ops[0]).c); }
    Val p = opv(s, d.ops[0]), x = opv(s, d.ops[1]); uint32_t w = d.w;
    Val old = loadRaw(s, p, w / 8); Val nv;
    switch (R->getOperation()) {
    case AtomicRMWInst::Add: nv = binop(K::Add, old, x, w); break; case AtomicRMWInst::Sub: nv = binop(K::Sub, old, x, w); break;
    case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::And: nv = binop(K::And, old, x, w); break; case AtomicRMWInst::Or: nv = binop(K::Or, old, x, w); break;
    default: giveUp(s, "atomicrmw kind"); }
    storeRaw(s, p, nv, w / 8); s.top().r[d.dst] = old; s.top().pc++; return; }
  case Instruction::AtomicCmpXchg: {
    schedPoint(s);
    acquire(s, opv(s, d.ops[0]).c); release(s, opv(s, d.ops[0]).c);
    Val p = opv(s, d.ops[0]), c = opv(s, d.ops[1]), nv = opv(s, d.ops[2]); uint32_t w = tw(cast<AtomicCmpXchgInst>(d.I)->getNewValOperand()->getType(), DL);
    Val old = loadRaw(s, p, w / 8); Val eq = binop(K::Eq, old, c, w);
    bool b = eq.e ? evalCond(s, eq.e) : eq.c;
    if (b) storeRaw(s, p, nv, w / 8);
    Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(old); r.agg->push_back(Val(b)); s.top().r[d.dst] = r; s.top().pc++; return; }
  case Instruction::Fence: f.pc++; return;
  default: {
    K k = binK(d.op);
    if (k == K::Const) giveUp(s, std::string("unsupported instruction ") + d.I->getOpcodeName());
    const Val &a = opv(s, d.ops[0]), &b = opv(s, d.ops[1]);
    if (a.agg) { uint32_t ew = tw(cast<VectorType>(d.I->getType())->getElementType(), DL); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(binop(k, (*a.agg)[i], (*b.agg)[i], ew)); f.r[d.dst] = r; f.pc++; return; }
    uint32_t w = d.w ? d.w : 64; // long double modelled as double
    if (k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) {
      if (!b.e) { if ((b.c & maskw(w)) == 0 && w <= 64) memError(s, "integer division by zero", nullptr); }
      else {
        E z = mkBin(K::Eq, mkConst(0, w), b.e); std::shared_ptr<Model> mo;
        auto kz = s.known.find(z->id);
        if (!(kz != s.known.end() && !kz->second) && mayBeTrue(s, z, &mo)) {
          violation(s, "memory", "integer division by zero", z);
          std::shared_ptr<Model> m2; if (!mayBeTrue(s, mkNot(z), &m2)) throw PathEnd();
          addC(s, mkNot(z)); s.model = m2;
        }
        s.known[z->id] = 0;
      }
    }
    if (d.op == Instruction::FSub && false) {}
    if (d.I->getOpcode() == Instruction::FRem) {}
    f.r[d.dst] = binop(k, a, b, w); f.pc++; return; }
  }
}

bool Executor::step(State &s) {
  Frame &f = s.top();
  DI &d = f.f->code[f.pc];
  d.executed = true;
  instrs++; s.steps++;
  exec(s, d);
  return true;
}

void Executor::run(Function *entry) {
  auto s0 = std::make_unique<State>();
  s0->th.emplace_back();
  s0->model = std::make_shared<Model>();
  initGlobals(*s0);
  // global constructors, in priority order
  std::vector<std::pair<int, Function *>> ctors;
  if (auto *G = M->getGlobalVariable("llvm.global_ctors")) if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer()))
    for (auto &o : CA->operands()) { auto *CS = cast<ConstantStruct>(o); if (auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  pushCall(*s0, entry, {}, false);
  for (int i = (int)ctors.size() - 1; i >= 0; i--) pushCall(*s0, ctors[i].second, {}, true);
  work.push_back(std::move(s0));
  while (!work.empty()) {
    StateP s = std::move(work.back()); work.pop_back();
    paths++;
    try {
      for (;;) {
        uint64_t lim = 1024;
        while (lim--) { try { step(*s); } catch (Retry &) {} }
        if (instrs > limitSteps) { incomplete["instruction limit"]++; work.clear(); throw PathEnd(); }
        if (nowS() - t0 > limitTime) { incomplete["time limit"]++; work.clear(); throw PathEnd(); }
        if (s->steps > pathSteps) { violation(*s, "nontermination", "path longer than the step bound", nullptr); incomplete["path step bound"]++; throw PathEnd(); }
      }
    } catch (PathEnd &) {}
    if (s->steps > maxStepsPath) maxStepsPath = s->steps;
    if (g_stopRequested) { incomplete["interrupted"]++; break; }
    if (paths >= limitPaths) { incomplete["path limit"]++; break; }
  }
}
