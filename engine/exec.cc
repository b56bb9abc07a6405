#include <cmath>
// Symbolic executor for LLVM IR.
#include "exec.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <bit>
#include <cstdio>
#include <cstring>
#include <deque>

namespace sx {
using namespace llvm;
static constexpr unsigned kSlotBits = 24;
static constexpr uint64_t kObjOff = 0x10000;
static constexpr uint64_t kFnBase = 0x7f0000000000ULL;

enum class OK : uint8_t { Global, Stack, Heap };
struct Obj {
  uint32_t refs = 0;
  uint64_t size = 0;
  OK kind = OK::Heap;
  uint8_t alive = 1;  // 0 freed, 1 alive, 2 scope ended
  bool writable = true;
  uint8_t family = 0;  // 1 malloc 2 new 3 new[]
  std::vector<T> b;    // nullptr = uninitialised
};
struct ObjRef {
  Obj* p = nullptr;
  ObjRef() = default;
  explicit ObjRef(Obj* o) : p(o) { if (p) ++p->refs; }
  ObjRef(const ObjRef& o) : p(o.p) { if (p) ++p->refs; }
  ObjRef(ObjRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef& operator=(ObjRef o) noexcept { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->refs == 0) delete p; }
};
struct Chunk { ObjRef o[128]; };
struct Mem {
  std::vector<std::shared_ptr<Chunk>> ch;
  uint64_t next = 1;
  Obj* get(uint64_t id) const { uint64_t c = id >> 7; return c < ch.size() && ch[c] ? ch[c]->o[id & 127].p : nullptr; }
  void set(uint64_t id, Obj* o) {
    uint64_t c = id >> 7;
    if (c >= ch.size()) ch.resize(c + 1);
    if (!ch[c]) ch[c] = std::make_shared<Chunk>();
    else if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]);
    ch[c]->o[id & 127] = ObjRef(o);
  }
  Obj* own(uint64_t id) {
    uint64_t c = id >> 7;
    if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]);
    ObjRef& r = ch[c]->o[id & 127];
    if (r.p->refs > 1) { Obj* n = new Obj(*r.p); n->refs = 0; r = ObjRef(n); }
    return r.p;
  }
};

struct Operand { int slot = -1; T k = nullptr; };
struct Fn;
struct Inst {
  const Instruction* I; unsigned opc; int dst = -1; unsigned w = 0;
  SmallVector<Operand, 3> ops;
  // gep
  uint64_t off = 0; SmallVector<std::pair<Operand, uint64_t>, 2> idx;
  Fn* callee = nullptr; int builtin = -1; Intrinsic::ID iid = 0;
};
struct Blk { std::vector<Inst> in; const BasicBlock* bb; unsigned nphi = 0; };
struct Fn {
  const Function* F; std::string name; std::vector<Blk> blk; DenseMap<const Value*, int> slots; DenseMap<const BasicBlock*, unsigned> bbi; unsigned nslots = 0; bool ready = false; uint64_t addr = 0;
};
struct Frame {
  Fn* fn; unsigned bb = 0, ip = 0, prev = 0; std::vector<T> regs; SmallVector<uint32_t, 8> allocas; SmallVector<std::pair<Term*, unsigned>, 0> va;
};
struct State {
  std::vector<Frame> st; Mem mem; std::vector<T> pc; Model wit;
  std::vector<InputRec> inputs; std::vector<uint64_t> trace;
  bool dead = false; int expectAbort = 0; int64_t liveHeap = 0; uint64_t insts = 0; T ret = nullptr;
  int64_t openAllocs = 0;
};

class Engine {
 public:
  explicit Engine(Module& m) : M(m), DL(m.getDataLayout()) { setup(); }
  void initGlobals();
  JobResult run(const JobSpec& spec);

 private:
  Module& M; const DataLayout& DL;
  std::map<const Function*, std::unique_ptr<Fn>> fns;
  std::unordered_map<uint64_t, Fn*> fnByAddr;
  DenseMap<const GlobalValue*, uint64_t> gaddr;
  std::vector<const GlobalVariable*> gById;  // id-1
  std::unordered_map<uint64_t, ObjRef> gInit;
  uint64_t nGlobals = 0;
  State base;
  JobResult* R = nullptr; const JobSpec* S = nullptr;
  std::vector<State> work;
  State* cur = nullptr;
  std::set<std::string> seenViol;
  std::unordered_map<std::string, int> builtins;
  bool inInit = false;

  void setup();
  unsigned widthOf(Type* t);
  Fn* getFn(const Function* F);
  void prepare(Fn* f);
  T constTerm(const Constant* c);
  void initBytes(const Constant* c, uint64_t off, std::vector<T>& b);
  Obj* obj(State& s, uint64_t id);
  Operand operand(Fn* f, const Value* v);
  T val(Frame& fr, const Operand& o) { if (o.slot >= 0) { T t = fr.regs[o.slot]; if (!t) { fail("use of undefined register"); } return t; } return o.k; }

  void fail(const char* m) { errs() << "engine: " << m << "\n"; abort(); }
  // memory
  uint64_t allocObj(State& s, uint64_t size, OK kind, bool zero = false);
  uint64_t baseOf(uint64_t id) { return (id << kSlotBits) + kObjOff; }
  bool addPc(State& s, T c);  // false: dead
  uint64_t concretize(State& s, T t, bool& dead);
  struct Loc { uint64_t id; T off; bool cst; uint64_t o; };
  bool resolve(State& s, T ptr, uint64_t n, bool write, Loc& loc, const char* what);
  T loadBytes(State& s, const Loc& l, uint64_t n);
  T byteAt(State& s, uint64_t id, uint64_t o);
  void storeBytes(State& s, const Loc& l, T v, uint64_t n);
  T loadTyped(State& s, T ptr, Type* t);
  void storeTyped(State& s, T ptr, T v, Type* t);
  bool splitPtr(State& s, T ptr, uint64_t n);
  // control
  std::string where(State& s);
  void violation(State& s, const std::string& kind, const std::string& msg, const Model& m);
  void kill(State& s) { s.dead = true; }
  void incomplete(State& s, const std::string& why) { R->incomplete[why]++; s.dead = true; }
  Sat feasible(State& s, T c, Model* m) { R->branchQ++; return solve(s.pc, c, m, &s.wit, S->qms); }
  int branch(State& s, T c);  // 1/0; forks
  void assertTrue(State& s, T c, const std::string& kind, const std::string& msg);
  std::string cstr(State& s, T p);
  void runState(State& s);
  void step(State& s);
  void jump(State& s, unsigned to);
  void call(State& s, Inst& in, Fn* f, const std::vector<T>& args);
  bool intrinsic(State& s, Inst& in, std::vector<T>& a, T& r);
  bool builtin(State& s, Inst& in, int b, std::vector<T>& a, T& r);
  void doAbort(State& s, const std::string& kind);
  T binop(unsigned opc, T a, T b, State& s);
  T fcmp(unsigned pred, T a, T b);
  T icmp(unsigned pred, T a, T b);
  T castOp(unsigned opc, T a, Type* from, Type* to);
  void finishPath(State& s);
  bool memcopy(State& s, T d, T src, T n, bool move);
  uint32_t choiceCount = 0;
};

enum B { B_malloc, B_calloc, B_realloc, B_free, B_new, B_newarr, B_delete, B_deletearr, B_memcpy, B_memmove, B_memset, B_memcmp, B_abort, B_exit,
  B_nop, B_guard_acq, B_guard_rel, B_throw, B_sx_make, B_sx_range, B_sx_choice, B_sx_assume, B_sx_assert, B_sx_fail, B_sx_cover, B_sx_expect, B_sx_conc,
  B_sx_param, B_sx_eq, B_sx_live, B_sx_trace, B_sx_issym, B_sx_prefer, B_sx_alias, B_sx_dead, B_sx_var, B_sx_print, B_sx_feasible, B_ret0, B_sx_havoc };

void Engine::setup() {
  auto add = [&](int b, std::initializer_list<const char*> n) { for (auto x : n) builtins[x] = b; };
  add(B_malloc, {"malloc"}); add(B_calloc, {"calloc"}); add(B_realloc, {"realloc"}); add(B_free, {"free"});
  add(B_new, {"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"}); add(B_newarr, {"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t"});
  add(B_delete, {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"});
  add(B_deletearr, {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"});
  add(B_memcpy, {"memcpy"}); add(B_memmove, {"memmove"}); add(B_memset, {"memset"}); add(B_memcmp, {"memcmp", "bcmp"});
  add(B_abort, {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__assert_fail", "__cxa_bad_cast", "__cxa_bad_typeid", "__cxa_throw_bad_array_new_length", "_ZSt21__glibcxx_assert_failPKciS0_S0_"});
  add(B_exit, {"exit", "_exit", "_Exit", "quick_exit"});
  add(B_nop, {"__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_guard_abort"});
  add(B_guard_acq, {"__cxa_guard_acquire"}); add(B_guard_rel, {"__cxa_guard_release"});
  add(B_throw, {"__cxa_throw", "__cxa_rethrow"});
  add(B_sx_make, {"sx_make"}); add(B_sx_range, {"sx_range"}); add(B_sx_choice, {"sx_choice"}); add(B_sx_assume, {"sx_assume"});
  add(B_sx_assert, {"sx_assert"}); add(B_sx_fail, {"sx_fail"}); add(B_sx_cover, {"sx_cover"}); add(B_sx_expect, {"sx_expect_abort"});
  add(B_sx_conc, {"sx_concretize"}); add(B_sx_param, {"sx_param"}); add(B_sx_eq, {"sx_assert_eq"}); add(B_sx_live, {"sx_live_allocs"});
  add(B_sx_trace, {"sx_trace"}); add(B_sx_issym, {"sx_is_symbolic"}); add(B_sx_prefer, {"sx_engine"}); add(B_sx_var, {"sx_u64"}); add(B_sx_print, {"sx_print"});
  add(B_sx_feasible, {"sx_feasible"}); add(B_sx_havoc, {"sx_havoc"});
  for (auto x : {"quick_exit", "exit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}) if (auto* f = M.getFunction(x); f && !f->isDeclaration()) builtins.erase(x);  // the harness has its own
  // global addresses
  for (auto& g : M.globals()) { gById.push_back(&g); gaddr[&g] = baseOf(++nGlobals); }
  uint64_t fa = kFnBase;
  for (auto& f : M.functions()) { gaddr[&f] = fa; Fn* x = getFn(&f); x->addr = fa; fnByAddr[fa] = x; fa += 16; }
  for (auto& a : M.aliases()) { auto* o = a.getAliaseeObject(); if (o) gaddr[&a] = gaddr[o]; }
  base.mem.next = nGlobals + 1;
}
unsigned Engine::widthOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isHalfTy()) return 16;
  if (t->isFP128Ty()) return 128;
  if (auto* st = dyn_cast<StructType>(t)) { unsigned w = 0; for (auto* e : st->elements()) w += widthOf(e); return w; }
  if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * widthOf(at->getElementType());
  if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * widthOf(vt->getElementType());
  return 0;
}
Fn* Engine::getFn(const Function* F) {
  auto& p = fns[F];
  if (!p) { p.reset(new Fn); p->F = F; p->name = F->getName().str(); }
  return p.get();
}
T Engine::constTerm(const Constant* c) {
  Type* t = c->getType(); unsigned w = widthOf(t);
  if (auto* ci = dyn_cast<ConstantInt>(c)) return mkConstBig(ci->getValue());
  if (auto* cf = dyn_cast<ConstantFP>(c)) return mkConstBig(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return mkConst(0, 64);
  if (isa<UndefValue>(c)) {  // undef and poison
    static std::map<unsigned, T> u;
    if (w == 0) return mkConst(0, 1);
    if (w > 64 || isa<PoisonValue>(c)) return mkConst(0, w);
    auto& x = u[w]; if (!x) x = mkVar("undef", w, true); return x;
  }
  if (isa<ConstantAggregateZero>(c)) return mkConst(0, w ? w : 1);
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    if (it != gaddr.end()) return mkConst(it->second, 64);
    return mkConst(0, 64);
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c) || isa<ConstantDataSequential>(c)) {
    std::vector<T> v; unsigned n = isa<ConstantDataSequential>(c) ? cast<ConstantDataSequential>(c)->getNumElements() : c->getNumOperands();
    for (int i = n - 1; i >= 0; --i) { Constant* e = c->getAggregateElement(i); if (widthOf(e->getType())) v.push_back(constTerm(e)); }
    return mkConcat(v);
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto A = [&](unsigned i) { return constTerm(ce->getOperand(i)); };
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt o(64, 0); if (g->accumulateConstantOffset(DL, o)) return mkAdd(A(0), mkConst(o.getZExtValue(), 64)); break; }
      case Instruction::PtrToInt: { T x = A(0); return w <= 64 ? mkTrunc(x, w) : mkZExt(x, w); }
      case Instruction::IntToPtr: { T x = A(0); return x->w < 64 ? mkZExt(x, 64) : mkTrunc(x, 64); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return A(0);
      case Instruction::Add: return mkAdd(A(0), A(1));
      case Instruction::Sub: return mkSub(A(0), A(1));
      case Instruction::Trunc: return mkTrunc(A(0), w);
      case Instruction::Xor: return mkXor(A(0), A(1));
      case Instruction::ICmp: return icmp(ce->getPredicate(), A(0), A(1));
      default: break;
    }
  }
  errs() << "unsupported constant: " << *c << "\n";
  return mkConst(0, w ? w : 1);
}
void Engine::initBytes(const Constant* c, uint64_t off, std::vector<T>& b) {
  if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { for (uint64_t i = 0, n = DL.getTypeStoreSize(c->getType()); i < n; ++i) b[off + i] = mkConst(0, 8); return; }
  if (isa<UndefValue>(c)) { return; }
  if (auto* ds = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL.getTypeAllocSize(ds->getElementType());
    for (unsigned i = 0; i < ds->getNumElements(); ++i) initBytes(ds->getElementAsConstant(i), off + i * es, b);
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL.getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) initBytes(cast<Constant>(cs->getOperand(i)), off + sl->getElementOffset(i), b);
    return;
  }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    uint64_t es = DL.getTypeAllocSize(c->getOperand(0)->getType());
    for (unsigned i = 0; i < c->getNumOperands(); ++i) initBytes(cast<Constant>(c->getOperand(i)), off + i * es, b);
    return;
  }
  T t = constTerm(c); unsigned n = (t->w + 7) / 8;
  if (t->w % 8) t = mkZExt(t, n * 8);
  for (unsigned i = 0; i < n; ++i) b[off + i] = mkExtract(t, 8 * i, 8);
}
Obj* Engine::obj(State& s, uint64_t id) {
  Obj* o = s.mem.get(id);
  if (o || id == 0 || id > nGlobals) return o;
  auto& g = gInit[id];
  if (!g.p) {
    auto* gv = gById[id - 1];
    Obj* n = new Obj; n->kind = OK::Global; n->size = DL.getTypeAllocSize(gv->getValueType()); n->writable = !gv->isConstant();
    n->b.assign(n->size, nullptr);
    if (gv->hasInitializer()) { for (auto& x : n->b) x = mkConst(0, 8); initBytes(gv->getInitializer(), 0, n->b); }
    else if (gv->isDeclaration()) { // external data: zero filled, not writable
      if (n->size == 0) { n->size = 256; n->b.assign(256, nullptr); }
      for (auto& x : n->b) x = mkConst(0, 8);
    }
    g = ObjRef(n);
  }
  s.mem.set(id, g.p);
  return g.p;
}
Operand Engine::operand(Fn* f, const Value* v) {
  Operand o;
  if (auto* c = dyn_cast<Constant>(v)) { o.k = constTerm(c); return o; }
  if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) { o.k = mkConst(0, 1); return o; }
  auto it = f->slots.find(v);
  if (it == f->slots.end()) { o.slot = f->nslots; f->slots[v] = f->nslots++; } else o.slot = it->second;
  return o;
}
void Engine::prepare(Fn* f) {
  f->ready = true;
  const Function* F = f->F;
  for (auto& a : F->args()) { f->slots[&a] = f->nslots++; }
  unsigned bi = 0;
  for (auto& bb : *F) f->bbi[&bb] = bi++;
  for (auto& bb : *F) {
    f->blk.emplace_back(); Blk& b = f->blk.back(); b.bb = &bb;
    for (auto& I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst in; in.I = &I; in.opc = I.getOpcode(); in.w = widthOf(I.getType());
      if (!I.getType()->isVoidTy()) in.dst = operand(f, &I).slot;
      if (isa<PHINode>(I)) { b.nphi++; for (unsigned i = 0; i < I.getNumOperands(); ++i) in.ops.push_back(operand(f, I.getOperand(i))); }
      else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        in.ops.push_back(operand(f, g->getPointerOperand()));
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
          Value* ix = gti.getOperand();
          if (StructType* st = gti.getStructTypeOrNull()) in.off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            uint64_t es = DL.getTypeAllocSize(gti.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(ix)) in.off += es * ci->getSExtValue();
            else in.idx.push_back({operand(f, ix), es});
          }
        }
      } else if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) in.ops.push_back(operand(f, a));
        const Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
        if (auto* cf = dyn_cast<Function>(cv)) {
          in.callee = getFn(cf); in.iid = cf->getIntrinsicID();
          auto it = builtins.find(cf->getName().str());
          if (it != builtins.end()) in.builtin = it->second;
          else if (cf->isDeclaration() && !in.iid) {
            StringRef n = cf->getName();
            if (n.starts_with("_ZSt") && n.contains("__throw_")) in.builtin = B_throw;
            else if (n.starts_with("__ubsan")) in.builtin = B_abort;
          }
        } else in.ops.push_back(operand(f, cv));
      } else for (auto& op : I.operands()) in.ops.push_back(operand(f, op));
      b.in.push_back(std::move(in));
    }
  }
}
uint64_t Engine::allocObj(State& s, uint64_t size, OK kind, bool zero) {
  uint64_t id = s.mem.next++;
  if (id >= (1u << 23)) { incomplete(s, "too many objects"); return 0; }
  Obj* o = new Obj; o->size = size; o->kind = kind; o->b.assign(size, zero ? mkConst(0, 8) : nullptr);
  s.mem.set(id, o);
  return id;
}
bool Engine::addPc(State& s, T c) {
  if (c->isConst()) { if (!c->c) s.dead = true; return c->c; }
  if (c->op == Op::And) { return addPc(s, c->a[0]) && addPc(s, c->a[1]); }
  for (T t : s.pc) if (t == c) return true;
  s.pc.push_back(c);
  return true;
}
std::string Engine::where(State& s) {
  std::string r; int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 8; --i) {
    Frame& f = s.st[i];
    if (n) r += " < ";
    std::string d = demangle(f.fn->name);
    if (d.size() > 90) d = d.substr(0, 90) + "...";
    r += d;
    const Instruction* I = f.fn->blk[f.bb].in[std::min<size_t>(f.ip, f.fn->blk[f.bb].in.size() - 1)].I;
    if (auto& dl = I->getDebugLoc()) { r += "@" + cast<DIScope>(dl.getScope())->getFilename().str() + ":" + std::to_string(dl.getLine()); }
    ++n;
  }
  return r;
}
void Engine::violation(State& s, const std::string& kind, const std::string& msg, const Model& m) {
  std::string w = where(s);
  if (!seenViol.insert(kind + "|" + msg + "|" + w).second) return;
  if (R->violations.size() >= 6) return;
  Violation v; v.kind = kind; v.msg = msg; v.where = w;
  for (auto& in : s.inputs) { std::vector<uint64_t> x; for (T t : in.vars) { Evaluator e(m); x.push_back(e.eval64(t)); } v.inputs.push_back({in.name, x}); }
  R->violations.push_back(v);
  if (getenv("SX_VERBOSE")) errs() << "VIOL " << kind << " " << msg << " at " << w << "\n";
}
uint64_t Engine::concretize(State& s, T t, bool& dead) {
  dead = false;
  if (t->isConst()) return t->c;
  for (T p : s.pc) if (p->op == Op::Eq && p->a[1] == t && p->a[0]->isConst()) return p->a[0]->c;
  Evaluator e(s.wit); uint64_t v = e.eval64(t);
  T eq = mkEq(t, mkConst(v, t->w)), ne = mkNot(eq);
  if (!ne->isConst(0)) {
    Model m; Sat r = feasible(s, ne, &m);
    if (r == Sat::Yes) { State o = s; addPc(o, ne); o.wit = m; work.push_back(std::move(o)); R->forks++; }
    else if (r == Sat::Unknown) R->incomplete["solver unknown (concretize)"]++;
  }
  addPc(s, eq);
  return v;
}
int Engine::branch(State& s, T c) {
  if (c->isConst()) return c->c;
  T n = mkNot(c);
  for (T p : s.pc) { if (p == c) return 1; if (p == n) return 0; }
  Evaluator e(s.wit); bool v = e.evalBool(c);
  T other = v ? n : c;
  Model m; Sat r = feasible(s, other, &m);
  if (r == Sat::Yes) {
    State o = s; addPc(o, other); o.wit = m; work.push_back(std::move(o)); R->forks++;
    addPc(s, v ? c : n);
  } else if (r == Sat::Unknown) { R->incomplete["solver unknown (branch)"]++; addPc(s, v ? c : n); }
  return v;
}
void Engine::assertTrue(State& s, T c, const std::string& kind, const std::string& msg) {
  R->asserts++;
  if (c->isConst(1)) { R->assertsConst++; return; }
  T n = mkNot(c);
  for (T p : s.pc) { if (p == c) return; }
  Model m = s.wit; Sat r;
  if (c->isConst(0)) r = Sat::Yes;
  else { Evaluator e(s.wit); if (!e.evalBool(c)) r = Sat::Yes; else r = feasible(s, n, &m); }
  if (r == Sat::Yes) {
    violation(s, kind, msg, m);
    // continue on the side where it holds, if any
    if (c->isConst(0)) { s.dead = true; return; }
    Evaluator e(s.wit);
    if (!e.evalBool(c)) { Model m2; if (feasible(s, c, &m2) != Sat::Yes) { s.dead = true; return; } s.wit = m2; }
    addPc(s, c);
  } else if (r == Sat::Unknown) { R->incomplete["solver unknown (assert)"]++; addPc(s, c); }
}
bool Engine::splitPtr(State& s, T ptr, uint64_t n) { return true; }

// Resolves a pointer to one object; forks for other candidates; reports out-of-bounds access.
bool Engine::resolve(State& s, T ptr, uint64_t n, bool write, Loc& loc, const char* what) {
  R->memChecks++;
  auto bad = [&](const std::string& why, const Model& m) { violation(s, "memory", std::string(what) + ": " + why, m); };
  auto describe = [&](uint64_t a, Obj* o) -> std::string {
    if (a < 0x10000) return "null pointer access";
    if (!o) return "access to no object";
    if (o->alive == 0) return o->kind == OK::Heap ? "use after free" : "use after return";
    if (o->alive == 2) return "use after scope";
    if (write && !o->writable) return "write to constant";
    return "out of bounds";
  };
  if (ptr->isConst()) {
    uint64_t a = ptr->c, id = a >> kSlotBits; Obj* o = a < (kFnBase) ? obj(s, id) : nullptr;
    uint64_t b = baseOf(id);
    if (!o || o->alive != 1 || a < b || a - b + n > o->size || (write && !o->writable)) { bad(describe(a, o), s.wit); s.dead = true; return false; }
    loc = {id, nullptr, true, a - b}; return true;
  }
  Evaluator e(s.wit); uint64_t a = e.eval64(ptr), id = a >> kSlotBits;
  Obj* o = a < kFnBase ? obj(s, id) : nullptr; uint64_t b = baseOf(id);
  bool ok = o && o->alive == 1 && a >= b && a - b + n <= o->size && !(write && !o->writable);
  if (!ok) {
    bad(describe(a, o), s.wit);
    // try to go on with a different, valid object
    T same = mkEq(mkExtract(ptr, kSlotBits, 64 - kSlotBits), mkConst(id, 64 - kSlotBits));
    T in = o && o->alive == 1 && o->size >= n ? mkUle(mkSub(ptr, mkConst(b, 64)), mkConst(o->size - n, 64)) : mkBool(false);
    T rest = mkOr(in, mkNot(same)); Model m;
    if (rest->isConst(0) || feasible(s, rest, &m) != Sat::Yes) { s.dead = true; return false; }
    s.wit = m; addPc(s, rest);
    return resolve(s, ptr, n, write, loc, what);
  }
  T off = mkSub(ptr, mkConst(b, 64));
  T in = mkUle(off, mkConst(o->size - n, 64));
  if (!in->isConst(1)) {
    bool known = false; for (T p : s.pc) if (p == in) known = true;
    if (!known) {
      Model m; Sat r = feasible(s, mkNot(in), &m);
      if (r == Sat::Yes) { State o2 = s; addPc(o2, mkNot(in)); o2.wit = m; work.push_back(std::move(o2)); R->forks++; addPc(s, in); }
      else if (r == Sat::Unknown) { R->incomplete["solver unknown (address)"]++; addPc(s, in); }
    }
  }
  if (off->isConst()) loc = {id, nullptr, true, off->c};
  else loc = {id, off, false, 0};
  return true;
}
T Engine::byteAt(State& s, uint64_t id, uint64_t o) {
  Obj* x = s.mem.get(id);
  T t = x->b[o];
  if (!t) { t = mkVar("uninit", 8, true); s.mem.own(id)->b[o] = t; }
  return t;
}
static void offRange(T off, uint64_t size, uint64_t n, uint64_t& lo, uint64_t& hi, uint64_t& step) {
  lo = off->umin; hi = std::min(off->umax, size - n);
  unsigned tz = std::countr_one(off->kz); step = 1ULL << std::min(tz, 12u);
  lo = (lo + step - 1) / step * step;
}
// Words stored to memory whose bytes simplify individually: reading the same bytes back gives the word again.
static std::unordered_map<uint64_t, std::vector<T>> gWords;
static uint64_t wordKey(const T* lsbFirst, uint64_t n) { uint64_t h = n; for (uint64_t i = 0; i < n; ++i) h = (h ^ lsbFirst[i]->id) * 0x9E3779B97F4A7C15ULL, h ^= h >> 29; return h; }
static void noteWord(T v, const T* b, uint64_t n) {
  if (n < 2 || n > 16 || v->isConst() || v->op == Op::Concat || v->w != 8 * n) return;
  bool plain = true; for (uint64_t i = 0; i < n; ++i) plain &= b[i]->op == Op::Extract && b[i]->a[0] == v;
  if (plain) return;
  auto& e = gWords[wordKey(b, n)];
  if (e.empty()) { e.push_back(v); e.insert(e.end(), b, b + n); }
}
static T findWord(const std::vector<T>& msbFirst) {
  uint64_t n = msbFirst.size(); if (n < 2 || n > 16 || gWords.empty()) return nullptr;
  T b[16]; for (uint64_t i = 0; i < n; ++i) { b[i] = msbFirst[n - 1 - i]; if (b[i]->w != 8) return nullptr; }
  auto it = gWords.find(wordKey(b, n)); if (it == gWords.end() || it->second.size() != n + 1) return nullptr;
  for (uint64_t i = 0; i < n; ++i) if (it->second[i + 1] != b[i]) return nullptr;
  return it->second[0];
}
T Engine::loadBytes(State& s, const Loc& l, uint64_t n) {
  if (l.cst) {
    Obj* x = s.mem.get(l.id);
    if (n <= 8) {
      uint64_t v = 0; bool cst = true;
      for (uint64_t i = 0; i < n && cst; ++i) { T t = x->b[l.o + i]; if (t && t->isConst()) v |= t->c << (8 * i); else cst = false; }
      if (cst) return mkConst(v, 8 * n);
    }
    std::vector<T> v(n);
    for (uint64_t i = 0; i < n; ++i) v[n - 1 - i] = byteAt(s, l.id, l.o + i);
    if (n == 1) return v[0];
    if (T w = findWord(v)) return w;
    return mkConcat(v);
  }
  uint64_t lo, hi, step; Obj* x = s.mem.get(l.id); offRange(l.off, x->size, n, lo, hi, step);
  if (hi < lo) { s.dead = true; return nullptr; }
  uint64_t cnt = (hi - lo) / step + 1;
  std::vector<T> leaf(cnt);
  for (uint64_t i = 0; i < cnt; ++i) { Loc k{l.id, nullptr, true, lo + i * step}; leaf[i] = loadBytes(s, k, n); }
  std::function<T(uint64_t, uint64_t)> mux = [&](uint64_t a, uint64_t b) -> T {
    if (a == b) return leaf[a];
    uint64_t m = (a + b) / 2;
    T L = mux(a, m), Rr = mux(m + 1, b);
    if (L == Rr) return L;
    return mkIte(mkUlt(l.off, mkConst(lo + (m + 1) * step, 64)), L, Rr);
  };
  return mux(0, cnt - 1);
}
void Engine::storeBytes(State& s, const Loc& l, T v, uint64_t n) {
  Obj* x = s.mem.own(l.id);
  if (l.cst) {
    if (v->isConst() && v->w <= 64) for (uint64_t i = 0; i < n; ++i) x->b[l.o + i] = mkConst((v->c >> (8 * i)) & 255, 8);
    else { for (uint64_t i = 0; i < n; ++i) x->b[l.o + i] = mkExtract(v, 8 * i, 8); noteWord(v, &x->b[l.o], n); }
    return;
  }
  uint64_t lo, hi, step; offRange(l.off, x->size, n, lo, hi, step);
  std::vector<T> vb(n); for (uint64_t i = 0; i < n; ++i) vb[i] = mkExtract(v, 8 * i, 8);
  std::vector<T> nb = x->b;
  for (uint64_t o = lo; o <= hi; o += step) {
    T c = mkEq(l.off, mkConst(o, 64));
    if (c->isConst(0)) continue;
    for (uint64_t i = 0; i < n; ++i) {
      T old = nb[o + i]; if (!old) old = mkVar("uninit", 8, true);
      nb[o + i] = mkIte(c, vb[i], old);
    }
  }
  x->b = std::move(nb);
}
T Engine::loadTyped(State& s, T ptr, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL.getStructLayout(st); std::vector<T> v;
    for (unsigned i = 0; i < st->getNumElements(); ++i) { if (!widthOf(st->getElementType(i))) continue; T x = loadTyped(s, mkAdd(ptr, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i)); if (!x) return nullptr; v.insert(v.begin(), x); }
    return v.empty() ? mkConst(0, 1) : mkConcat(v);
  }
  if (t->isArrayTy()) {
    auto* at = cast<ArrayType>(t); uint64_t es = DL.getTypeAllocSize(at->getElementType()); std::vector<T> v;
    for (unsigned i = 0; i < at->getNumElements(); ++i) { T x = loadTyped(s, mkAdd(ptr, mkConst(es * i, 64)), at->getElementType()); if (!x) return nullptr; v.insert(v.begin(), x); }
    return v.empty() ? mkConst(0, 1) : mkConcat(v);
  }
  unsigned w = widthOf(t); uint64_t n = (w + 7) / 8;
  Loc l; if (!resolve(s, ptr, n, false, l, "load")) return nullptr;
  T v = loadBytes(s, l, n);
  if (!v) return nullptr;
  return v->w == w ? v : mkTrunc(v, w);
}
void Engine::storeTyped(State& s, T ptr, T v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL.getStructLayout(st); unsigned p = 0;
    for (unsigned i = 0; i < st->getNumElements(); ++i) { unsigned w = widthOf(st->getElementType(i)); if (!w) continue; storeTyped(s, mkAdd(ptr, mkConst(sl->getElementOffset(i), 64)), mkExtract(v, p, w), st->getElementType(i)); if (s.dead) return; p += w; }
    return;
  }
  if (t->isArrayTy()) {
    auto* at = cast<ArrayType>(t); uint64_t es = DL.getTypeAllocSize(at->getElementType()); unsigned w = widthOf(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); ++i) { storeTyped(s, mkAdd(ptr, mkConst(es * i, 64)), mkExtract(v, i * w, w), at->getElementType()); if (s.dead) return; }
    return;
  }
  unsigned w = widthOf(t); uint64_t n = (w + 7) / 8;
  Loc l; if (!resolve(s, ptr, n, true, l, "store")) return;
  if (v->w < n * 8) v = mkZExt(v, n * 8);
  storeBytes(s, l, v, n);
}
bool Engine::memcopy(State& s, T d, T src, T n, bool move) {
  bool dead; uint64_t len = concretize(s, n, dead);
  if (len == 0) return true;
  if (len > (1u << 23)) { violation(s, "memory", "copy of huge length", s.wit); s.dead = true; return false; }
  Loc a, b;
  if (!resolve(s, src, len, false, a, "copy source")) return false;
  if (!resolve(s, d, len, true, b, "copy destination")) return false;
  auto fix = [&](Loc& l) { if (!l.cst) { bool dd; l.o = concretize(s, l.off, dd); l.cst = true; } };
  fix(a); fix(b);
  Obj* so = s.mem.get(a.id);
  std::vector<T> tmp(so->b.begin() + a.o, so->b.begin() + a.o + len);
  Obj* dst = s.mem.own(b.id);
  if (!move && a.id == b.id && a.o != b.o && a.o < b.o + len && b.o < a.o + len) { violation(s, "memory", "memcpy overlap", s.wit); s.dead = true; return false; }
  std::copy(tmp.begin(), tmp.end(), dst->b.begin() + b.o);
  return true;
}
std::string Engine::cstr(State& s, T p) {
  std::string r; if (!p->isConst()) return "?";
  uint64_t a = p->c; Obj* o = obj(s, a >> kSlotBits); if (!o) return "?";
  for (uint64_t i = a - baseOf(a >> kSlotBits); i < o->size; ++i) { T t = o->b[i]; if (!t || !t->isConst() || !t->c) break; r.push_back((char)t->c); }
  return r;
}
T Engine::icmp(unsigned p, T a, T b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNe(a, b);
    case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b);
    case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a);
    case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SLE: return mkSle(a, b);
    case CmpInst::ICMP_SGT: return mkSlt(b, a); default: return mkSle(b, a);
  }
}
T Engine::fcmp(unsigned p, T a, T b) {
  unsigned w = a->w;
  unsigned mb = w == 32 ? 23 : w == 64 ? 52 : w == 80 ? 63 : w == 16 ? 10 : 112;  // fraction bits
  unsigned eb = w == 32 ? 8 : w == 64 ? 11 : w == 16 ? 5 : 15;
  auto nan = [&](T x) {
    T e = mkExtract(x, w - 1 - eb, eb), f = mkExtract(x, 0, mb);
    return mkAnd(mkEq(e, mkConstBig(APInt::getAllOnes(eb))), mkNe(f, mkConst(0, mb)));
  };
  T mag = nullptr; (void)mag;
  auto key = [&](T x) { return mkExtract(x, 0, w - 1); };
  T ka = key(a), kb = key(b), sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
  T zero = mkConst(0, w - 1);
  T za = mkEq(ka, zero), zb = mkEq(kb, zero), both0 = mkAnd(za, zb);
  T eq = mkOr(both0, mkEq(a, b));
  auto lt = [&](T sx_, T kx, T sy, T ky) {  // ordered less, no NaN
    T pp = mkAnd(mkAnd(mkNot(sx_), mkNot(sy)), mkUlt(kx, ky));
    T nn = mkAnd(mkAnd(sx_, sy), mkUlt(ky, kx));
    T np = mkAnd(mkAnd(sx_, mkNot(sy)), mkNot(both0));
    return mkOr(np, mkOr(pp, nn));
  };
  T un = mkOr(nan(a), nan(b)), l = lt(sa, ka, sb, kb), g = lt(sb, kb, sa, ka);
  T r; bool unord = false;
  switch (p) {
    case CmpInst::FCMP_FALSE: return mkBool(false); case CmpInst::FCMP_TRUE: return mkBool(true);
    case CmpInst::FCMP_ORD: return mkNot(un); case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: unord = true; [[fallthrough]]; case CmpInst::FCMP_OEQ: r = eq; break;
    case CmpInst::FCMP_UGT: unord = true; [[fallthrough]]; case CmpInst::FCMP_OGT: r = g; break;
    case CmpInst::FCMP_UGE: unord = true; [[fallthrough]]; case CmpInst::FCMP_OGE: r = mkOr(g, eq); break;
    case CmpInst::FCMP_ULT: unord = true; [[fallthrough]]; case CmpInst::FCMP_OLT: r = l; break;
    case CmpInst::FCMP_ULE: unord = true; [[fallthrough]]; case CmpInst::FCMP_OLE: r = mkOr(l, eq); break;
    case CmpInst::FCMP_UNE: unord = true; [[fallthrough]]; default: r = mkNot(eq); break;
  }
  return unord ? mkOr(un, r) : mkAnd(mkNot(un), r);
}
T Engine::binop(unsigned opc, T a, T b, State& s) {
  switch (opc) {
    case Instruction::Add: return mkAdd(a, b); case Instruction::Sub: return mkSub(a, b); case Instruction::Mul: return mkMul(a, b);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      T z = mkConst(0, b->w);
      assertTrue(s, mkNe(b, z), "ub", "division by zero");
      if (s.dead) return z;
      return opc == Instruction::UDiv ? mkUDiv(a, b) : opc == Instruction::SDiv ? mkSDiv(a, b) : opc == Instruction::URem ? mkURem(a, b) : mkSRem(a, b);
    }
    case Instruction::And: return mkAnd(a, b); case Instruction::Or: return mkOr(a, b); case Instruction::Xor: return mkXor(a, b);
    case Instruction::Shl: return mkShl(a, b); case Instruction::LShr: return mkLShr(a, b); case Instruction::AShr: return mkAShr(a, b);
    case Instruction::FAdd: return mkFloat(Op::FAdd, a->w, {a, b}); case Instruction::FSub: return mkFloat(Op::FSub, a->w, {a, b});
    case Instruction::FMul: return mkFloat(Op::FMul, a->w, {a, b}); case Instruction::FDiv: return mkFloat(Op::FDiv, a->w, {a, b});
    default: incomplete(s, std::string("binop ") + Instruction::getOpcodeName(opc)); return mkConst(0, a->w);
  }
}
// Exact conversions into a wider format (every integer or float that fits the fraction), as plain bit operations.
static void fmt(unsigned w, unsigned& eb, unsigned& mb) { eb = w == 32 ? 8 : w == 64 ? 11 : 15; mb = w == 32 ? 23 : w == 64 ? 52 : w == 80 ? 63 : 112; }
static T packF(unsigned w, T sign, T exp, T frac, T one) {  // `one`: the integer bit of the 80 bit format
  return w == 80 ? mkConcat({sign, exp, one, frac}) : mkConcat({sign, exp, frac});
}
static T shiftOut(T m, T& lz, unsigned ew) {  // shifts left until the top bit is set (or m is zero) and counts
  unsigned n = m->w; lz = mkConst(0, ew); unsigned k = 1; while (k * 2 < n) k *= 2;
  for (; k; k /= 2) { if (k >= n) continue; T z = mkEq(mkExtract(m, n - k, k), mkConst(0, k)); m = mkIte(z, mkConcat2(mkExtract(m, 0, n - k), mkConst(0, k)), m); lz = mkIte(z, mkAdd(lz, mkConst(k, ew)), lz); }
  return m;
}
static T intToF(T a, bool sgn, unsigned w) {
  unsigned eb, mb; fmt(w, eb, mb); unsigned n = mb + 1; T sign = sgn ? mkExtract(a, a->w - 1, 1) : mkConst(0, 1);
  T mag = sgn ? mkIte(sign, mkSub(mkConst(0, a->w), a), a) : a; mag = mkZExt(mag, n);
  T lz, m = shiftOut(mag, lz, eb), z = mkEq(mag, mkConst(0, n)); unsigned bias = (1U << (eb - 1)) - 1;
  T e = mkIte(z, mkConst(0, eb), mkSub(mkConst(bias + n - 1, eb), lz));
  return packF(w, sign, e, mkExtract(m, 0, mb), mkNot(z));
}
static T widenF(T a, unsigned w) {
  unsigned eb, mb, EB, MB; fmt(a->w, eb, mb); fmt(w, EB, MB); T sign = mkExtract(a, a->w - 1, 1), e = mkExtract(a, mb, eb), f = mkExtract(a, 0, mb);
  unsigned bias = (1U << (eb - 1)) - 1, BIAS = (1U << (EB - 1)) - 1;
  auto up = [&](T x) { return mkConcat2(x, mkConst(0, MB - mb)); };
  T f0 = mkEq(f, mkConst(0, mb)), e0 = mkEq(e, mkConst(0, eb)), e1 = mkEq(e, mkConstBig(APInt::getAllOnes(eb)));
  T lz, m = shiftOut(f, lz, EB); m = mkConcat2(mkExtract(m, 0, mb - 1), mkConst(0, 1));
  T E = mkIte(e1, mkConstBig(APInt::getAllOnes(EB)), mkIte(e0, mkIte(f0, mkConst(0, EB), mkSub(mkConst(BIAS - bias, EB), lz)), mkAdd(mkZExt(e, EB), mkConst(BIAS - bias, EB))));
  T quiet = mkIte(mkAnd(e1, mkNot(f0)), mkConcat2(mkConst(1, 1), mkConst(0, MB - 1)), mkConst(0, MB));
  T F = mkOr(mkIte(e0, up(m), up(f)), quiet);
  return packF(w, sign, E, F, mkNot(mkAnd(e0, f0)));
}
T Engine::castOp(unsigned opc, T a, Type* from, Type* to) {
  unsigned w = widthOf(to);
  switch (opc) {
    case Instruction::FPExt: if ((a->w == 32 || a->w == 64) && (w == 64 || w == 80)) return widenF(a, w); break;
    case Instruction::SIToFP: case Instruction::UIToFP: if (a->w > 1 && ((w == 64 && a->w <= 53) || (w == 80 && a->w <= 64))) return intToF(a, opc == Instruction::SIToFP, w); break;
    default: break;
  }
  switch (opc) {
    case Instruction::ZExt: return mkZExt(a, w); case Instruction::SExt: return mkSExt(a, w); case Instruction::Trunc: return mkTrunc(a, w);
    case Instruction::PtrToInt: return w <= a->w ? mkTrunc(a, w) : mkZExt(a, w);
    case Instruction::IntToPtr: return a->w <= 64 ? mkZExt(a, 64) : mkTrunc(a, 64);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::FPExt: case Instruction::FPTrunc: return mkFloat(Op::FConv, w, {a});
    case Instruction::SIToFP: return mkFloat(Op::SIToFP, w, {a}); case Instruction::UIToFP: return mkFloat(Op::UIToFP, w, {a});
    case Instruction::FPToSI: return mkFloat(Op::FPToSI, w, {a}); case Instruction::FPToUI: return mkFloat(Op::FPToUI, w, {a});
  }
  return nullptr;
}
void Engine::doAbort(State& s, const std::string& kind) {
  if (s.expectAbort) { R->aborts++; s.dead = true; return; }
  violation(s, "abort", kind, s.wit); s.dead = true;
}
void Engine::jump(State& s, unsigned to) {
  Frame& f = s.st.back(); Blk& b = f.fn->blk[to]; const BasicBlock* from = f.fn->blk[f.bb].bb;
  if (b.nphi) {
    SmallVector<T, 8> v;
    for (unsigned i = 0; i < b.nphi; ++i) { auto* p = cast<PHINode>(b.in[i].I); v.push_back(val(f, b.in[i].ops[p->getBasicBlockIndex(from)])); }
    for (unsigned i = 0; i < b.nphi; ++i) f.regs[b.in[i].dst] = v[i];
  }
  f.prev = f.bb; f.bb = to; f.ip = b.nphi;
}
void Engine::call(State& s, Inst& in, Fn* f, const std::vector<T>& args) {
  if (!f->ready) prepare(f);
  if (s.st.size() > 4000) { incomplete(s, "call depth"); return; }
  R->functions.insert(f->name);
  Frame fr; fr.fn = f; fr.regs.assign(f->nslots, nullptr);
  unsigned n = f->F->arg_size();
  auto* cb = in.I ? dyn_cast<CallBase>(in.I) : nullptr;
  for (unsigned i = 0; i < n && i < args.size(); ++i) {
    T v = args[i];
    if (cb && cb->isByValArgument(i)) {
      Type* bt = cb->getParamByValType(i); uint64_t sz = DL.getTypeAllocSize(bt);
      uint64_t id = allocObj(s, sz, OK::Stack); T p = mkConst(baseOf(id), 64);
      if (!memcopy(s, p, v, mkConst(sz, 64), true)) return;
      fr.allocas.push_back(id); v = p;
    }
    fr.regs[i] = v;
  }
  if (args.size() < n) { incomplete(s, "call with too few arguments"); return; }
  s.st.push_back(std::move(fr));
}
bool Engine::builtin(State& s, Inst& in, int b, std::vector<T>& a, T& r) {
  bool dead = false;
  auto alloc = [&](T n, int fam, bool zero) -> T {
    uint64_t sz = concretize(s, n, dead);
    if (sz > (1u << 23)) { incomplete(s, "allocation too large"); return mkConst(0, 64); }
    uint64_t id = allocObj(s, sz, OK::Heap, zero); s.mem.get(id)->family = fam; s.openAllocs++;
    return mkConst(baseOf(id), 64);
  };
  auto dealloc = [&](T p, int fam) {
    uint64_t v = concretize(s, p, dead);
    if (!v) return;
    Obj* o = obj(s, v >> kSlotBits);
    if (!o || o->kind != OK::Heap || v != baseOf(v >> kSlotBits)) { violation(s, "memory", "invalid free", s.wit); s.dead = true; return; }
    if (o->alive != 1) { violation(s, "memory", "double free", s.wit); s.dead = true; return; }
    if (o->family != fam) { violation(s, "memory", "mismatched allocation and deallocation", s.wit); s.dead = true; return; }
    Obj* w = s.mem.own(v >> kSlotBits); w->alive = 0; w->b.clear(); w->b.shrink_to_fit(); s.openAllocs--;
  };
  switch (b) {
    case B_malloc: r = alloc(a[0], 1, false); return true;
    case B_calloc: r = alloc(mkMul(a[0], a[1]), 1, true); return true;
    case B_new: r = alloc(a[0], 2, false); return true;
    case B_newarr: r = alloc(a[0], 3, false); return true;
    case B_realloc: {
      T np = alloc(a[1], 1, false); if (s.dead) return true;
      uint64_t v = concretize(s, a[0], dead);
      if (v) { Obj* o = obj(s, v >> kSlotBits); if (!o || o->alive != 1) { violation(s, "memory", "realloc of dead object", s.wit); s.dead = true; return true; }
        uint64_t len = std::min<uint64_t>(o->size, s.mem.get(np->c >> kSlotBits)->size);
        memcopy(s, np, a[0], mkConst(len, 64), true); dealloc(a[0], 1); }
      r = np; return true;
    }
    case B_free: dealloc(a[0], 1); return true;
    case B_delete: dealloc(a[0], 2); return true;
    case B_deletearr: dealloc(a[0], 3); return true;
    case B_memcpy: memcopy(s, a[0], a[1], a[2], false); r = a[0]; return true;
    case B_memmove: memcopy(s, a[0], a[1], a[2], true); r = a[0]; return true;
    case B_memset: {
      uint64_t len = concretize(s, a[2], dead); r = a[0];
      if (!len) return true;
      Loc l; if (!resolve(s, a[0], len, true, l, "memset")) return true;
      if (!l.cst) { l.o = concretize(s, l.off, dead); l.cst = true; }
      Obj* o = s.mem.own(l.id); T v = mkTrunc(a[1], 8);
      for (uint64_t i = 0; i < len; ++i) o->b[l.o + i] = v;
      return true;
    }
    case B_memcmp: {
      uint64_t len = concretize(s, a[2], dead);
      if (!len) { r = mkConst(0, 32); return true; }
      Loc x, y; if (!resolve(s, a[0], len, false, x, "memcmp")) return true; if (!resolve(s, a[1], len, false, y, "memcmp")) return true;
      if (!x.cst) { x.o = concretize(s, x.off, dead); x.cst = true; }
      if (!y.cst) { y.o = concretize(s, y.off, dead); y.cst = true; }
      T res = mkConst(0, 32);
      for (int64_t i = len - 1; i >= 0; --i) {
        T p = byteAt(s, x.id, x.o + i), q = byteAt(s, y.id, y.o + i);
        res = mkIte(mkEq(p, q), res, mkIte(mkUlt(p, q), mkConst(~0ULL, 32), mkConst(1, 32)));
      }
      r = res; return true;
    }
    case B_abort: doAbort(s, demangle(in.callee->name)); return true;
    case B_throw: doAbort(s, "throw: " + demangle(in.callee->name)); return true;
    case B_exit: doAbort(s, "exit called"); return true;
    case B_nop: case B_ret0: if (in.w) r = mkConst(0, in.w); return true;
    case B_guard_acq: {
      Loc l; if (!resolve(s, a[0], 1, true, l, "guard")) return true;
      T v = loadBytes(s, l, 1); r = mkZExt(mkEq(v, mkConst(0, 8)), 32); return true;
    }
    case B_guard_rel: { Loc l; if (!resolve(s, a[0], 1, true, l, "guard")) return true; storeBytes(s, l, mkConst(1, 8), 1); return true; }
    case B_sx_make: {
      uint64_t n = a[1]->c; std::string nm = cstr(s, a[2]);
      if (!n) return true;
      Loc l; if (!resolve(s, a[0], n, true, l, "sx_make")) return true;
      Obj* o = s.mem.own(l.id); InputRec rec; rec.name = nm;
      for (uint64_t i = 0; i < n; ++i) { T v = mkVar(nm, 8); o->b[l.o + i] = v; rec.vars.push_back(v); }
      s.inputs.push_back(rec); s.wit.v.resize(gVars.size(), 0);
      return true;
    }
    case B_sx_havoc: {  // arbitrary bytes that are not an input (environment garbage)
      uint64_t n = a[1]->c; if (!n) return true;
      Loc l; if (!resolve(s, a[0], n, true, l, "sx_havoc")) return true;
      Obj* o = s.mem.own(l.id);
      for (uint64_t i = 0; i < n; ++i) o->b[l.o + i] = mkVar("havoc", 8, true);
      return true;
    }
    case B_sx_var: { T v = mkVar(cstr(s, a[0]), 64); s.inputs.push_back({cstr(s, a[0]), {v}}); s.wit.v.resize(gVars.size(), 0); r = v; return true; }
    case B_sx_range: {  // [lo, hi]
      uint64_t lo = a[0]->c, hi = a[1]->c; std::string nm = cstr(s, a[2]);
      if (lo >= hi) { r = mkConst(lo, 64); return true; }
      unsigned k = 64 - std::countl_zero(hi - lo);
      T v = mkVar(nm, k); T x = mkAdd(mkZExt(v, 64), mkConst(lo, 64));
      s.inputs.push_back({nm, {x}}); s.wit.v.resize(gVars.size(), 0);
      if ((hi - lo) != maskw(k)) { addPc(s, mkUle(v, mkConst(hi - lo, k))); }  // witness 0 satisfies it
      r = x; return true;
    }
    case B_sx_choice: {  // fork into every value 0..n-1
      uint64_t n = concretize(s, a[0], dead); std::string nm = cstr(s, a[1]);
      if (n == 0) { s.dead = true; return true; }
      for (uint64_t i = n - 1; i >= 1; --i) {
        State o = s; Frame& f = o.st.back();
        o.inputs.push_back({nm, {mkConst(i, 64)}});
        f.regs[in.dst] = mkConst(i, 64); f.ip++;
        work.push_back(std::move(o)); R->forks++;
      }
      s.inputs.push_back({nm, {mkConst(0, 64)}});
      r = mkConst(0, 64); return true;
    }
    case B_sx_assume: {
      T c = mkNe(a[0], mkConst(0, a[0]->w));
      if (c->isConst()) { if (!c->c) { R->assumed++; s.dead = true; } return true; }
      Evaluator e(s.wit);
      if (!e.evalBool(c)) { Model m; Sat q = feasible(s, c, &m); if (q != Sat::Yes) { if (q == Sat::Unknown) R->incomplete["solver unknown (assume)"]++; R->assumed++; s.dead = true; return true; } s.wit = m; }
      addPc(s, c); return true;
    }
    case B_sx_assert: assertTrue(s, mkNe(a[0], mkConst(0, a[0]->w)), "assert", cstr(s, a[1])); return true;
    case B_sx_fail: assertTrue(s, mkBool(false), "assert", cstr(s, a[0])); return true;
    case B_sx_cover: R->covers.insert(cstr(s, a[0])); return true;
    case B_sx_expect: s.expectAbort = a[0]->isConst() ? (int)a[0]->c : 0; return true;
    case B_sx_conc: { uint64_t v = concretize(s, a[0], dead); r = mkConst(v, 64); return true; }
    case B_sx_param: { uint64_t i = a[0]->c; r = mkConst(i < S->params.size() ? S->params[i] : 0, 64); return true; }
    case B_sx_live: r = mkConst(s.openAllocs, 64); return true;
    case B_sx_trace: {
      Evaluator e(s.wit); s.trace.push_back(e.eval64(a[0])); return true;
    }
    case B_sx_issym: r = mkConst(!a[0]->isConst(), 32); return true;
    case B_sx_prefer: r = mkConst(1, 32); return true;
    case B_sx_print: errs() << "sx_print " << cstr(s, a[0]) << " " << termStr(a[1], 6) << "\n"; return true;
    case B_sx_feasible: {
      T c = mkNe(a[0], mkConst(0, a[0]->w)); Model m;
      bool ok = false; if (!c->isConst()) { Evaluator e(s.wit); ok = e.evalBool(c); }
      for (int i = 0; i < 16 && !ok && !c->isConst(); ++i) {  // cheap random models before the solver
        m = s.wit; if (m.v.size() < gVars.size()) m.v.resize(gVars.size(), 0); uint64_t x = 0x9E3779B97F4A7C15ULL * (i + 1);
        for (size_t k = 0; k < gVars.size(); ++k) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; m.v[k] = gVars[k].w < 64 ? x & ((1ULL << gVars[k].w) - 1) : x; }
        Evaluator e(m); bool all = e.evalBool(c); for (T p : s.pc) if (!all || !(all = e.evalBool(p))) break; ok = all;
      }
      r = mkConst(c->isConst() ? c->c : (ok || feasible(s, c, &m) != Sat::No), 32); return true;
    }
    case B_sx_eq: {
      uint64_t n = a[2]->c; std::string msg = cstr(s, a[3]);
      if (!n) return true;
      Loc x, y; if (!resolve(s, a[0], n, false, x, "assert_eq")) return true; if (!resolve(s, a[1], n, false, y, "assert_eq")) return true;
      std::vector<std::pair<T, T>> goals;
      for (uint64_t i = 0; i < n;) { uint64_t k = std::min<uint64_t>(8, n - i); Loc p{x.id, nullptr, true, x.o + i}, q{y.id, nullptr, true, y.o + i}; goals.push_back({loadBytes(s, p, k), loadBytes(s, q, k)}); i += k; }
      R->asserts++; R->eqPairs += goals.size();
      SweepStats st; Model cex = s.wit;
      EqRes q = proveEqual(goals, s.pc, &cex, &s.wit, st, 120);
      R->eqStruct += st.structural; R->eqSwept += st.swept; R->sweepQueries += st.queries;
      if (q == EqRes::Refuted) { violation(s, "assert", msg, cex); s.dead = true; }
      else if (q == EqRes::Unknown) R->incomplete["equivalence not decided: " + msg]++;
      return true;
    }
  }
  return false;
}
bool Engine::intrinsic(State& s, Inst& in, std::vector<T>& a, T& r) {
  bool dead;
  switch (in.iid) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: memcopy(s, a[0], a[1], a[2], true); return true;
    case Intrinsic::memmove: memcopy(s, a[0], a[1], a[2], true); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: { T x; std::vector<T> b{a[0], mkZExt(mkTrunc(a[1], 8), 32), a[2]->w < 64 ? mkZExt(a[2], 64) : a[2]}; return builtin(s, in, B_memset, b, x); }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
      T p = a[1]; if (!p->isConst()) return true;
      uint64_t id = p->c >> kSlotBits; Obj* o = obj(s, id);
      if (!o || o->kind != OK::Stack || p->c != baseOf(id)) return true;
      o = s.mem.own(id);
      if (in.iid == Intrinsic::lifetime_start) { o->alive = 1; o->b.assign(o->size, nullptr); } else o->alive = 2;
      return true;
    }
    case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end:
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::var_annotation: case Intrinsic::stackrestore: return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: r = mkConst(0, 64); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
    case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::threadlocal_address: r = a[0]; return true;
    case Intrinsic::is_constant: r = mkBool(false); return true;
    case Intrinsic::objectsize: r = mkConst(~0ULL, in.w); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: doAbort(s, "trap"); return true;
    case Intrinsic::ubsantrap: {
      static const char* nm[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type-mismatch", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment-assumption", "vla-bound-not-positive"};
      uint64_t k = a[0]->c; violation(s, "ub", std::string("undefined behaviour: ") + (k < sizeof(nm) / sizeof(*nm) ? nm[k] : "?"), s.wit); s.dead = true; return true;
    }
    case Intrinsic::umin: r = mkIte(mkUlt(a[0], a[1]), a[0], a[1]); return true;
    case Intrinsic::umax: r = mkIte(mkUlt(a[0], a[1]), a[1], a[0]); return true;
    case Intrinsic::smin: r = mkIte(mkSlt(a[0], a[1]), a[0], a[1]); return true;
    case Intrinsic::smax: r = mkIte(mkSlt(a[0], a[1]), a[1], a[0]); return true;
    case Intrinsic::abs: r = mkIte(mkSlt(a[0], mkConst(0, a[0]->w)), mkNeg(a[0]), a[0]); return true;
    case Intrinsic::bswap: { std::vector<T> v; for (unsigned i = 0; i < a[0]->w; i += 8) v.push_back(mkExtract(a[0], i, 8)); r = mkConcat(v); return true; }
    case Intrinsic::bitreverse: { std::vector<T> v; for (unsigned i = 0; i < a[0]->w; ++i) v.push_back(mkExtract(a[0], i, 1)); r = mkConcat(v); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      unsigned w = a[0]->w; T cat = mkConcat2(a[0], a[1]);
      if (a[2]->isConst()) { unsigned k = constVal(a[2]).urem(w); r = in.iid == Intrinsic::fshl ? mkExtract(cat, w - k, w) : mkExtract(cat, k, w); return true; }
      T k = mkZExt(mkURem(a[2], mkConst(w, w)), 2 * w);
      r = in.iid == Intrinsic::fshl ? mkExtract(mkShl(cat, k), w, w) : mkExtract(mkLShr(cat, k), 0, w); return true;
    }
    case Intrinsic::ctpop: { unsigned w = a[0]->w; T x = mkConst(0, w); for (unsigned i = 0; i < w; ++i) x = mkAdd(x, mkZExt(mkExtract(a[0], i, 1), w)); r = x; return true; }
    case Intrinsic::cttz: { unsigned w = a[0]->w; T x = mkConst(w, w); for (int i = w - 1; i >= 0; --i) x = mkIte(mkExtract(a[0], i, 1), mkConst(i, w), x); r = x; return true; }
    case Intrinsic::ctlz: { unsigned w = a[0]->w; T x = mkConst(w, w); for (unsigned i = 0; i < w; ++i) x = mkIte(mkExtract(a[0], i, 1), mkConst(w - 1 - i, w), x); r = x; return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned w = a[0]->w; bool sg = in.iid == Intrinsic::sadd_with_overflow || in.iid == Intrinsic::ssub_with_overflow || in.iid == Intrinsic::smul_with_overflow;
      bool mul = in.iid == Intrinsic::umul_with_overflow || in.iid == Intrinsic::smul_with_overflow;
      bool sub = in.iid == Intrinsic::usub_with_overflow || in.iid == Intrinsic::ssub_with_overflow;
      T res, ov;
      if (mul) {
        unsigned W = 2 * w; T x = sg ? mkSExt(a[0], W) : mkZExt(a[0], W), y = sg ? mkSExt(a[1], W) : mkZExt(a[1], W);
        res = mkMul(a[0], a[1]);
        if (!sg && w <= 64) {
          __uint128_t mx = (__uint128_t)a[0]->umax * a[1]->umax;
          if (mx <= maskw(w)) { r = mkConcat2(mkBool(false), res); return true; }
          if (a[1]->isConst() && a[1]->c) { r = mkConcat2(mkUlt(mkConst(maskw(w) / a[1]->c, w), a[0]), res); return true; }
          if (a[0]->isConst() && a[0]->c) { r = mkConcat2(mkUlt(mkConst(maskw(w) / a[0]->c, w), a[1]), res); return true; }
        }
        if (sg && w <= 64 && a[1]->isConst() && a[1]->c && a[1]->c < (1ULL << (w - 1))) {
          int64_t k = a[1]->c; int64_t mxs = (int64_t)(maskw(w) >> 1), mns = -mxs - 1;
          ov = mkOr(mkSlt(mkConst((uint64_t)(mxs / k), w), a[0]), mkSlt(a[0], mkConst((uint64_t)(mns / k), w)));
          r = mkConcat2(ov, res); return true;
        }
        T full = mkMul(x, y);
        ov = mkNe(full, sg ? mkSExt(res, W) : mkZExt(res, W));
      } else if (!sg) {
        res = sub ? mkSub(a[0], a[1]) : mkAdd(a[0], a[1]);
        ov = sub ? mkUlt(a[0], a[1]) : mkUlt(res, a[0]);
        if (!sub && w <= 64 && a[0]->umax <= maskw(w) - a[1]->umax) ov = mkBool(false);
      } else {
        res = sub ? mkSub(a[0], a[1]) : mkAdd(a[0], a[1]);
        T zero = mkConst(0, w);
        T sa = mkSlt(a[0], zero), sb = mkSlt(a[1], zero), sr = mkSlt(res, zero);
        ov = sub ? mkAnd(mkXor(sa, sb), mkXor(sa, sr)) : mkAnd(mkNot(mkXor(sa, sb)), mkXor(sa, sr));
        if (w <= 64 && !sub) { uint64_t h = maskw(w) >> 1; if (a[0]->umax <= h && a[1]->umax <= h && a[0]->umax + a[1]->umax <= h) ov = mkBool(false); }
        if (w <= 64 && sub) { uint64_t h = maskw(w) >> 1; if (a[0]->umax <= h && a[1]->umax <= h) ov = mkBool(false); }
      }
      r = mkConcat2(ov, res); return true;
    }
    case Intrinsic::uadd_sat: { T x = mkAdd(a[0], a[1]); r = mkIte(mkUlt(x, a[0]), mkConstBig(APInt::getAllOnes(a[0]->w)), x); return true; }
    case Intrinsic::usub_sat: r = mkIte(mkUlt(a[0], a[1]), mkConst(0, a[0]->w), mkSub(a[0], a[1])); return true;
    case Intrinsic::fabs: r = mkConcat2(mkConst(0, 1), mkExtract(a[0], 0, a[0]->w - 1)); return true;
    case Intrinsic::copysign: r = mkConcat2(mkExtract(a[1], a[1]->w - 1, 1), mkExtract(a[0], 0, a[0]->w - 1)); return true;
    case Intrinsic::sqrt:
      if (in.w == 64 && a[0]->isConst()) { r = mkConst(std::bit_cast<uint64_t>(std::sqrt(std::bit_cast<double>(a[0]->c))), 64); return true; }
      r = mkFloat(Op::FSqrt, in.w, {a[0]}); return true;
    case Intrinsic::floor: r = mkFloat(Op::FRound, in.w, {a[0]}, 0); return true;
    case Intrinsic::ceil: r = mkFloat(Op::FRound, in.w, {a[0]}, 1); return true;
    case Intrinsic::trunc: r = mkFloat(Op::FRound, in.w, {a[0]}, 2); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = mkFloat(Op::FRound, in.w, {a[0]}, 3); return true;
    case Intrinsic::round: r = mkFloat(Op::FRound, in.w, {a[0]}, 4); return true;
    case Intrinsic::fmuladd: r = mkFloat(Op::FAdd, in.w, {mkFloat(Op::FMul, in.w, {a[0], a[1]}), a[2]}); return true;
    case Intrinsic::is_fpclass: {
      uint64_t m = a[1]->c; T x = a[0];
      unsigned w = x->w, mb = w == 32 ? 23 : w == 64 ? 52 : 63, eb = w == 32 ? 8 : w == 64 ? 11 : 15;
      T e = mkExtract(x, w - 1 - eb, eb), f = mkExtract(x, 0, mb), sg = mkExtract(x, w - 1, 1), e1 = mkEq(e, mkConstBig(APInt::getAllOnes(eb))), e0 = mkEq(e, mkConst(0, eb)), f0 = mkEq(f, mkConst(0, mb)), q = mkExtract(f, mb - 1, 1);
      T res = mkBool(false); auto add = [&](unsigned bit, T c) { if (m >> bit & 1) res = mkOr(res, c); };
      T n = mkAnd(e1, mkNot(f0)), inf = mkAnd(e1, f0), zero = mkAnd(e0, f0), sub = mkAnd(e0, mkNot(f0)), nrm = mkAnd(mkNot(e0), mkNot(e1));
      add(0, mkAnd(n, mkNot(q))); add(1, mkAnd(n, q)); add(2, mkAnd(inf, sg)); add(3, mkAnd(nrm, sg)); add(4, mkAnd(sub, sg)); add(5, mkAnd(zero, sg));
      add(6, mkAnd(zero, mkNot(sg))); add(7, mkAnd(sub, mkNot(sg))); add(8, mkAnd(nrm, mkNot(sg))); add(9, mkAnd(inf, mkNot(sg)));
      r = res; return true;
    }
    default: return false;
  }
  (void)dead;
}
void Engine::finishPath(State& s) {
  R->paths++;
  if (R->samples.size() < S->samples) {
    std::vector<std::pair<std::string, std::vector<uint64_t>>> in;
    for (auto& x : s.inputs) { std::vector<uint64_t> v; for (T t : x.vars) { Evaluator e(s.wit); v.push_back(e.eval64(t)); } in.push_back({x.name, v}); }
    R->samples.push_back(in); R->sampleTrace.push_back(s.trace);
  }
  s.dead = true;
}
void Engine::step(State& s) {
  Frame& f = s.st.back();
  Inst& in = f.fn->blk[f.bb].in[f.ip];
  ++R->insts;
  auto set = [&](T v) { f.regs[in.dst] = v; f.ip++; };
  const Instruction* I = in.I;
  switch (in.opc) {
    case Instruction::Ret: {
      T v = in.ops.empty() ? nullptr : val(f, in.ops[0]);
      for (uint32_t id : f.allocas) { Obj* o = s.mem.own(id); o->alive = 0; o->b.clear(); o->b.shrink_to_fit(); }
      s.st.pop_back();
      if (s.st.empty()) { s.ret = v; finishPath(s); return; }
      Frame& c = s.st.back(); Inst& ci = c.fn->blk[c.bb].in[c.ip];
      if (ci.dst >= 0) c.regs[ci.dst] = v;
      if (ci.opc == Instruction::Invoke) jump(s, c.fn->bbi[cast<InvokeInst>(ci.I)->getNormalDest()]); else c.ip++;
      return;
    }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I);
      if (b->isUnconditional()) { jump(s, f.fn->bbi[b->getSuccessor(0)]); return; }
      T c = val(f, in.ops[0]);
      // a forked copy re-executes this instruction with the opposite constraint in its path condition
      int v = branch(s, c);
      jump(s, f.fn->bbi[b->getSuccessor(v ? 0 : 1)]);
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I); T c = val(f, in.ops[0]);
      if (c->isConst()) { auto it = sw->findCaseValue(ConstantInt::get(sw->getContext(), constVal(c))); jump(s, f.fn->bbi[it->getCaseSuccessor()]); return; }
      for (auto& cs : sw->cases()) {
        int v = branch(s, mkEq(c, mkConstBig(cs.getCaseValue()->getValue())));
        if (v) { jump(s, f.fn->bbi[cs.getCaseSuccessor()]); return; }
      }
      jump(s, f.fn->bbi[sw->getDefaultDest()]); return;
    }
    case Instruction::Unreachable: violation(s, "ub", "unreachable code reached", s.wit); s.dead = true; return;
    case Instruction::Alloca: {
      auto* al = cast<AllocaInst>(I); bool dead; uint64_t n = DL.getTypeAllocSize(al->getAllocatedType()) * concretize(s, val(f, in.ops[0]), dead);
      uint64_t id = allocObj(s, n, OK::Stack); if (s.dead) return; f.allocas.push_back(id); set(mkConst(baseOf(id), 64)); return;
    }
    case Instruction::Load: { T p = val(f, in.ops[0]); T v = loadTyped(s, p, I->getType()); if (s.dead || !v) { s.dead = true; return; } set(v); return; }
    case Instruction::Store: { T v = val(f, in.ops[0]), p = val(f, in.ops[1]); storeTyped(s, p, v, I->getOperand(0)->getType()); if (s.dead) return; f.ip++; return; }
    case Instruction::GetElementPtr: {
      if (I->getType()->isVectorTy()) { incomplete(s, "vector gep"); return; }
      T p = val(f, in.ops[0]);
      if (in.off) p = mkAdd(p, mkConst(in.off, 64));
      for (auto& [o, sc] : in.idx) { T x = val(f, o); if (x->w < 64) x = mkSExt(x, 64); p = mkAdd(p, mkMulC(x, sc)); }
      set(p); return;
    }
    case Instruction::ICmp: {
      auto* ci = cast<ICmpInst>(I); T a = val(f, in.ops[0]), b = val(f, in.ops[1]);
      if (auto* vt = dyn_cast<FixedVectorType>(ci->getOperand(0)->getType())) {
        unsigned n = vt->getNumElements(), w = a->w / n; std::vector<T> v; for (int i = n - 1; i >= 0; --i) v.push_back(icmp(ci->getPredicate(), mkExtract(a, i * w, w), mkExtract(b, i * w, w))); set(mkConcat(v)); return; }
      set(icmp(ci->getPredicate(), a, b)); return;
    }
    case Instruction::FCmp: set(fcmp(cast<FCmpInst>(I)->getPredicate(), val(f, in.ops[0]), val(f, in.ops[1]))); return;
    case Instruction::FNeg: { T a = val(f, in.ops[0]); set(mkConcat2(mkNot(mkExtract(a, a->w - 1, 1)), mkExtract(a, 0, a->w - 1))); return; }
    case Instruction::Select: {
      T c = val(f, in.ops[0]), a = val(f, in.ops[1]), b = val(f, in.ops[2]);
      if (c->w != 1) { unsigned n = c->w, w = a->w / n; std::vector<T> v; for (int i = n - 1; i >= 0; --i) v.push_back(mkIte(mkExtract(c, i, 1), mkExtract(a, i * w, w), mkExtract(b, i * w, w))); set(mkConcat(v)); return; }
      set(mkIte(c, a, b)); return;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
      T a = val(f, in.ops[0]); Type* to = I->getType(); Type* from = I->getOperand(0)->getType();
      if (auto* vt = dyn_cast<FixedVectorType>(to); vt && in.opc != Instruction::BitCast) {
        unsigned n = vt->getNumElements(), w = a->w / n; std::vector<T> v;
        for (int i = n - 1; i >= 0; --i) v.push_back(castOp(in.opc, mkExtract(a, i * w, w), cast<FixedVectorType>(from)->getElementType(), vt->getElementType()));
        set(mkConcat(v)); return;
      }
      if (in.opc == Instruction::SIToFP && a->w > 1 && !a->isConst() && ((to->isDoubleTy() && a->w <= 53) || (to->isX86_FP80Ty() && a->w <= 64))) {  // split on the sign
        int neg = branch(s, mkExtract(a, a->w - 1, 1)); T r = intToF(neg ? mkSub(mkConst(0, a->w), a) : a, false, widthOf(to));
        set(neg ? mkOr(r, mkConcat2(mkConst(1, 1), mkConst(0, r->w - 1))) : r); return;
      }
      set(castOp(in.opc, a, from, to)); return;
    }
    case Instruction::Freeze: set(val(f, in.ops[0])); return;
    case Instruction::ExtractValue: {
      auto* ev = cast<ExtractValueInst>(I); T a = val(f, in.ops[0]); Type* t = ev->getAggregateOperand()->getType(); unsigned p = 0;
      for (unsigned ix : ev->indices()) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; ++i) p += widthOf(st->getElementType(i)); t = st->getElementType(ix); }
        else { t = cast<ArrayType>(t)->getElementType(); p += ix * widthOf(t); }
      }
      unsigned w = widthOf(t); set(w ? mkExtract(a, p, w) : mkConst(0, 1)); return;
    }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I); T a = val(f, in.ops[0]), v = val(f, in.ops[1]); Type* t = iv->getAggregateOperand()->getType(); unsigned p = 0;
      for (unsigned ix : iv->indices()) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; ++i) p += widthOf(st->getElementType(i)); t = st->getElementType(ix); }
        else { t = cast<ArrayType>(t)->getElementType(); p += ix * widthOf(t); }
      }
      unsigned w = widthOf(t), W = a->w; if (!w) { set(a); return; }
      std::vector<T> parts; if (p + w < W) parts.push_back(mkExtract(a, p + w, W - p - w)); parts.push_back(v); if (p) parts.push_back(mkExtract(a, 0, p));
      set(mkConcat(parts)); return;
    }
    case Instruction::ExtractElement: {
      T a = val(f, in.ops[0]), ix = val(f, in.ops[1]); bool dead; uint64_t i = concretize(s, ix, dead); unsigned w = widthOf(I->getType()); set(mkExtract(a, i * w, w)); return;
    }
    case Instruction::InsertElement: {
      T a = val(f, in.ops[0]), v = val(f, in.ops[1]); bool dead; uint64_t i = concretize(s, val(f, in.ops[2]), dead); unsigned w = v->w, W = a->w, p = i * w;
      std::vector<T> parts; if (p + w < W) parts.push_back(mkExtract(a, p + w, W - p - w)); parts.push_back(v); if (p) parts.push_back(mkExtract(a, 0, p)); set(mkConcat(parts)); return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I); T a = val(f, in.ops[0]), b = val(f, in.ops[1]); unsigned w = widthOf(cast<VectorType>(I->getType())->getElementType()), n = a->w / w; std::vector<T> v;
      auto mask = sv->getShuffleMask(); for (int i = mask.size() - 1; i >= 0; --i) { int k = mask[i]; v.push_back(k < 0 ? mkConst(0, w) : (unsigned)k < n ? mkExtract(a, k * w, w) : mkExtract(b, (k - n) * w, w)); } set(mkConcat(v)); return;
    }
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(I); T p = val(f, in.ops[0]), v = val(f, in.ops[1]); T old = loadTyped(s, p, I->getType()); if (!old || s.dead) { s.dead = true; return; }
      T n; switch (rm->getOperation()) { case AtomicRMWInst::Add: n = mkAdd(old, v); break; case AtomicRMWInst::Sub: n = mkSub(old, v); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::And: n = mkAnd(old, v); break; case AtomicRMWInst::Or: n = mkOr(old, v); break; case AtomicRMWInst::Xor: n = mkXor(old, v); break; default: incomplete(s, "atomicrmw"); return; }
      storeTyped(s, p, n, I->getType()); if (s.dead) return; set(old); return;
    }
    case Instruction::AtomicCmpXchg: {
      T p = val(f, in.ops[0]), c = val(f, in.ops[1]), n = val(f, in.ops[2]); Type* t = I->getOperand(1)->getType(); T old = loadTyped(s, p, t); if (!old || s.dead) { s.dead = true; return; }
      T eq = mkEq(old, c); storeTyped(s, p, mkIte(eq, n, old), t); if (s.dead) return; set(mkConcat2(eq, old)); return;
    }
    case Instruction::Fence: f.ip++; return;
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = cast<CallBase>(I);
      std::vector<T> args; unsigned na = cb->arg_size();
      for (unsigned i = 0; i < na; ++i) args.push_back(val(f, in.ops[i]));
      auto ret = [&](T r) {
        if (s.dead) return;
        Frame& ff = s.st.back();
        if (in.dst >= 0) { if (!r) { if (in.w == 0) r = mkConst(0, 1); else { incomplete(s, "builtin without result"); return; } } ff.regs[in.dst] = r; }
        if (in.opc == Instruction::Invoke) jump(s, ff.fn->bbi[cast<InvokeInst>(I)->getNormalDest()]); else ff.ip++;
      };
      Fn* cf = in.callee;
      if (!cf) {
        if (cb->isInlineAsm()) { // compiler barriers only
          ret(in.w ? (args.empty() ? mkConst(0, in.w) : args[0]) : nullptr); return; }
        T fp = val(f, in.ops[na]); bool dead; uint64_t a = concretize(s, fp, dead);
        auto it = fnByAddr.find(a);
        if (it == fnByAddr.end()) { violation(s, "memory", a ? "call of a non-function address" : "call through null", s.wit); s.dead = true; return; }
        cf = it->second;
        if (cf->F->isDeclaration()) {
          auto bi = builtins.find(cf->name);
          if (bi != builtins.end()) { T r = nullptr; Inst tmp = in; tmp.callee = cf; builtin(s, tmp, bi->second, args, r); ret(r); return; }
          incomplete(s, "indirect call of external " + cf->name); return;
        }
        call(s, in, cf, args); return;
      }
      if (in.builtin >= 0) { T r = nullptr; if (!builtin(s, in, in.builtin, args, r)) { incomplete(s, "builtin " + cf->name); return; } ret(r); return; }
      if (in.iid) {
        T r = nullptr;
        if (!intrinsic(s, in, args, r)) { incomplete(s, "intrinsic " + cf->name); return; }
        ret(r); return;
      }
      if (cf->F->isDeclaration()) {
        incomplete(s, "external " + demangle(cf->name)); return; }
      call(s, in, cf, args); return;
    }
    default: {
      if (I->isBinaryOp()) {
        T a = val(f, in.ops[0]), b = val(f, in.ops[1]);
        if (auto* vt = dyn_cast<FixedVectorType>(I->getType())) { unsigned n = vt->getNumElements(), w = a->w / n; std::vector<T> v; for (int i = n - 1; i >= 0; --i) v.push_back(binop(in.opc, mkExtract(a, i * w, w), mkExtract(b, i * w, w), s)); if (s.dead) return; set(mkConcat(v)); return; }
        T r = binop(in.opc, a, b, s); if (s.dead) return; set(r); return;
      }
      incomplete(s, std::string("instruction ") + I->getOpcodeName()); return;
    }
  }
}
void Engine::runState(State& s) {
  unsigned n = 0;
  while (!s.dead) {
    step(s);
    if ((++n & 0x3ff) == 0) {
      if (nowSecs() > gDeadline && !inInit) { R->incomplete["time limit"]++; s.dead = true; }
      if (n > 200000000u) { R->incomplete["instruction limit"]++; s.dead = true; }
    }
  }
}
void Engine::initGlobals() {
  JobResult jr; JobSpec js; R = &jr; S = &js; inInit = true;
  auto* gv = M.getGlobalVariable("llvm.global_ctors");
  if (gv && gv->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gv->getInitializer())) {
    std::vector<std::pair<uint64_t, const Function*>> v;
    for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& [p, fn] : v) {
      State s = base; s.dead = false; Inst in{}; in.I = nullptr; call(s, in, getFn(fn), {}); runState(s);
      if (!jr.incomplete.empty() || !jr.violations.empty() || !work.empty()) {
        errs() << "global ctor " << fn->getName() << " not executed fully\n";
        for (auto& x : jr.incomplete) errs() << "   " << x.first << "\n";
        for (auto& x : jr.violations) errs() << "   " << x.kind << " " << x.msg << " " << x.where << "\n";
        jr = JobResult(); work.clear();
      }
      s.st.clear(); s.dead = false; base = s; base.st.clear();
    }
  }
  base.openAllocs = 0;
  inInit = false;
}
JobResult Engine::run(const JobSpec& spec) {
  JobResult jr; jr.job = spec.id; jr.entry = spec.entry; jr.params = spec.params; R = &jr; S = &spec; seenViol.clear(); work.clear();
  double t0 = nowSecs(); gDeadline = t0 + spec.timeout; gQueryTimeoutMs = spec.qms;
  const Function* F = M.getFunction(spec.entry);
  if (!F || F->isDeclaration()) { jr.incomplete["no such entry"]++; return jr; }
  State s = base; s.dead = false; s.wit.v.assign(gVars.size(), 0);
  Inst in{}; in.I = nullptr; call(s, in, getFn(F), {});
  work.push_back(std::move(s));
  while (!work.empty()) {
    State x = std::move(work.back()); work.pop_back();
    if (nowSecs() > gDeadline) { jr.incomplete["time limit"] += 1 + work.size(); break; }
    runState(x);
    if (spec.maxPaths && jr.paths >= spec.maxPaths) break;
    if (jr.violations.size() >= 4) break;
  }
  jr.secs = nowSecs() - t0;
  return jr;
}
Engine* newEngine(Module& m) { return new Engine(m); }
void engineInit(Engine* e) { e->initGlobals(); }
JobResult engineRun(Engine* e, const JobSpec& s) { return e->run(s); }

static std::string q(const std::string& s) {
  std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\"";
}
static std::string inp(const std::vector<std::pair<std::string, std::vector<uint64_t>>>& v) {
  std::string r = "["; bool f = true; for (auto& p : v) { if (!f) r += ","; f = false; r += "[" + q(p.first); for (auto x : p.second) r += "," + std::to_string(x); r += "]"; } return r + "]";
}
std::string toJson(const JobResult& j) {
  std::string r = "{\"job\":" + q(j.job) + ",\"entry\":" + q(j.entry) + ",\"params\":[";
  for (size_t i = 0; i < j.params.size(); ++i) r += (i ? "," : "") + std::to_string(j.params[i]);
  auto num = [&](const char* n, uint64_t v) { r += std::string(",\"") + n + "\":" + std::to_string(v); };
  r += "]"; num("paths", j.paths); num("assumed", j.assumed); num("aborts", j.aborts); num("forks", j.forks); num("insts", j.insts); num("asserts", j.asserts); num("asserts_const", j.assertsConst);
  num("eq_pairs", j.eqPairs); num("eq_struct", j.eqStruct); num("eq_swept", j.eqSwept); num("sweep_queries", j.sweepQueries); num("mem_checks", j.memChecks); num("branch_queries", j.branchQ);
  num("queries", gStats.queries); num("q_sat", gStats.sat); num("q_unsat", gStats.unsat); num("q_unknown", gStats.unknown); num("cache_hits", gStats.hits + gStats.modelHits); num("terms", gTerms.size());
  r += ",\"solver_s\":" + std::to_string(gStats.secs) + ",\"secs\":" + std::to_string(j.secs);
  r += ",\"incomplete\":{"; bool f = true; for (auto& p : j.incomplete) { if (!f) r += ","; f = false; r += q(p.first) + ":" + std::to_string(p.second); } r += "}";
  r += ",\"violations\":["; f = true; for (auto& v : j.violations) { if (!f) r += ","; f = false; r += "{\"kind\":" + q(v.kind) + ",\"msg\":" + q(v.msg) + ",\"where\":" + q(v.where) + ",\"inputs\":" + inp(v.inputs) + "}"; } r += "]";
  r += ",\"covers\":["; f = true; for (auto& c : j.covers) { if (!f) r += ","; f = false; r += q(c); } r += "]";
  r += ",\"functions\":["; f = true; for (auto& c : j.functions) { if (!f) r += ","; f = false; r += q(c); } r += "]";
  r += ",\"samples\":["; f = true; for (auto& c : j.samples) { if (!f) r += ","; f = false; r += inp(c); } r += "]";
  r += ",\"sample_trace\":["; f = true; for (auto& c : j.sampleTrace) { if (!f) r += ","; f = false; r += "["; for (size_t i = 0; i < c.size(); ++i) r += (i ? "," : "") + std::to_string(c[i]); r += "]"; } r += "]}";
  return r;
}
}  // namespace sx
