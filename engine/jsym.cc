// jsym: a bounded symbolic executor for LLVM IR (clang 18 bitcode).
// See /verif/DESIGN.md for what it models and what it checks.
#include "solver.h"

#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/StringSet.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
typedef uint64_t u64;

// ---------------------------------------------------------------- utilities
template <class T> struct Ref {
  T* p = nullptr;
  Ref() {}
  Ref(T* q) : p(q) { if (p) ++p->rc; }
  Ref(const Ref& o) : p(o.p) { if (p) ++p->rc; }
  Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p; }
};
struct Agg;
struct Val {
  E e = nullptr;
  Ref<Agg> agg;
  Val() {}
  Val(E x) : e(x) {}
};
struct Agg { int rc = 0; std::vector<Val> v; };

static double nowS() { timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }

// ---------------------------------------------------------------- options
struct Options {
  std::string entry = "sym_main";
  std::string outDir = ".";
  std::string repoPrefix = "/repo/";
  unsigned workers = 8;
  double timeLimit = 800;
  u64 maxInstPerPath = 20000000;
  unsigned samplePaths = 8;
  unsigned maxViolations = 1;
  u64 crossEvery = 0;
  unsigned rlimit = 0;
  bool verbose = false;
  unsigned concLimit = 4096;
} opt;

// ---------------------------------------------------------------- shared state (across forked workers)
static const int MAXREACH = 256, MAXBB = 1 << 18;
struct Shared {
  volatile int active;
  volatile int stop;
  volatile int violations;
  volatile int inconclusive;
  volatile int samples;
  volatile int crossBad;
  volatile u64 paths, pathsAssumed, pathsViol, forks, insts, queries, z3calls, sat, unsat, unknown, cacheHits, solverUs, fpcalls, lia, retries, workersUsed, crossChecked;
  volatile u64 maxDepth;
  volatile int nreach;
  char reachName[MAXREACH][64];
  volatile u64 reachCount[MAXREACH];
  char inconclusiveMsg[16][400];
  volatile int nIncMsg;
  volatile unsigned char bb[MAXBB];
  volatile int lock;
  u64 inputsMax;
};
static Shared* sh;
static void lock_() { while (__sync_lock_test_and_set(&sh->lock, 1)) usleep(10); }
static void unlock_() { __sync_lock_release(&sh->lock); }

// ---------------------------------------------------------------- decoded code
struct Opnd { int reg = -1; Val c; };
struct DInst;
struct FnInfo;
struct Exec;
struct State;
typedef Val (*Handler)(Exec&, State&, DInst&, std::vector<Val>&);

struct PhiInfo { int dest; std::vector<std::pair<unsigned, Opnd>> in; };
struct DInst {
  Instruction* I = nullptr;
  unsigned op = 0;
  int dest = -1;
  Type* ty = nullptr;
  unsigned width = 0;
  std::vector<Opnd> ops;
  // gep
  u64 gepConst = 0;
  std::vector<std::pair<unsigned, u64>> gepVar;  // operand idx, scale
  std::vector<unsigned> succ;
  Function* callee = nullptr;
  Handler h = nullptr;
  std::vector<std::pair<u128, unsigned>> cases;
  unsigned pred = 0;
  u64 allocSize = 0;
};
struct Block { std::vector<PhiInfo> phis; std::vector<DInst> insts; unsigned gid; BasicBlock* bb; };
struct FnInfo { Function* F; std::vector<Block> blocks; unsigned nregs; };

// ---------------------------------------------------------------- memory
static const Expr UNINIT_OBJ{};
static const E UNINIT = &UNINIT_OBJ;
enum ObjKind : uint8_t { O_GLOBAL, O_HEAP, O_STACK, O_OPAQUE };
struct Obj {
  int rc = 0;
  u64 base, size;
  ObjKind kind;
  uint8_t allocKind = 0;  // 1 malloc 2 new 3 new[]
  bool ro = false, tls = false;
  u64 seq = 0;
  std::vector<uint8_t> c;
  std::vector<E> s;  // empty or one entry per byte (null: concrete)
  const Instruction* site = nullptr;
  const char* fnName = nullptr;
};
typedef Ref<Obj> ObjP;

struct Frame {
  int rc = 0;
  FnInfo* fn;
  unsigned bb = 0, pc = 0, prev = 0;
  std::vector<Val> regs;
  std::vector<u64> allocas;
  // landing pad data while unwinding
  Val exn;
};
typedef Ref<Frame> FrameP;

struct InputRec { std::string name; uint32_t ord; unsigned width; };
struct InputNode { int rc = 0; InputRec r; Ref<InputNode> prev; };
struct OutNode { int rc = 0; std::string name; E e; Ref<OutNode> prev; };

struct ExnState { u64 obj = 0; u64 tinfo = 0; u64 dtor = 0; };

struct State {
  std::vector<FrameP> frames;
  std::vector<ObjP> mem;  // sorted by base
  u64 nextAddr;
  std::vector<E> cons;
  std::vector<u128> model;
  uint32_t nvars = 0;
  VarSet uninitVars;
  Ref<InputNode> inputs;
  Ref<OutNode> outs;
  u64 insts = 0;
  unsigned depth = 0;
  u64 heapMark = 0;
  u64 seq = 0;
  u64 sharedMark = 0;  // heap objects below and globals are shared with other threads
  int guards = 0, locks = 0, rdlocks = 0;
  std::set<int> reached;
  std::vector<u64> atexit;
  // exceptions
  std::vector<ExnState> caught;
  bool unwinding = false;
  u64 uncaught = 0;
};

struct PathEnd { int why; };  // 0 done, 1 assume false, 2 violation, 3 inconclusive
struct Unsupported { std::string msg; };

static std::string locStr(const Instruction* I) {
  if (!I) return "?";
  std::string s;
  if (const DebugLoc& dl = I->getDebugLoc()) {
    const DILocation* l = dl.get();
    // outermost first frame that lies in repo, else innermost
    const DILocation* best = l;
    for (const DILocation* x = l; x; x = x->getInlinedAt())
      if ((x->getDirectory() + "/" + x->getFilename()).str().find(opt.repoPrefix) != std::string::npos) { best = x; break; }
    StringRef f = best->getFilename();
    s = f.str() + ":" + std::to_string(best->getLine());
  } else s = "(no debug loc)";
  return s;
}

struct Exec {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  const DataLayout* DL = nullptr;
  Solver solver;
  std::vector<State*> work;
  std::map<Function*, FnInfo*> fns;
  DenseMap<const GlobalValue*, u64> gaddr;
  std::map<u64, Function*> fnAt;
  std::vector<ObjP> globalsConst;   // shared constant objects, sorted by base
  unsigned ngid = 0;
  std::vector<BasicBlock*> gidBB;
  std::vector<std::pair<int, int>> children;
  std::set<std::string> lines;
  double t0;
  double lastShare = 0;
  std::vector<pid_t> kids;
  u64 localInsts = 0;
  std::unordered_map<std::string, Handler> handlers;

  // ------------------------------------------------------------ setup
  void load(const std::vector<std::string>& files);
  FnInfo* info(Function* F);
  Opnd operand(Value* V, DenseMap<Value*, int>& regs);
  Val constVal(Constant* C);
  void initGlobals(State& s);
  void writeConst(State& s, Obj* o, u64 off, Constant* C);
  void regHandlers();

  // ------------------------------------------------------------ memory
  Obj* find(State& s, u64 addr, size_t* idx);
  Obj* writable(State& s, size_t idx);
  u64 alloc(State& s, u64 size, ObjKind k, const Instruction* site, bool zero = false, uint8_t ak = 0);
  E readByte(State& s, size_t idx, u64 off);
  E readMem(State& s, E addr, unsigned bytes, const DInst* d);
  void writeMem(State& s, E addr, E v, unsigned bytes, const DInst* d);
  Val loadTy(State& s, E addr, Type* T, const DInst* d);
  void storeTy(State& s, E addr, const Val& v, Type* T, const DInst* d);
  size_t access(State& s, u64 addr, u64 n, bool write, const DInst* d);
  E uninitByte(State& s, Obj* o, u64 off);
  std::string cstr(State& s, E p);
  void copyBytes(State& s, u64 dst, u64 src, u64 n, const DInst* d, bool overlapOk);

  // ------------------------------------------------------------ symbolic
  E freshVar(State& s, const std::string& name, unsigned width, bool input);
  void addCons(State& s, E c);
  bool mayBe(State& s, E c, std::vector<u128>* m = nullptr);  // satisfiable
  u64 conc(State& s, E e);
  void assume(State& s, E c);
  void require(State& s, E ok, const char* kind, const std::string& label, const DInst* d);
  [[noreturn]] void violate(State& s, const char* kind, const std::string& label, const DInst* d);
  void report(State& s, const std::vector<u128>& model, const char* kind, const std::string& label, const DInst* d);
  void writeInputs(State& s, const std::vector<u128>& model, const std::string& file, const std::string& head);
  void reach(State& s, const std::string& l);
  void checkUninit(State& s, E c, const DInst* d);
  void checkShared(State& s, Obj* o, const DInst* d);
  E renameUninit(State& s, E e, std::unordered_map<E, E>& memo);

  // ------------------------------------------------------------ execution
  Val& reg(State& s, int r);
  Val get(State& s, const Opnd& o);
  E getE(State& s, const Opnd& o);
  void set(State& s, const DInst& d, Val v);
  Frame* top(State& s);
  void jump(State& s, unsigned bb);
  void pushCall(State& s, Function* F, std::vector<Val>& args, const DInst* d);
  void ret(State& s, Val v);
  void step(State& s);
  void doCall(State& s, DInst& d);
  void branch(State& s, E c, unsigned t, unsigned f, const DInst& d);
  State* fork(State& s);
  Val binop(State& s, DInst& d, const Val& a, const Val& b);
  Val icmp(unsigned pred, const Val& a, const Val& b);
  Val castop(DInst& d, const Val& a, Type* src, Type* dst);
  Val intrinsic(State& s, DInst& d, std::vector<Val>& args, bool& handled);
  void runPath(State* s);
  void finish(State& s, int why, const std::string& msg);
  void run();
  void share();
  void flushStats();
  void throwExn(State& s, u64 exnObj, const DInst* d);
  bool unwind(State& s, u64 exnObj, u64 tinfo, const DInst* d);
  bool typeMatches(State& s, u64 thrown, u64 catchTi);
  u64 rd64(State& s, u64 a);
};

static Exec* G;

// ---------------------------------------------------------------- loading
void Exec::load(const std::vector<std::string>& files) {
  SMDiagnostic err;
  for (auto& f : files) {
    auto m = parseIRFile(f, err, ctx);
    if (!m) { err.print("jsym", errs()); exit(3); }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed " << f << "\n"; exit(3); }
  }
  DL = &M->getDataLayout();
}

Val Exec::constVal(Constant* C) {
  Type* T = C->getType();
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    Val r;
    r.agg = Ref<Agg>(new Agg);
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; i++) r.agg->v.push_back(constVal(C->getAggregateElement(i)));
    return r;
  }
  if (auto* ci = dyn_cast<ConstantInt>(C)) {
    unsigned w = ci->getBitWidth();
    if (w > 128) throw Unsupported{"integer wider than 128 bits"};
    u128 v = ci->getValue().extractBitsAsZExtValue(std::min(w, 64u), 0);
    if (w > 64) v |= (u128)ci->getValue().extractBitsAsZExtValue(w - 64, 64) << 64;
    return mkConst(v, w);
  }
  if (auto* cf = dyn_cast<ConstantFP>(C)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() > 64) throw Unsupported{"long double constant"};
    return mkConst(b.getZExtValue(), b.getBitWidth());
  }
  if (isa<ConstantPointerNull>(C)) return mkConst(0, 64);
  if (isa<UndefValue>(C)) {
    if (T->isPointerTy()) return mkConst(0, 64);
    if (T->isIntegerTy() || T->isFloatingPointTy()) return mkConst(0, T->getPrimitiveSizeInBits());
    if (T->isMetadataTy() || T->isTokenTy()) return mkConst(0, 1);
    return mkConst(0, 64);
  }
  if (auto* gv = dyn_cast<GlobalValue>(C)) {
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) throw Unsupported{"global without address: " + gv->getName().str()};
    return mkConst(it->second, 64);
  }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported{"constexpr gep"};
        return mkConst(constVal(ce->getOperand(0)).e->val + off.getZExtValue(), 64);
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: return mkExtract(constVal(ce->getOperand(0)).e, 0, T->getIntegerBitWidth());
      case Instruction::IntToPtr: return mkZExt(constVal(ce->getOperand(0)).e, 64);
      case Instruction::Trunc: return mkExtract(constVal(ce->getOperand(0)).e, 0, T->getIntegerBitWidth());
      case Instruction::Add: return mkBin(K_ADD, constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e);
      case Instruction::Sub: return mkBin(K_SUB, constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e);
      case Instruction::ICmp: return icmp(ce->getPredicate(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
      default: throw Unsupported{std::string("constexpr ") + ce->getOpcodeName()};
    }
  }
  if (auto* b = dyn_cast<BlockAddress>(C)) { (void)b; throw Unsupported{"blockaddress"}; }
  std::string s; raw_string_ostream os(s); C->print(os);
  throw Unsupported{"constant " + s};
}

Opnd Exec::operand(Value* V, DenseMap<Value*, int>& regs) {
  Opnd o;
  auto it = regs.find(V);
  if (it != regs.end()) { o.reg = it->second; return o; }
  if (auto* c = dyn_cast<Constant>(V)) { o.c = constVal(c); return o; }
  if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) { o.c = Val(mkConst(0, 64)); return o; }
  throw Unsupported{"operand"};
}

FnInfo* Exec::info(Function* F) {
  auto it = fns.find(F);
  if (it != fns.end()) return it->second;
  FnInfo* fi = new FnInfo;
  fi->F = F;
  DenseMap<Value*, int> regs;
  int n = 0;
  for (auto& a : F->args()) regs[&a] = n++;
  DenseMap<BasicBlock*, unsigned> bbi;
  unsigned bn = 0;
  for (auto& bb : *F) {
    bbi[&bb] = bn++;
    for (auto& I : bb) if (!I.getType()->isVoidTy()) regs[&I] = n++;
  }
  fi->nregs = n;
  fi->blocks.resize(bn);
  bn = 0;
  // gids are assigned to every block of the module up-front (see run())
  for (auto& bb : *F) {
    Block& B = fi->blocks[bn++];
    B.bb = &bb;
    B.gid = 0;
    for (auto& I : bb) {
      if (auto* phi = dyn_cast<PHINode>(&I)) {
        PhiInfo p;
        p.dest = regs[&I];
        for (unsigned i = 0; i < phi->getNumIncomingValues(); i++)
          p.in.push_back({bbi[phi->getIncomingBlock(i)], operand(phi->getIncomingValue(i), regs)});
        B.phis.push_back(p);
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
        switch (ii->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
          case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::donothing:
          case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
            if (I.getType()->isVoidTy()) continue;
          default: break;
        }
      }
      DInst d;
      d.I = &I;
      d.op = I.getOpcode();
      d.ty = I.getType();
      if (!d.ty->isVoidTy()) d.dest = regs[&I];
      if (d.ty->isPointerTy()) d.width = 64;
      else if (d.ty->isIntegerTy() || d.ty->isFloatingPointTy()) d.width = d.ty->getPrimitiveSizeInBits();
      try {
        if (auto* cb = dyn_cast<CallBase>(&I)) {
          for (auto& a : cb->args()) d.ops.push_back(operand(a.get(), regs));
          Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
          if (auto* cf = dyn_cast<Function>(cv)) {
            d.callee = cf;
            auto hi = handlers.find(cf->getName().str());
            if (hi != handlers.end() && (cf->isDeclaration() || cf->getName().starts_with("sym_"))) d.h = hi->second;
          } else {
            d.ops.push_back(operand(cb->getCalledOperand(), regs));
          }
          if (auto* inv = dyn_cast<InvokeInst>(&I)) {
            d.succ = {bbi[inv->getNormalDest()], bbi[inv->getUnwindDest()]};
          }
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) d.ops.push_back(operand(br->getCondition(), regs));
          for (unsigned i = 0; i < br->getNumSuccessors(); i++) d.succ.push_back(bbi[br->getSuccessor(i)]);
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          d.ops.push_back(operand(sw->getCondition(), regs));
          d.succ.push_back(bbi[sw->getDefaultDest()]);
          for (auto& c : sw->cases()) {
            d.cases.push_back({constVal(c.getCaseValue()).e->val, bbi[c.getCaseSuccessor()]});
          }
        } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
          d.ops.push_back(operand(gep->getPointerOperand(), regs));
          unsigned oi = 1;
          for (auto gti = gep_type_begin(gep), ge = gep_type_end(gep); gti != ge; ++gti) {
            Value* idx = gti.getOperand();
            if (StructType* st = gti.getStructTypeOrNull()) {
              d.gepConst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
              u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(idx)) d.gepConst += sz * (u64)ci->getSExtValue();
              else { d.ops.push_back(operand(idx, regs)); d.gepVar.push_back({oi++, sz}); }
            }
          }
        } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
          d.allocSize = DL->getTypeAllocSize(al->getAllocatedType());
          d.ops.push_back(operand(al->getArraySize(), regs));
        } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
          for (unsigned i = 0; i < lp->getNumClauses(); i++)
            if (lp->isCatch(i)) d.ops.push_back(operand(lp->getClause(i), regs));
            else d.ops.push_back(Opnd{-1, Val(mkConst(~0ull, 64))});
        } else {
          for (auto& o : I.operands()) if (!isa<BasicBlock>(o.get())) d.ops.push_back(operand(o.get(), regs));
          if (auto* c = dyn_cast<CmpInst>(&I)) d.pred = c->getPredicate();
        }
      } catch (Unsupported& u) {
        d.op = 0;  // executing it is unsupported
        d.callee = nullptr;
        d.ops.clear();
      }
      B.insts.push_back(std::move(d));
    }
  }
  fns[F] = fi;
  return fi;
}

void Exec::writeConst(State& s, Obj* o, u64 off, Constant* C) {
  Type* T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;  // already zero
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = cd->getRawDataValues();
    memcpy(&o->c[off], raw.data(), raw.size());
    return;
  }
  if (T->isStructTy()) {
    auto* sl = DL->getStructLayout(cast<StructType>(T));
    for (unsigned i = 0; i < T->getStructNumElements(); i++) writeConst(s, o, off + sl->getElementOffset(i), C->getAggregateElement(i));
    return;
  }
  if (T->isArrayTy()) {
    u64 sz = DL->getTypeAllocSize(T->getArrayElementType());
    for (unsigned i = 0; i < T->getArrayNumElements(); i++) writeConst(s, o, off + sz * i, C->getAggregateElement(i));
    return;
  }
  if (T->isVectorTy()) {
    u64 sz = DL->getTypeAllocSize(cast<VectorType>(T)->getElementType());
    for (unsigned i = 0; i < cast<FixedVectorType>(T)->getNumElements(); i++) writeConst(s, o, off + sz * i, C->getAggregateElement(i));
    return;
  }
  Val v = constVal(C);
  u64 n = DL->getTypeStoreSize(T);
  for (u64 i = 0; i < n; i++) o->c[off + i] = (uint8_t)(v.e->val >> (8 * i));
}

void Exec::initGlobals(State& s) {
  u64 fa = 0x10000;
  for (auto& F : *M) { gaddr[&F] = fa; fnAt[fa] = &F; fa += 64; }
  u64 a = 0x100000000ull;
  std::vector<std::pair<GlobalVariable*, Obj*>> init;
  for (auto& g : M->globals()) {
    u64 size = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8;
    if (!g.hasInitializer() && size < 512) size = 512;  // opaque external
    Obj* o = new Obj;
    o->base = a; o->size = size;
    o->kind = g.hasInitializer() ? O_GLOBAL : O_OPAQUE;
    o->ro = g.isConstant();
    o->tls = g.isThreadLocal();
    o->c.assign(size, 0);
    o->fnName = g.getName().data();
    gaddr[&g] = a;
    a += ((size + 15) & ~15ull) + 0x10000;
    init.push_back({&g, o});
  }
  for (auto& al : M->aliases()) {
    Value* v = al.getAliasee()->stripPointerCasts();
    if (auto* gv = dyn_cast<GlobalValue>(v)) gaddr[&al] = gaddr[gv];
  }
  for (auto& p : init) {
    if (p.first->hasInitializer()) {
      try { writeConst(s, p.second, 0, p.first->getInitializer()); }
      catch (Unsupported& u) { p.second->kind = O_OPAQUE; }
    }
    if (p.second->ro) globalsConst.push_back(ObjP(p.second));
    else s.mem.push_back(ObjP(p.second));
  }
  s.nextAddr = 0x10000000000ull;
}

// ---------------------------------------------------------------- memory
static Obj* findIn(std::vector<ObjP>& v, u64 addr, size_t* idx) {
  size_t lo = 0, hi = v.size();
  while (lo < hi) {
    size_t m = (lo + hi) / 2;
    if (v[m].p->base <= addr) lo = m + 1; else hi = m;
  }
  if (lo == 0) return nullptr;
  Obj* o = v[lo - 1].p;
  if (addr - o->base > o->size) return nullptr;  // one-past-end allowed; caller checks length
  if (idx) *idx = lo - 1;
  return o;
}
static const size_t CONSTIDX = 1ull << 62;
Obj* Exec::find(State& s, u64 addr, size_t* idx) {
  Obj* o = findIn(s.mem, addr, idx);
  if (o) return o;
  o = findIn(globalsConst, addr, idx);
  if (o && idx) *idx |= CONSTIDX;
  return o;
}
static inline Obj* objAt(Exec& x, State& s, size_t idx) {
  return idx & CONSTIDX ? x.globalsConst[idx & ~CONSTIDX].p : s.mem[idx].p;
}
Obj* Exec::writable(State& s, size_t idx) {
  Obj* o = s.mem[idx].p;
  if (o->rc > 1) {
    Obj* n = new Obj(*o);
    n->rc = 0;
    s.mem[idx] = ObjP(n);
    return n;
  }
  return o;
}
u64 Exec::alloc(State& s, u64 size, ObjKind k, const Instruction* site, bool zero, uint8_t ak) {
  if (size > (64u << 20)) throw Unsupported{"allocation of " + std::to_string(size) + " bytes"};
  Obj* o = new Obj;
  o->base = s.nextAddr;
  o->size = size;
  o->kind = k;
  o->allocKind = ak;
  o->site = site;
  o->seq = ++s.seq;
  o->c.assign(size, 0);
  if (!zero) o->s.assign(size, UNINIT);
  s.nextAddr += ((size + 15) & ~15ull) + 0x1000;
  s.mem.push_back(ObjP(o));
  return o->base;
}

size_t Exec::access(State& s, u64 addr, u64 n, bool write, const DInst* d) {
  size_t idx;
  Obj* o = find(s, addr, &idx);
  if (!o || addr - o->base + n > o->size) {
    char buf[200];
    const char* what = addr < 4096 ? "null-dereference" : o ? (o->kind == O_HEAP ? "heap-buffer-overflow" : o->kind == O_STACK ? "stack-buffer-overflow" : "global-buffer-overflow")
                                                  : (addr >= 0x10000000000ull && addr < s.nextAddr ? "use-after-free-or-wild-access" : "wild-access");
    snprintf(buf, sizeof buf, "%s of %llu bytes", what, (unsigned long long)n);
    violate(s, "memory", buf, d);
  }
  if (o->kind == O_OPAQUE && !write) throw Unsupported{std::string("read of external global ") + (o->fnName ? o->fnName : "?")};
  if (write && (o->ro || (idx & CONSTIDX))) violate(s, "memory", "write to constant", d);
  if (write && s.sharedMark && d) checkShared(s, o, d);
  return idx;
}

// Whose code is this: 1 the repository's, 2 a model's, 3 the harness's, 0 a library header's.
static int originOf(const DIScope* sc) {
  if (!sc || !sc->getFile()) return 0;
  std::string f = (sc->getFilename().starts_with("/") ? "" : sc->getDirectory().str() + "/") + sc->getFilename().str();
  if (f.find("/models/model_") != std::string::npos) return 2;
  if (f.find("/harness/") != std::string::npos) return 3;
  if (f.find(opt.repoPrefix) != std::string::npos) return 1;
  return 0;
}
void Exec::checkShared(State& s, Obj* o, const DInst* d) {
  if (!(o->kind == O_HEAP ? o->base < s.sharedMark : o->kind == O_GLOBAL && !o->tls)) return;
  if (s.guards || s.locks) return;
  if (d->I && (isa<AtomicRMWInst>(d->I) || isa<AtomicCmpXchgInst>(d->I) || (isa<StoreInst>(d->I) && cast<StoreInst>(d->I)->isAtomic()))) return;
  for (size_t i = s.frames.size(); i-- > 0;) {
    Frame* f = s.frames[i].p;
    auto& in = f->fn->blocks[f->bb].insts;
    const Instruction* I = f->pc < in.size() ? in[f->pc].I : nullptr;
    int w = 0;
    const DILocation* l = I ? I->getDebugLoc().get() : nullptr;
    for (; l && !w; l = l->getInlinedAt()) w = originOf(l->getScope());
    if (!w) w = originOf(f->fn->F->getSubprogram());
    if (w == 2 || w == 3) return;
    if (w == 1) violate(s, "race", std::string("write to memory shared with concurrent callers (") + (o->kind == O_HEAP ? "object" : "global") + ")", d);
  }
}

E Exec::uninitByte(State& s, Obj* o, u64 off) {
  E v = freshVar(s, "uninit", 8, false);
  VarSet vs = varsOf(v);
  unite(s.uninitVars, vs);
  return v;
}

E Exec::readByte(State& s, size_t idx, u64 off) {
  Obj* o = objAt(*this, s, idx);
  if (o->s.empty() || !o->s[off]) return mkConst(o->c[off], 8);
  if (o->s[off] == UNINIT) {
    E v = uninitByte(s, o, off);
    Obj* w = writable(s, idx);
    w->s[off] = v;
    return v;
  }
  return o->s[off];
}

static E readAt(Exec& x, State& s, size_t idx, u64 off, unsigned n) {
  Obj* o = objAt(x, s, idx);
  bool allc = o->s.empty();
  if (!allc) {
    allc = true;
    for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { allc = false; break; }
  }
  if (allc) {
    u128 v = 0;
    for (unsigned i = 0; i < n; i++) v |= (u128)o->c[off + i] << (8 * i);
    return mkConst(v, 8 * n);
  }
  E r = x.readByte(s, idx, off);
  for (unsigned i = 1; i < n; i++) r = mkConcat(x.readByte(s, idx, off + i), r);
  return r;
}

static unsigned tz(E e) {
  switch (e->kind) {
    case K_CONST: { if (!e->val) return e->width; unsigned n = 0; while (!((e->val >> n) & 1)) n++; return n; }
    case K_SHL: if (e->b->isConst()) return std::min<u64>(e->width, tz(e->a) + (u64)e->b->val); return tz(e->a);
    case K_MUL: return std::min<unsigned>(e->width, tz(e->a) + tz(e->b));
    case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(tz(e->a), tz(e->b));
    case K_AND: return std::max(tz(e->a), tz(e->b));
    case K_CONCAT: { unsigned l = tz(e->b); return l == e->b->width ? l + tz(e->a) : l; }
    case K_ZEXT: { unsigned l = tz(e->a); return l == e->a->width ? e->width : l; }
    case K_ITE: return std::min(tz(e->b), tz(e->c));
    default: return 0;
  }
}

E Exec::readMem(State& s, E addr, unsigned bytes, const DInst* d) {
  if (bytes == 0) return mkConst(0, 8);
  while (!addr->isConst()) {
    checkUninit(s, addr, d);
    u64 a0 = (u64)evalExpr(addr, s.model);
    size_t idx;
    Obj* o = find(s, a0, &idx);
    if (!o || a0 - o->base + bytes > o->size) {
      // the model's own address is invalid
      E bad = mkEq(addr, mkConst(a0, 64));
      require(s, mkNot(bad), "memory", "out-of-bounds read (symbolic address)", d);
      continue;
    }
    E off = mkBin(K_SUB, addr, mkConst(o->base, 64));
    E inb = mkUle(off, mkConst(o->size - bytes, 64));
    std::vector<u128> m2 = s.model;
    Res r = solver.check(s.cons, mkNot(inb), m2);
    if (r == UNKNOWN) throw Unsupported{"solver unknown (address)"};
    if (r == SAT) {
      State* n = fork(s);
      n->model = m2;
      addCons(*n, mkNot(inb));
      work.push_back(n);
      addCons(s, inb);
    }
    if (o->size > 8192) { addr = mkConst(conc(s, addr), 64); break; }
    u64 st = 1ull << std::min(12u, tz(off));
    E res = nullptr;
    u64 lastOff = ((o->size - bytes) / st) * st;
    for (s128 q = lastOff; q >= 0; q -= st) {
      E v = readAt(*this, s, idx, (u64)q, bytes);
      res = res ? mkIte(mkEq(off, mkConst((u64)q, 64)), v, res) : v;
    }
    return res;
  }
  u64 a = (u64)addr->val;
  size_t idx = access(s, a, bytes, false, d);
  return readAt(*this, s, idx, a - objAt(*this, s, idx)->base, bytes);
}

void Exec::writeMem(State& s, E addr, E v, unsigned bytes, const DInst* d) {
  if (!addr->isConst()) {
    checkUninit(s, addr, d);
    u64 a0 = (u64)evalExpr(addr, s.model);
    size_t idx;
    Obj* o = find(s, a0, &idx);
    if (o && a0 - o->base + bytes <= o->size) {
      E off = mkBin(K_SUB, addr, mkConst(o->base, 64));
      E inb = mkUle(off, mkConst(o->size - bytes, 64));
      std::vector<u128> m2 = s.model;
      Res r = solver.check(s.cons, mkNot(inb), m2);
      if (r == UNKNOWN) throw Unsupported{"solver unknown (address)"};
      if (r == SAT) {
        State* n = fork(s);
        n->model = m2;
        addCons(*n, mkNot(inb));
        work.push_back(n);
        addCons(s, inb);
      }
      addr = mkConst(conc(s, addr), 64);
    } else {
      require(s, mkNot(mkEq(addr, mkConst(a0, 64))), "memory", "out-of-bounds write (symbolic address)", d);
      addr = mkConst(conc(s, addr), 64);
    }
  }
  u64 a = (u64)addr->val;
  size_t idx = access(s, a, bytes, true, d);
  Obj* o = writable(s, idx);
  u64 off = a - o->base;
  if (v->isConst()) {
    for (unsigned i = 0; i < bytes; i++) {
      o->c[off + i] = (uint8_t)(v->val >> (8 * i));
      if (!o->s.empty()) o->s[off + i] = nullptr;
    }
    return;
  }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  for (unsigned i = 0; i < bytes; i++) {
    E b = mkExtract(v, 8 * i, 8);
    if (b->isConst()) { o->c[off + i] = (uint8_t)b->val; o->s[off + i] = nullptr; }
    else o->s[off + i] = b;
  }
}

Val Exec::loadTy(State& s, E addr, Type* T, const DInst* d) {
  if (T->isStructTy()) {
    Val r; r.agg = Ref<Agg>(new Agg);
    auto* sl = DL->getStructLayout(cast<StructType>(T));
    for (unsigned i = 0; i < T->getStructNumElements(); i++)
      r.agg->v.push_back(loadTy(s, mkBin(K_ADD, addr, mkConst(sl->getElementOffset(i), 64)), T->getStructElementType(i), d));
    return r;
  }
  if (T->isArrayTy() || T->isVectorTy()) {
    Val r; r.agg = Ref<Agg>(new Agg);
    Type* et = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
    u64 n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    if (T->isVectorTy() && et->isIntegerTy(1)) throw Unsupported{"load of i1 vector"};
    u64 sz = DL->getTypeAllocSize(et);
    for (u64 i = 0; i < n; i++) r.agg->v.push_back(loadTy(s, mkBin(K_ADD, addr, mkConst(sz * i, 64)), et, d));
    return r;
  }
  unsigned w = T->isPointerTy() ? 64 : (unsigned)T->getPrimitiveSizeInBits();
  if (w == 0 || w > 128 || T->isX86_FP80Ty()) throw Unsupported{"load type"};
  unsigned n = (w + 7) / 8;
  E v = readMem(s, addr, n, d);
  return v->width == w ? v : mkExtract(v, 0, w);
}
void Exec::storeTy(State& s, E addr, const Val& v, Type* T, const DInst* d) {
  if (T->isStructTy()) {
    auto* sl = DL->getStructLayout(cast<StructType>(T));
    for (unsigned i = 0; i < T->getStructNumElements(); i++)
      storeTy(s, mkBin(K_ADD, addr, mkConst(sl->getElementOffset(i), 64)), v.agg->v[i], T->getStructElementType(i), d);
    return;
  }
  if (T->isArrayTy() || T->isVectorTy()) {
    Type* et = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
    if (T->isVectorTy() && et->isIntegerTy(1)) throw Unsupported{"store of i1 vector"};
    u64 sz = DL->getTypeAllocSize(et);
    for (u64 i = 0; i < v.agg->v.size(); i++) storeTy(s, mkBin(K_ADD, addr, mkConst(sz * i, 64)), v.agg->v[i], et, d);
    return;
  }
  unsigned w = v.e->width;
  if (T->isX86_FP80Ty()) throw Unsupported{"store type"};
  unsigned n = (w + 7) / 8;
  E x = w == n * 8 ? v.e : mkZExt(v.e, n * 8);
  writeMem(s, addr, x, n, d);
}

std::string Exec::cstr(State& s, E p) {
  std::string r;
  u64 a = conc(s, p);
  for (;;) {
    E b = readMem(s, mkConst(a + r.size(), 64), 1, nullptr);
    if (!b->isConst()) throw Unsupported{"symbolic label"};
    if (!b->val) return r;
    r.push_back((char)b->val);
  }
}

void Exec::copyBytes(State& s, u64 dst, u64 src, u64 n, const DInst* d, bool overlapOk) {
  if (n == 0) return;
  size_t si = access(s, src, n, false, d);
  size_t di = access(s, dst, n, true, d);
  Obj* so = objAt(*this, s, si);
  u64 soff = src - so->base;
  if (!overlapOk && dst != src && dst < src + n && src < dst + n) violate(s, "memory", "memcpy overlap", d);
  std::vector<uint8_t> c(so->c.begin() + soff, so->c.begin() + soff + n);
  std::vector<E> sy;
  if (!so->s.empty()) {
    sy.assign(so->s.begin() + soff, so->s.begin() + soff + n);
    bool any = false;
    for (E e : sy) if (e) { any = true; break; }
    if (!any) sy.clear();
  }
  Obj* o = writable(s, di);
  u64 off = dst - o->base;
  memcpy(&o->c[off], c.data(), n);
  if (!sy.empty()) {
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    std::copy(sy.begin(), sy.end(), o->s.begin() + off);
  } else if (!o->s.empty()) {
    std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr);
  }
}

// ---------------------------------------------------------------- symbolic helpers
E Exec::freshVar(State& s, const std::string& name, unsigned width, bool input) {
  uint32_t ord = s.nvars++;
  E v = mkVar(ord, width);
  if (s.model.size() <= ord) s.model.resize(ord + 1, 0);
  s.model[ord] = input ? 0 : 0xAA;
  if (input) {
    InputNode* n = new InputNode;
    n->r = {name, ord, width};
    n->prev = s.inputs;
    s.inputs = Ref<InputNode>(n);
  }
  return v;
}
void Exec::addCons(State& s, E c) {
  if (c->isTrue()) return;
  if (c->kind == K_AND && c->width == 1) { addCons(s, c->a); addCons(s, c->b); return; }
  for (E x : s.cons) if (x == c) return;
  s.cons.push_back(c);
}
bool Exec::mayBe(State& s, E c, std::vector<u128>* mo) {
  std::vector<u128> m = s.model;
  Res r = solver.check(s.cons, c, m);
  if (r == UNKNOWN) throw Unsupported{"solver returned unknown"};
  if (r == SAT && mo) *mo = m;
  return r == SAT;
}
State* Exec::fork(State& s) {
  __sync_fetch_and_add(&sh->forks, 1);
  State* n = new State(s);
  n->depth++;
  s.depth++;
  return n;
}
void Exec::assume(State& s, E c) {
  if (c->isTrue()) return;
  if (c->isFalse()) throw PathEnd{1};
  std::vector<u128> m;
  if (!mayBe(s, c, &m)) throw PathEnd{1};
  s.model = m;
  addCons(s, c);
}
// Concretise by forking over every feasible value: the sibling re-executes the
// current instruction with the value excluded.
u64 Exec::conc(State& s, E e) {
  if (e->isConst()) return (u64)e->val;
  u128 v = evalExpr(e, s.model);
  E eq = mkEq(e, mkConst(v, e->width));
  std::vector<u128> m;
  if (mayBe(s, mkNot(eq), &m)) {
    State* n = fork(s);
    n->model = m;
    addCons(*n, mkNot(eq));
    work.push_back(n);
  }
  addCons(s, eq);
  return (u64)v;
}

void Exec::checkUninit(State& s, E c, const DInst* d) {
  if (s.uninitVars.empty() || c->isConst()) return;
  if (!intersects(varsOf(c), s.uninitVars)) return;
  // Does the value really depend on what the memory held?  Ask whether two
  // different contents can give two different values.
  std::unordered_map<E, E> memo;
  E c2 = renameUninit(s, c, memo);
  if (c2 == c) return;
  std::vector<u128> m;
  if (!mayBe(s, mkNe(c, c2), &m)) return;
  report(s, m, "uninit", "use of uninitialised memory", d);
  throw PathEnd{2};
}

E Exec::renameUninit(State& s, E e, std::unordered_map<E, E>& memo) {
  if (e->kind == K_CONST) return e;
  if (!intersects(varsOf(e), s.uninitVars)) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E r = e;
  if (e->kind == K_VAR) {
    r = freshVar(s, "uninit", e->width, false);
  } else {
    E a = e->a ? renameUninit(s, e->a, memo) : nullptr;
    E b = e->b ? renameUninit(s, e->b, memo) : nullptr;
    E c = e->c ? renameUninit(s, e->c, memo) : nullptr;
    switch (e->kind) {
      case K_EQ: r = mkEq(a, b); break;
      case K_ITE: r = mkIte(a, b, c); break;
      case K_CONCAT: r = mkConcat(a, b); break;
      case K_EXTRACT: r = mkExtract(a, e->aux, e->width); break;
      case K_ZEXT: r = mkZExt(a, e->width); break;
      case K_SEXT: r = mkSExt(a, e->width); break;
      case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FLT: case K_FLE: case K_FEQ: case K_FUNO: r = mkFBin(e->kind, a, b); break;
      case K_FP2UI: case K_FP2SI: case K_UI2FP: case K_SI2FP: case K_FPEXT: case K_FPTRUNC: case K_FRND: r = mkFConv(e->kind, a, e->width, e->aux); break;
      default: r = mkBin(e->kind, a, b); break;
    }
  }
  memo[e] = r;
  return r;
}

void Exec::writeInputs(State& s, const std::vector<u128>& model, const std::string& file, const std::string& head) {
  std::vector<InputRec*> v;
  for (InputNode* n = s.inputs.p; n; n = n->prev.p) v.push_back(&n->r);
  std::reverse(v.begin(), v.end());
  std::ofstream f(file);
  f << head;
  for (auto* r : v) {
    u128 x = r->ord < model.size() ? model[r->ord] : 0;
    f << "in " << r->name << " " << r->width << " " << (unsigned long long)x << "\n";
  }
  std::vector<OutNode*> o;
  for (OutNode* n = s.outs.p; n; n = n->prev.p) o.push_back(n);
  std::reverse(o.begin(), o.end());
  for (auto* n : o) f << "out " << n->name << " " << (unsigned long long)evalExpr(n->e, model) << "\n";
}

void Exec::report(State& s, const std::vector<u128>& model, const char* kind, const std::string& label, const DInst* d) {
  int n = __sync_fetch_and_add(&sh->violations, 1);
  if (n >= (int)opt.maxViolations) return;
  std::string h;
  h += std::string("kind ") + kind + "\n";
  h += "label " + label + "\n";
  for (size_t i = s.frames.size(); i-- > 0;) {
    Frame* f = s.frames[i].p;
    DInst& di = f->fn->blocks[f->bb].insts[f->pc];
    h += "stack " + demangle(f->fn->F->getName().str()).substr(0, 200) + " at " + locStr(di.I) + "\n";
  }
  writeInputs(s, model, opt.outDir + "/violation-" + std::to_string(n) + ".txt", h);
  if (n + 1 >= (int)opt.maxViolations) sh->stop = 1;
}
void Exec::violate(State& s, const char* kind, const std::string& label, const DInst* d) {
  report(s, s.model, kind, label, d);
  throw PathEnd{2};
}
// The property `ok` must hold on this path for every remaining value.
void Exec::require(State& s, E ok, const char* kind, const std::string& label, const DInst* d) {
  if (ok->isTrue()) return;
  checkUninit(s, ok, d);
  std::vector<u128> m;
  if (mayBe(s, mkNot(ok), &m)) {
    std::vector<u128> keep = s.model;
    report(s, m, kind, label, d);
    // continue with the property assumed, so that other violations stay visible
    std::vector<u128> m2;
    if (!mayBe(s, ok, &m2)) throw PathEnd{2};
    s.model = m2;
    addCons(s, ok);
  }
}
void Exec::reach(State& s, const std::string& l) {
  lock_();
  int i;
  for (i = 0; i < sh->nreach; i++) if (l == sh->reachName[i]) break;
  if (i == sh->nreach && i < MAXREACH) { strncpy(sh->reachName[i], l.c_str(), 63); sh->nreach = i + 1; }
  unlock_();
  if (i < MAXREACH && s.reached.insert(i).second) __sync_fetch_and_add(&sh->reachCount[i], 1);
}

// ---------------------------------------------------------------- execution
Frame* Exec::top(State& s) {
  FrameP& f = s.frames.back();
  if (f->rc > 1) {
    Frame* n = new Frame(*f.p);
    n->rc = 0;
    f = FrameP(n);
  }
  return f.p;
}
Val Exec::get(State& s, const Opnd& o) { return o.reg < 0 ? o.c : s.frames.back()->regs[o.reg]; }
E Exec::getE(State& s, const Opnd& o) {
  E e = o.reg < 0 ? o.c.e : s.frames.back()->regs[o.reg].e;
  return e;
}
void Exec::set(State& s, const DInst& d, Val v) {
  Frame* f = top(s);
  if (d.dest >= 0) f->regs[d.dest] = std::move(v);
  f->pc++;
}
void Exec::jump(State& s, unsigned bb) {
  Frame* f = top(s);
  f->prev = f->bb;
  f->bb = bb;
  f->pc = 0;
  Block& B = f->fn->blocks[bb];
  if (B.gid < MAXBB) sh->bb[B.gid] = 1;
  if (!B.phis.empty()) {
    std::vector<Val> vals;
    for (auto& p : B.phis) {
      bool ok = false;
      for (auto& in : p.in) if (in.first == f->prev) { vals.push_back(get(s, in.second)); ok = true; break; }
      if (!ok) throw Unsupported{"phi"};
    }
    for (size_t i = 0; i < vals.size(); i++) f->regs[B.phis[i].dest] = vals[i];
  }
}
void Exec::pushCall(State& s, Function* F, std::vector<Val>& args, const DInst* d) {
  if (s.frames.size() > 400) violate(s, "memory", "stack overflow (recursion deeper than 400)", d);
  FnInfo* fi = info(F);
  Frame* f = new Frame;
  f->fn = fi;
  f->regs.resize(fi->nregs);
  if (F->isVarArg() && args.size() > F->arg_size()) args.resize(F->arg_size());
  for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) {
    if (F->getArg(i)->hasByValAttr()) {
      u64 n = DL->getTypeAllocSize(F->getArg(i)->getParamByValType());
      u64 a = alloc(s, n, O_STACK, nullptr);
      copyBytes(s, a, conc(s, args[i].e), n, d, true);
      f->allocas.push_back(a);
      f->regs[i] = Val(mkConst(a, 64));
    } else f->regs[i] = args[i];
  }
  s.frames.push_back(FrameP(f));
  Block& B = fi->blocks[0];
  if (B.gid < MAXBB) sh->bb[B.gid] = 1;
}
static void popFrame(Exec& x, State& s) {
  Frame* f = s.frames.back().p;
  for (size_t i = f->allocas.size(); i-- > 0;) {
    size_t idx;
    Obj* o = findIn(s.mem, f->allocas[i], &idx);
    if (o && o->base == f->allocas[i]) s.mem.erase(s.mem.begin() + idx);
  }
  s.frames.pop_back();
}
void Exec::ret(State& s, Val v) {
  popFrame(*this, s);
  if (s.frames.empty()) throw PathEnd{0};
  Frame* f = top(s);
  DInst& d = f->fn->blocks[f->bb].insts[f->pc];
  if (d.dest >= 0) f->regs[d.dest] = v;
  if (d.op == Instruction::Invoke) jump(s, d.succ[0]);
  else f->pc++;
}

void Exec::branch(State& s, E c, unsigned t, unsigned f, const DInst& d) {
  if (c->isConst()) { jump(s, c->val ? t : f); return; }
  checkUninit(s, c, &d);
  bool v = evalExpr(c, s.model) != 0;
  E other = v ? mkNot(c) : c;
  std::vector<u128> m;
  if (mayBe(s, other, &m)) {
    State* n = fork(s);
    n->model = m;
    addCons(*n, other);
    addCons(s, v ? c : mkNot(c));
    jump(*n, v ? f : t);
    work.push_back(n);
  }
  jump(s, v ? t : f);
}

static Kind binKind(unsigned op) {
  switch (op) {
    case Instruction::Add: return K_ADD;
    case Instruction::Sub: return K_SUB;
    case Instruction::Mul: return K_MUL;
    case Instruction::UDiv: return K_UDIV;
    case Instruction::SDiv: return K_SDIV;
    case Instruction::URem: return K_UREM;
    case Instruction::SRem: return K_SREM;
    case Instruction::And: return K_AND;
    case Instruction::Or: return K_OR;
    case Instruction::Xor: return K_XOR;
    case Instruction::Shl: return K_SHL;
    case Instruction::LShr: return K_LSHR;
    case Instruction::AShr: return K_ASHR;
    case Instruction::FAdd: return K_FADD;
    case Instruction::FSub: return K_FSUB;
    case Instruction::FMul: return K_FMUL;
    case Instruction::FDiv: return K_FDIV;
    default: throw Unsupported{"binop"};
  }
}
Val Exec::binop(State& s, DInst& d, const Val& a, const Val& b) {
  if (a.agg) {
    Val r; r.agg = Ref<Agg>(new Agg);
    for (size_t i = 0; i < a.agg->v.size(); i++) r.agg->v.push_back(binop(s, d, a.agg->v[i], b.agg->v[i]));
    return r;
  }
  Kind k = binKind(d.op);
  if (k >= K_FADD) return mkFBin(k, a.e, b.e);
  if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
    require(s, mkNe(b.e, mkConst(0, b.e->width)), "ub", "division by zero", &d);
    if (b.e->isConst() && b.e->val == 0) throw PathEnd{2};
  }
  return mkBin(k, a.e, b.e);
}
Val Exec::icmp(unsigned p, const Val& a, const Val& b) {
  if (a.agg) {
    Val r; r.agg = Ref<Agg>(new Agg);
    for (size_t i = 0; i < a.agg->v.size(); i++) r.agg->v.push_back(icmp(p, a.agg->v[i], b.agg->v[i]));
    return r;
  }
  E x = a.e, y = b.e;
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(x, y);
    case CmpInst::ICMP_NE: return mkNe(x, y);
    case CmpInst::ICMP_ULT: return mkUlt(x, y);
    case CmpInst::ICMP_ULE: return mkUle(x, y);
    case CmpInst::ICMP_UGT: return mkUlt(y, x);
    case CmpInst::ICMP_UGE: return mkUle(y, x);
    case CmpInst::ICMP_SLT: return mkBin(K_SLT, x, y);
    case CmpInst::ICMP_SLE: return mkBin(K_SLE, x, y);
    case CmpInst::ICMP_SGT: return mkBin(K_SLT, y, x);
    case CmpInst::ICMP_SGE: return mkBin(K_SLE, y, x);
    case CmpInst::FCMP_FALSE: return mkBool(false);
    case CmpInst::FCMP_TRUE: return mkBool(true);
    case CmpInst::FCMP_OEQ: return mkFBin(K_FEQ, x, y);
    case CmpInst::FCMP_OLT: return mkFBin(K_FLT, x, y);
    case CmpInst::FCMP_OLE: return mkFBin(K_FLE, x, y);
    case CmpInst::FCMP_OGT: return mkFBin(K_FLT, y, x);
    case CmpInst::FCMP_OGE: return mkFBin(K_FLE, y, x);
    case CmpInst::FCMP_ONE: return mkAnd(mkNot(mkFBin(K_FEQ, x, y)), mkNot(mkFBin(K_FUNO, x, y)));
    case CmpInst::FCMP_ORD: return mkNot(mkFBin(K_FUNO, x, y));
    case CmpInst::FCMP_UNO: return mkFBin(K_FUNO, x, y);
    case CmpInst::FCMP_UEQ: return mkOr(mkFBin(K_FEQ, x, y), mkFBin(K_FUNO, x, y));
    case CmpInst::FCMP_UNE: return mkNot(mkFBin(K_FEQ, x, y));
    case CmpInst::FCMP_ULT: return mkNot(mkFBin(K_FLE, y, x));
    case CmpInst::FCMP_ULE: return mkNot(mkFBin(K_FLT, y, x));
    case CmpInst::FCMP_UGT: return mkNot(mkFBin(K_FLE, x, y));
    case CmpInst::FCMP_UGE: return mkNot(mkFBin(K_FLT, x, y));
  }
  throw Unsupported{"cmp"};
}
static unsigned tyW(Type* T) { return T->isPointerTy() ? 64 : (unsigned)T->getPrimitiveSizeInBits(); }
Val Exec::castop(DInst& d, const Val& a, Type* src, Type* dst) {
  if (a.agg && dst->isVectorTy()) {
    if (d.op == Instruction::BitCast && cast<FixedVectorType>(dst)->getNumElements() != a.agg->v.size()) throw Unsupported{"vector bitcast"};
    Val r; r.agg = Ref<Agg>(new Agg);
    for (auto& x : a.agg->v) r.agg->v.push_back(castop(d, x, src->getScalarType(), dst->getScalarType()));
    return r;
  }
  if (a.agg) {  // vector -> scalar bitcast
    if (d.op != Instruction::BitCast) throw Unsupported{"vector cast"};
    E r = a.agg->v[0].e;
    for (size_t i = 1; i < a.agg->v.size(); i++) r = mkConcat(a.agg->v[i].e, r);
    return r;
  }
  if (dst->isVectorTy()) {
    Val r; r.agg = Ref<Agg>(new Agg);
    unsigned n = cast<FixedVectorType>(dst)->getNumElements(), w = tyW(dst->getScalarType());
    for (unsigned i = 0; i < n; i++) r.agg->v.push_back(Val(mkExtract(a.e, i * w, w)));
    return r;
  }
  unsigned w = tyW(dst);
  if (dst->isX86_FP80Ty() || src->isX86_FP80Ty()) throw Unsupported{"long double"};
  switch (d.op) {
    case Instruction::Trunc: return mkExtract(a.e, 0, w);
    case Instruction::ZExt: return mkZExt(a.e, w);
    case Instruction::SExt: return mkSExt(a.e, w);
    case Instruction::BitCast: return a;
    case Instruction::AddrSpaceCast: return a;
    case Instruction::PtrToInt: return w <= 64 ? mkExtract(a.e, 0, w) : mkZExt(a.e, w);
    case Instruction::IntToPtr: return a.e->width >= 64 ? mkExtract(a.e, 0, 64) : mkZExt(a.e, 64);
    case Instruction::FPToUI: return mkFConv(K_FP2UI, a.e, w);
    case Instruction::FPToSI: return mkFConv(K_FP2SI, a.e, w);
    case Instruction::UIToFP: return mkFConv(K_UI2FP, a.e, w);
    case Instruction::SIToFP: return mkFConv(K_SI2FP, a.e, w);
    case Instruction::FPExt: return mkFConv(K_FPEXT, a.e, w);
    case Instruction::FPTrunc: return mkFConv(K_FPTRUNC, a.e, w);
  }
  throw Unsupported{"cast"};
}

Val Exec::intrinsic(State& s, DInst& d, std::vector<Val>& A, bool& handled) {
  handled = true;
  auto* F = d.callee;
  unsigned w = d.width;
  auto agg2 = [&](E a, E b) { Val r; r.agg = Ref<Agg>(new Agg); r.agg->v = {Val(a), Val(b)}; return r; };
  Intrinsic::ID id = F->getIntrinsicID();
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      u64 n = conc(s, A[2].e);
      if (n == 0) return Val();
      u64 dst = conc(s, A[0].e), src = conc(s, A[1].e);
      copyBytes(s, dst, src, n, &d, true);
      return Val();
    }
    case Intrinsic::memset: {
      u64 n = conc(s, A[2].e);
      if (n == 0) return Val();
      u64 dst = conc(s, A[0].e);
      size_t di = access(s, dst, n, true, &d);
      Obj* o = writable(s, di);
      u64 off = dst - o->base;
      if (A[1].e->isConst()) {
        memset(&o->c[off], (int)A[1].e->val, n);
        if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr);
      } else {
        if (o->s.empty()) o->s.assign(o->size, nullptr);
        for (u64 i = 0; i < n; i++) o->s[off + i] = A[1].e;
      }
      return Val();
    }
    case Intrinsic::umin: return mkIte(mkUlt(A[0].e, A[1].e), A[0].e, A[1].e);
    case Intrinsic::umax: return mkIte(mkUlt(A[0].e, A[1].e), A[1].e, A[0].e);
    case Intrinsic::smin: return mkIte(mkBin(K_SLT, A[0].e, A[1].e), A[0].e, A[1].e);
    case Intrinsic::smax: return mkIte(mkBin(K_SLT, A[0].e, A[1].e), A[1].e, A[0].e);
    case Intrinsic::abs: return mkIte(mkBin(K_SLT, A[0].e, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), A[0].e), A[0].e);
    case Intrinsic::expect: case Intrinsic::expect_with_probability: return A[0];
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return A[0];
    case Intrinsic::is_constant: return mkBool(A[0].e && A[0].e->isConst());
    case Intrinsic::objectsize: return mkConst(A[1].e->val ? 0 : ~(u128)0, w);
    case Intrinsic::uadd_with_overflow: {
      unsigned n = A[0].e->width;
      E r = mkBin(K_ADD, A[0].e, A[1].e);
      (void)n;
      return agg2(r, mkUlt(r, A[0].e));
    }
    case Intrinsic::usub_with_overflow: return agg2(mkBin(K_SUB, A[0].e, A[1].e), mkUlt(A[0].e, A[1].e));
    case Intrinsic::umul_with_overflow: {
      unsigned n = A[0].e->width;
      if (n > 64) throw Unsupported{"umul 128"};
      E r = mkBin(K_MUL, mkZExt(A[0].e, 2 * n), mkZExt(A[1].e, 2 * n));
      return agg2(mkExtract(r, 0, n), mkNe(mkExtract(r, n, n), mkConst(0, n)));
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned n = A[0].e->width;
      Kind k = id == Intrinsic::sadd_with_overflow ? K_ADD : K_SUB;
      if (noSignedOverflow(k, A[0].e, A[1].e)) return agg2(mkBin(k, A[0].e, A[1].e), mkBool(false));
      E r = mkBin(k, mkSExt(A[0].e, n + 1), mkSExt(A[1].e, n + 1));
      E lo = mkBin(k, A[0].e, A[1].e);
      return agg2(lo, mkNe(mkExtract(r, n, 1), mkExtract(r, n - 1, 1)));
    }
    case Intrinsic::smul_with_overflow: {
      unsigned n = A[0].e->width;
      if (n > 64) throw Unsupported{"smul 128"};
      if (noSignedOverflow(K_MUL, A[0].e, A[1].e)) return agg2(mkBin(K_MUL, A[0].e, A[1].e), mkBool(false));
      E r = mkBin(K_MUL, mkSExt(A[0].e, 2 * n), mkSExt(A[1].e, 2 * n));
      E lo = mkExtract(r, 0, n);
      return agg2(lo, mkNe(mkSExt(lo, 2 * n), r));
    }
    case Intrinsic::uadd_sat: {
      E r = mkBin(K_ADD, A[0].e, A[1].e);
      return mkIte(mkUlt(r, A[0].e), mkConst(~(u128)0, w), r);
    }
    case Intrinsic::usub_sat: return mkIte(mkUlt(A[0].e, A[1].e), mkConst(0, w), mkBin(K_SUB, A[0].e, A[1].e));
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
      Kind k = id == Intrinsic::sadd_sat ? K_ADD : K_SUB;
      E r = mkBin(k, mkSExt(A[0].e, w + 1), mkSExt(A[1].e, w + 1));
      E mx = mkConst(maskOf(w - 1), w), mn = mkConst((u128)1 << (w - 1), w);
      E neg = mkExtract(r, w, 1), s1 = mkExtract(r, w - 1, 1);
      return mkIte(mkEq(neg, s1), mkExtract(r, 0, w), mkIte(neg, mn, mx));
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E sh_ = mkBin(K_UREM, A[2].e, mkConst(w, w));
      if (2 * w > 128) throw Unsupported{"fshl 128"};
      E cat = mkConcat(A[0].e, A[1].e);
      if (id == Intrinsic::fshl) return mkExtract(mkBin(K_SHL, cat, mkZExt(sh_, 2 * w)), w, w);
      return mkExtract(mkBin(K_LSHR, cat, mkZExt(sh_, 2 * w)), 0, w);
    }
    case Intrinsic::bswap: {
      E r = mkExtract(A[0].e, 0, 8);
      for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(A[0].e, 8 * i, 8));
      return r;
    }
    case Intrinsic::ctpop: {
      E r = mkConst(0, w);
      for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZExt(mkExtract(A[0].e, i, 1), w));
      return r;
    }
    case Intrinsic::ctlz: {
      E r = mkConst(w, w);
      for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(A[0].e, i, 1), mkConst(w - 1 - i, w), r);
      return r;
    }
    case Intrinsic::cttz: {
      E r = mkConst(w, w);
      for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(A[0].e, i, 1), mkConst(i, w), r);
      return r;
    }
    case Intrinsic::fabs: return mkBin(K_AND, A[0].e, mkConst(maskOf(w - 1), w));
    case Intrinsic::floor: return mkFConv(K_FRND, A[0].e, w, 1);
    case Intrinsic::ceil: return mkFConv(K_FRND, A[0].e, w, 2);
    case Intrinsic::trunc: return mkFConv(K_FRND, A[0].e, w, 0);
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return mkFConv(K_FRND, A[0].e, w, 3);
    case Intrinsic::round: return mkFConv(K_FRND, A[0].e, w, 4);
    case Intrinsic::minnum: return mkIte(mkFBin(K_FUNO, A[0].e, A[0].e), A[1].e, mkIte(mkFBin(K_FUNO, A[1].e, A[1].e), A[0].e, mkIte(mkFBin(K_FLT, A[1].e, A[0].e), A[1].e, A[0].e)));
    case Intrinsic::maxnum: return mkIte(mkFBin(K_FUNO, A[0].e, A[0].e), A[1].e, mkIte(mkFBin(K_FUNO, A[1].e, A[1].e), A[0].e, mkIte(mkFBin(K_FLT, A[0].e, A[1].e), A[1].e, A[0].e)));
    case Intrinsic::copysign: return mkConcat(mkExtract(A[1].e, w - 1, 1), mkExtract(A[0].e, 0, w - 1));
    case Intrinsic::fmuladd: return mkFBin(K_FADD, mkFBin(K_FMUL, A[0].e, A[1].e), A[2].e);
    case Intrinsic::is_fpclass: {
      if (!A[1].e->isConst()) break;
      unsigned m = (unsigned)A[1].e->val, ww = A[0].e->width;
      unsigned eb = ww == 64 ? 11 : 8, mb = ww == 64 ? 52 : 23;
      E man = mkExtract(A[0].e, 0, mb), ex = mkExtract(A[0].e, mb, eb), sg = mkExtract(A[0].e, ww - 1, 1);
      E mz = mkEq(man, mkConst(0, mb)), ez = mkEq(ex, mkConst(0, eb)), em = mkEq(ex, mkConst(maskOf(eb), eb));
      E q = mkExtract(man, mb - 1, 1);
      E r = mkBool(false);
      auto add = [&](unsigned bit, E c) { if (m & bit) r = mkOr(r, c); };
      add(1, mkAnd(mkAnd(em, mkNot(mz)), mkNot(q)));
      add(2, mkAnd(mkAnd(em, mkNot(mz)), q));
      add(4, mkAnd(mkAnd(em, mz), sg));
      add(8, mkAnd(mkAnd(mkNot(em), mkNot(ez)), sg));
      add(16, mkAnd(mkAnd(ez, mkNot(mz)), sg));
      add(32, mkAnd(mkAnd(ez, mz), sg));
      add(64, mkAnd(mkAnd(ez, mz), mkNot(sg)));
      add(128, mkAnd(mkAnd(ez, mkNot(mz)), mkNot(sg)));
      add(256, mkAnd(mkAnd(mkNot(em), mkNot(ez)), mkNot(sg)));
      add(512, mkAnd(mkAnd(em, mz), mkNot(sg)));
      return r;
    }
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: break;
    case Intrinsic::stacksave: return mkConst(0, 64);
    case Intrinsic::stackrestore: return Val();
    case Intrinsic::trap: violate(s, "ub", "trap", &d);
    case Intrinsic::ubsantrap: {
      u64 k = (u64)A[0].e->val;
      const char* nm = "undefined behaviour";
      switch (k) {
        case 0: nm = "undefined behaviour: add overflow"; break;
        case 3: nm = "undefined behaviour: division overflow"; break;
        case 5: nm = "undefined behaviour: float cast overflow"; break;
        case 12: nm = "undefined behaviour: multiplication overflow"; break;
        case 13: nm = "undefined behaviour: negation overflow"; break;
        case 20: nm = "undefined behaviour: shift out of bounds"; break;
        case 21: nm = "undefined behaviour: subtraction overflow"; break;
        case 1: nm = "undefined behaviour: unreachable"; break;
      }
      violate(s, "ub", nm, &d);
    }
    case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::donothing: return Val();
    case Intrinsic::invariant_start: return mkConst(0, 64);
    case Intrinsic::eh_typeid_for: return mkConst((u64)A[0].e->val & 0x7fffffff, 32);
    case Intrinsic::threadlocal_address: return A[0];
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
      E r = A[0].agg->v[0].e;
      Kind k = id == Intrinsic::vector_reduce_add ? K_ADD : id == Intrinsic::vector_reduce_or ? K_OR : id == Intrinsic::vector_reduce_and ? K_AND : K_XOR;
      for (size_t i = 1; i < A[0].agg->v.size(); i++) r = mkBin(k, r, A[0].agg->v[i].e);
      return r;
    }
    default: break;
  }
  handled = false;
  return Val();
}

u64 Exec::rd64(State& s, u64 a) {
  E e = readMem(s, mkConst(a, 64), 8, nullptr);
  if (!e->isConst()) throw Unsupported{"symbolic typeinfo"};
  return (u64)e->val;
}
// Does a handler for type_info `c` catch an object of type_info `t`?  Walks
// single-inheritance chains (__si_class_type_info: vptr, name, base).
bool Exec::typeMatches(State& s, u64 t, u64 c) {
  if (c == 0) return true;
  for (int i = 0; i < 20; i++) {
    if (t == c) return true;
    size_t idx;
    Obj* o = find(s, t, &idx);
    if (!o) return false;
    if (o->kind == O_OPAQUE || o->size < 24) {
      // externally defined type_info (libstdc++): name-based knowledge of the std hierarchy
      static std::map<std::string, std::string> base = {
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
        {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
      std::string n = o->fnName ? o->fnName : "";
      auto it = base.find(n);
      if (it == base.end()) return false;
      auto* g = M->getNamedValue(it->second);
      if (!g) {
        // walk further by name
        std::string nm = it->second;
        u64 found = 0;
        while (!found) {
          auto it2 = base.find(nm);
          if (it2 == base.end()) return false;
          nm = it2->second;
          if (auto* g2 = M->getNamedValue(nm)) found = gaddr[g2];
        }
        t = found;
        continue;
      }
      t = gaddr[g];
      continue;
    }
    t = rd64(s, t + 16);
  }
  return false;
}
bool Exec::unwind(State& s, u64 exnObj, u64 tinfo, const DInst* d) {
  // phase 1: is there a handler?
  bool found = false;
  for (size_t i = s.frames.size(); i-- > 0 && !found;) {
    Frame* f = s.frames[i].p;
    DInst& ci = f->fn->blocks[f->bb].insts[f->pc];
    if (ci.op != Instruction::Invoke) continue;
    Block& lb = f->fn->blocks[ci.succ[1]];
    for (auto& li : lb.insts) {
      if (li.op != Instruction::LandingPad) continue;
      for (auto& o : li.ops) if (o.c.e && o.c.e->val != ~0ull && typeMatches(s, tinfo, (u64)o.c.e->val)) found = true;
      break;
    }
  }
  if (!found) violate(s, "exception", "uncaught exception", d);
  // phase 2
  while (!s.frames.empty()) {
    Frame* f = top(s);
    DInst& ci = f->fn->blocks[f->bb].insts[f->pc];
    if (ci.op == Instruction::Invoke) {
      unsigned lbi = ci.succ[1];
      Block& lb = f->fn->blocks[lbi];
      for (auto& li : lb.insts) {
        if (li.op != Instruction::LandingPad) continue;
        auto* lp = cast<LandingPadInst>(li.I);
        u64 sel = 0;
        bool hit = lp->isCleanup();
        for (auto& o : li.ops)
          if (o.c.e && o.c.e->val != ~0ull && typeMatches(s, tinfo, (u64)o.c.e->val)) { sel = o.c.e->val & 0x7fffffff; if (!sel) sel = 1; hit = true; break; }
        if (hit) {
          jump(s, lbi);
          f = top(s);
          Val v; v.agg = Ref<Agg>(new Agg);
          v.agg->v = {Val(mkConst(exnObj, 64)), Val(mkConst(sel, 32))};
          f->exn = v;
          return true;
        }
        break;
      }
    }
    popFrame(*this, s);
  }
  throw Unsupported{"unwind past main"};
}

void Exec::doCall(State& s, DInst& d) {
  std::vector<Val> args;
  args.reserve(d.ops.size());
  for (auto& o : d.ops) args.push_back(get(s, o));
  Function* F = d.callee;
  Handler h = d.h;
  if (!F) {
    auto* cb = cast<CallBase>(d.I);
    if (cb->isInlineAsm()) {
      auto* ia = cast<InlineAsm>(cb->getCalledOperand());
      if (ia->getAsmString().empty() && d.ty->isVoidTy()) { top(s)->pc++; return; }
      throw Unsupported{"inline asm"};
    }
    E fp = args.back().e;
    args.pop_back();
    if (!fp) throw Unsupported{"call"};
    u64 a = conc(s, fp);
    auto it = fnAt.find(a);
    if (it == fnAt.end()) violate(s, "memory", "call through invalid function pointer", &d);
    F = it->second;
    auto hi = handlers.find(F->getName().str());
    if (hi != handlers.end() && F->isDeclaration()) h = hi->second;
  }
  auto complete = [&](Val v) {
    if (d.op == Instruction::Invoke) {
      Frame* f = top(s);
      if (d.dest >= 0) f->regs[d.dest] = v;
      jump(s, d.succ[0]);
    } else set(s, d, v);
  };
  if (h) {
    size_t nf = s.frames.size();
    Frame* before = s.frames.back().p;
    unsigned bb0 = before->bb;
    Val v = h(*this, s, d, args);
    // handlers that redirect control (throw) leave a different frame/block
    if (s.unwinding) { s.unwinding = false; return; }
    (void)nf; (void)bb0;
    complete(v);
    return;
  }
  if (F->isDeclaration()) {
    if (F->isIntrinsic()) {
      bool ok;
      DInst* dd = &d;
      Function* save = dd->callee;
      dd->callee = F;
      Val v = intrinsic(s, d, args, ok);
      dd->callee = save;
      if (!ok) throw Unsupported{"intrinsic " + F->getName().str()};
      complete(v);
      return;
    }
    throw Unsupported{"external function " + demangle(F->getName().str())};
  }
  pushCall(s, F, args, &d);
}

void Exec::step(State& s) {
  Frame* f = s.frames.back().p;
  DInst& d = f->fn->blocks[f->bb].insts[f->pc];
  s.insts++;
  switch (d.op) {
    case 0: throw Unsupported{"instruction"};
    case Instruction::Ret:
      ret(s, d.ops.empty() ? Val() : get(s, d.ops[0]));
      return;
    case Instruction::Br:
      if (d.ops.empty()) jump(s, d.succ[0]);
      else branch(s, getE(s, d.ops[0]), d.succ[0], d.succ[1], d);
      return;
    case Instruction::Switch: {
      E c = getE(s, d.ops[0]);
      if (c->isConst()) {
        for (auto& k : d.cases) if (k.first == c->val) { jump(s, k.second); return; }
        jump(s, d.succ[0]);
        return;
      }
      checkUninit(s, c, &d);
      // group the cases by destination
      std::map<unsigned, E> byDest;
      E any = mkBool(false);
      for (auto& k : d.cases) {
        E eq = mkEq(c, mkConst(k.first, c->width));
        any = mkOr(any, eq);
        auto it = byDest.find(k.second);
        if (it == byDest.end()) byDest[k.second] = eq; else it->second = mkOr(it->second, eq);
      }
      E def = mkNot(any);
      auto it = byDest.find(d.succ[0]);
      if (it == byDest.end()) byDest[d.succ[0]] = def; else it->second = mkOr(it->second, def);
      unsigned take = ~0u;
      for (auto& p : byDest) if (evalExpr(p.second, s.model)) take = p.first;
      for (auto& p : byDest) {
        if (p.first == take) continue;
        std::vector<u128> m;
        if (!mayBe(s, p.second, &m)) continue;
        State* n = fork(s);
        n->model = m;
        addCons(*n, p.second);
        jump(*n, p.first);
        work.push_back(n);
      }
      addCons(s, byDest[take]);
      jump(s, take);
      return;
    }
    case Instruction::Unreachable: violate(s, "ub", "unreachable executed", &d);
    case Instruction::Call: case Instruction::Invoke: doCall(s, d); return;
    case Instruction::Alloca: {
      u64 n = conc(s, getE(s, d.ops[0]));
      u64 a = alloc(s, n * d.allocSize, O_STACK, d.I);
      top(s)->allocas.push_back(a);
      set(s, d, Val(mkConst(a, 64)));
      return;
    }
    case Instruction::Load: {
      Val v = loadTy(s, getE(s, d.ops[0]), d.ty, &d);
      set(s, d, v);
      return;
    }
    case Instruction::Store: {
      storeTy(s, getE(s, d.ops[1]), get(s, d.ops[0]), d.I->getOperand(0)->getType(), &d);
      top(s)->pc++;
      return;
    }
    case Instruction::GetElementPtr: {
      E p = getE(s, d.ops[0]);
      if (!p) throw Unsupported{"vector gep"};
      if (d.gepConst) p = mkBin(K_ADD, p, mkConst(d.gepConst, 64));
      for (auto& g : d.gepVar) {
        E i = getE(s, d.ops[g.first]);
        i = i->width < 64 ? mkSExt(i, 64) : i;
        p = mkBin(K_ADD, p, mkBin(K_MUL, i, mkConst(g.second, 64)));
      }
      set(s, d, Val(p));
      return;
    }
    case Instruction::ICmp: case Instruction::FCmp:
      set(s, d, icmp(d.pred, get(s, d.ops[0]), get(s, d.ops[1])));
      return;
    case Instruction::Select: {
      Val c = get(s, d.ops[0]);
      if (c.agg) {
        Val a = get(s, d.ops[1]), b = get(s, d.ops[2]);
        Val r; r.agg = Ref<Agg>(new Agg);
        for (size_t i = 0; i < c.agg->v.size(); i++) r.agg->v.push_back(Val(mkIte(c.agg->v[i].e, a.agg->v[i].e, b.agg->v[i].e)));
        set(s, d, r);
        return;
      }
      if (!c.e->isConst() && (d.ty->isPointerTy() || !get(s, d.ops[1]).e)) {
        // fork instead of building a pointer ite: sibling re-executes with the condition decided
        checkUninit(s, c.e, &d);
        u64 v = conc(s, c.e);
        set(s, d, get(s, d.ops[v ? 1 : 2]));
        return;
      }
      if (c.e->isConst()) set(s, d, get(s, d.ops[c.e->val ? 1 : 2]));
      else set(s, d, Val(mkIte(c.e, getE(s, d.ops[1]), getE(s, d.ops[2]))));
      return;
    }
    case Instruction::ExtractValue: {
      Val v = get(s, d.ops[0]);
      for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { Val t = v.agg->v[i]; v = t; }
      set(s, d, v);
      return;
    }
    case Instruction::InsertValue: {
      Val v = get(s, d.ops[0]), x = get(s, d.ops[1]);
      auto idx = cast<InsertValueInst>(d.I)->getIndices();
      std::function<Val(const Val&, unsigned)> ins = [&](const Val& a, unsigned k) -> Val {
        Val r; r.agg = Ref<Agg>(new Agg);
        r.agg->v = a.agg->v;
        if (k + 1 == idx.size()) r.agg->v[idx[k]] = x;
        else r.agg->v[idx[k]] = ins(a.agg->v[idx[k]], k + 1);
        return r;
      };
      set(s, d, ins(v, 0));
      return;
    }
    case Instruction::ExtractElement: {
      Val v = get(s, d.ops[0]);
      u64 i = conc(s, getE(s, d.ops[1]));
      set(s, d, v.agg->v.at(i));
      return;
    }
    case Instruction::InsertElement: {
      u64 i = conc(s, getE(s, d.ops[2]));
      Val v = get(s, d.ops[0]);
      Val r; r.agg = Ref<Agg>(new Agg);
      r.agg->v = v.agg->v;
      r.agg->v.at(i) = get(s, d.ops[1]);
      set(s, d, r);
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(d.I);
      Val a = get(s, d.ops[0]), b = get(s, d.ops[1]);
      Val r; r.agg = Ref<Agg>(new Agg);
      size_t n = a.agg->v.size();
      for (int m : sv->getShuffleMask())
        r.agg->v.push_back(m < 0 ? a.agg->v[0] : (size_t)m < n ? a.agg->v[m] : b.agg->v[m - n]);
      set(s, d, r);
      return;
    }
    case Instruction::Freeze: set(s, d, get(s, d.ops[0])); return;
    case Instruction::FNeg: {
      E a = getE(s, d.ops[0]);
      set(s, d, Val(mkBin(K_XOR, a, mkConst((u128)1 << (a->width - 1), a->width))));
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast:
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPToUI: case Instruction::FPToSI:
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::AddrSpaceCast:
      set(s, d, castop(d, get(s, d.ops[0]), d.I->getOperand(0)->getType(), d.ty));
      return;
    case Instruction::Fence: top(s)->pc++; return;
    case Instruction::AtomicRMW: {
      auto* rmw = cast<AtomicRMWInst>(d.I);
      E p = getE(s, d.ops[0]);
      Val old = loadTy(s, p, d.ty, &d);
      E x = getE(s, d.ops[1]), n;
      switch (rmw->getOperation()) {
        case AtomicRMWInst::Xchg: n = x; break;
        case AtomicRMWInst::Add: n = mkBin(K_ADD, old.e, x); break;
        case AtomicRMWInst::Sub: n = mkBin(K_SUB, old.e, x); break;
        case AtomicRMWInst::And: n = mkBin(K_AND, old.e, x); break;
        case AtomicRMWInst::Or: n = mkBin(K_OR, old.e, x); break;
        case AtomicRMWInst::Xor: n = mkBin(K_XOR, old.e, x); break;
        default: throw Unsupported{"atomicrmw"};
      }
      storeTy(s, p, Val(n), d.ty, &d);
      set(s, d, old);
      return;
    }
    case Instruction::AtomicCmpXchg: {
      E p = getE(s, d.ops[0]);
      Type* T = d.I->getOperand(1)->getType();
      Val old = loadTy(s, p, T, &d);
      E eq = mkEq(old.e, getE(s, d.ops[1]));
      storeTy(s, p, Val(mkIte(eq, getE(s, d.ops[2]), old.e)), T, &d);
      Val r; r.agg = Ref<Agg>(new Agg);
      r.agg->v = {old, Val(eq)};
      set(s, d, r);
      return;
    }
    case Instruction::LandingPad: {
      Val v = s.frames.back()->exn;
      set(s, d, v);
      return;
    }
    case Instruction::Resume: {
      Val v = get(s, d.ops[0]);
      u64 obj = (u64)v.agg->v[0].e->val;
      u64 ti = 0;
      for (auto& c : s.caught) if (c.obj == obj) ti = c.tinfo;
      popFrame(*this, s);
      unwind(s, obj, ti, &d);
      return;
    }
    default: {
      if (Instruction::isBinaryOp(d.op)) {
        if (d.op == Instruction::FRem) throw Unsupported{"frem"};
        Val v = binop(s, d, get(s, d.ops[0]), get(s, d.ops[1]));
        set(s, d, v);
        return;
      }
      throw Unsupported{std::string("opcode ") + d.I->getOpcodeName()};
    }
  }
}

// ---------------------------------------------------------------- handlers
#define H(name) static Val name(Exec& x, State& s, DInst& d, std::vector<Val>& A)
H(h_nop) { return d.dest >= 0 ? Val(mkConst(0, d.width ? d.width : 64)) : Val(); }
static Val doAlloc(Exec& x, State& s, DInst& d, E n, bool zero, uint8_t ak) {
  u64 sz = x.conc(s, n);
  if (sz > (1ull << 40)) {
    if (ak >= 2) x.violate(s, "exception", "allocation size too large (bad_alloc)", &d);
    return Val(mkConst(0, 64));
  }
  return Val(mkConst(x.alloc(s, sz, O_HEAP, d.I, zero, ak), 64));
}
H(h_malloc) { return doAlloc(x, s, d, A[0].e, false, 1); }
H(h_calloc) { return doAlloc(x, s, d, mkBin(K_MUL, A[0].e, A[1].e), true, 1); }
H(h_new) { return doAlloc(x, s, d, A[0].e, false, 2); }
H(h_newarr) { return doAlloc(x, s, d, A[0].e, false, 3); }
static void doFree(Exec& x, State& s, DInst& d, E p, uint8_t ak) {
  x.checkUninit(s, p, &d);
  u64 a = x.conc(s, p);
  if (!a) return;
  size_t idx;
  Obj* o = findIn(s.mem, a, &idx);
  if (!o || o->base != a || o->kind != O_HEAP) x.violate(s, "memory", a >= 0x10000000000ull && !o ? "double free or free of invalid pointer" : "free of invalid pointer", &d);
  if (o->allocKind != ak) x.violate(s, "memory", "mismatched allocation and deallocation", &d);
  if (s.sharedMark) x.checkShared(s, o, &d);
  s.mem.erase(s.mem.begin() + idx);
}
H(h_free) { doFree(x, s, d, A[0].e, 1); return Val(); }
H(h_delete) { doFree(x, s, d, A[0].e, 2); return Val(); }
H(h_deletearr) { doFree(x, s, d, A[0].e, 3); return Val(); }
H(h_realloc) {
  u64 n = x.conc(s, A[1].e), p = x.conc(s, A[0].e);
  u64 q = x.alloc(s, n, O_HEAP, d.I, false, 1);
  if (p) {
    size_t idx;
    Obj* o = findIn(s.mem, p, &idx);
    if (!o || o->base != p || o->kind != O_HEAP || o->allocKind != 1) x.violate(s, "memory", "realloc of invalid pointer", &d);
    u64 m = std::min(n, o->size);
    x.copyBytes(s, q, p, m, &d, true);
    findIn(s.mem, p, &idx);
    s.mem.erase(s.mem.begin() + idx);
  }
  return Val(mkConst(q, 64));
}
static std::vector<E> readN(Exec& x, State& s, E p, u64 n, const DInst* d) {
  std::vector<E> v;
  if (!n) return v;
  u64 a = x.conc(s, p);
  size_t idx = x.access(s, a, n, false, d);
  u64 off = a - objAt(x, s, idx)->base;
  for (u64 i = 0; i < n; i++) v.push_back(x.readByte(s, idx, off + i));
  return v;
}
static E allEq(const std::vector<E>& a, const std::vector<E>& b) {
  E r = mkBool(true);
  for (size_t i = 0; i < a.size(); i++) r = mkAnd(r, mkEq(a[i], b[i]));
  return r;
}
H(h_bcmp) {
  u64 n = x.conc(s, A[2].e);
  if (!n) return Val(mkConst(0, 32));
  x.conc(s, A[0].e); x.conc(s, A[1].e);
  auto a = readN(x, s, A[0].e, n, &d), b = readN(x, s, A[1].e, n, &d);
  return Val(mkZExt(mkNot(allEq(a, b)), 32));
}
H(h_memcmp) {
  u64 n = x.conc(s, A[2].e);
  if (!n) return Val(mkConst(0, 32));
  x.conc(s, A[0].e); x.conc(s, A[1].e);
  auto a = readN(x, s, A[0].e, n, &d), b = readN(x, s, A[1].e, n, &d);
  E eq = allEq(a, b);
  E lt = mkBool(false);
  for (size_t i = n; i-- > 0;) lt = mkOr(mkUlt(a[i], b[i]), mkAnd(mkEq(a[i], b[i]), lt));
  return Val(mkIte(eq, mkConst(0, 32), mkIte(lt, mkConst(~(u128)0, 32), mkConst(1, 32))));
}
H(h_strlen) {
  u64 a = x.conc(s, A[0].e);
  for (u64 n = 0;; n++) {
    E b = x.readMem(s, mkConst(a + n, 64), 1, &d);
    x.checkUninit(s, b, &d);
    if (x.conc(s, mkEq(b, mkConst(0, 8)))) return Val(mkConst(n, 64));
  }
}
static Val strcmpN(Exec& x, State& s, DInst& d, E p, E q, u64 n) {
  u64 a = x.conc(s, p), b = x.conc(s, q);
  for (u64 i = 0; i < n; i++) {
    E u = x.readMem(s, mkConst(a + i, 64), 1, &d), v = x.readMem(s, mkConst(b + i, 64), 1, &d);
    if (!x.conc(s, mkEq(u, v))) return Val(mkIte(mkUlt(u, v), mkConst(~(u128)0, 32), mkConst(1, 32)));
    if (x.conc(s, mkEq(u, mkConst(0, 8)))) break;
  }
  return Val(mkConst(0, 32));
}
H(h_strcmp) { return strcmpN(x, s, d, A[0].e, A[1].e, ~0ull); }
H(h_strncmp) { u64 n = x.conc(s, A[2].e); return strcmpN(x, s, d, A[0].e, A[1].e, n); }
H(h_memchr) {
  u64 n = x.conc(s, A[2].e);
  u64 a = x.conc(s, A[0].e);
  E c = mkExtract(A[1].e, 0, 8);
  if (!n) return Val(mkConst(0, 64));
  auto v = readN(x, s, A[0].e, n, &d);
  E r = mkConst(0, 64);
  for (u64 i = n; i-- > 0;) r = mkIte(mkEq(v[i], c), mkConst(a + i, 64), r);
  x.checkUninit(s, r, &d);
  return Val(mkConst(x.conc(s, r), 64));
}
H(h_memrchr) {
  u64 n = x.conc(s, A[2].e);
  u64 a = x.conc(s, A[0].e);
  E c = mkExtract(A[1].e, 0, 8);
  if (!n) return Val(mkConst(0, 64));
  auto v = readN(x, s, A[0].e, n, &d);
  E r = mkConst(0, 64);
  for (u64 i = 0; i < n; i++) r = mkIte(mkEq(v[i], c), mkConst(a + i, 64), r);
  return Val(mkConst(x.conc(s, r), 64));
}
H(h_strchr) {
  u64 a = x.conc(s, A[0].e);
  E c = mkExtract(A[1].e, 0, 8);
  for (u64 i = 0;; i++) {
    E u = x.readMem(s, mkConst(a + i, 64), 1, &d);
    if (x.conc(s, mkEq(u, c))) return Val(mkConst(a + i, 64));
    if (x.conc(s, mkEq(u, mkConst(0, 8)))) return Val(mkConst(0, 64));
  }
}
H(h_memcpy) {
  u64 n = x.conc(s, A[2].e);
  if (n) { u64 p = x.conc(s, A[0].e), q = x.conc(s, A[1].e); x.copyBytes(s, p, q, n, &d, true); }
  return A[0];
}
H(h_guard_acquire) {
  E b = x.readMem(s, A[0].e, 1, &d);
  if (b->isConst() && b->val == 0) s.guards++;
  return Val(mkIte(mkEq(b, mkConst(0, 8)), mkConst(1, 32), mkConst(0, 32)));
}
H(h_guard_release) { x.writeMem(s, A[0].e, mkConst(1, 8), 1, &d); if (s.guards) s.guards--; return Val(); }
H(h_guard_abort) { if (s.guards) s.guards--; return Val(); }
// one thread at a time: locks only count
H(h_lock) { s.locks++; return Val(mkConst(0, 32)); }
H(h_rdlock) { s.rdlocks++; return Val(mkConst(0, 32)); }
H(h_unlock) { if (s.rdlocks) s.rdlocks--; else if (s.locks) s.locks--; return Val(mkConst(0, 32)); }
H(h_zero) { return Val(mkConst(0, 32)); }
H(h_sym_shared) { s.sharedMark = x.conc(s, A[0].e) ? s.nextAddr : 0; return Val(); }
H(h_assert_fail) {
  std::string m;
  try { m = x.cstr(s, A[0].e); } catch (Unsupported&) {}
  x.violate(s, "assert", "assertion failed: " + m, &d);
}
H(h_abort) { x.violate(s, "abort", "abort", &d); }
H(h_terminate) { x.violate(s, "abort", "std::terminate", &d); }
H(h_purevirt) { x.violate(s, "abort", "pure virtual call", &d); }
H(h_exit) { throw PathEnd{0}; }

// exceptions
H(h_alloc_exn) {
  u64 n = x.conc(s, A[0].e);
  return Val(mkConst(x.alloc(s, n < 8 ? 8 : n, O_HEAP, d.I, true, 9), 64));
}
H(h_free_exn) { return Val(); }
H(h_throw) {
  u64 o = x.conc(s, A[0].e), t = x.conc(s, A[1].e), dt = x.conc(s, A[2].e);
  ExnState es; es.obj = o; es.tinfo = t; es.dtor = dt;
  s.caught.push_back(es);
  x.unwind(s, o, t, &d);
  s.unwinding = true;
  return Val();
}
// std::__throw_xxx: exception objects of library types, opaque contents
static Val throwStd(Exec& x, State& s, DInst& d, const char* ti) {
  auto* g = x.M->getNamedValue(ti);
  u64 t = 0;
  static u64 fake = 0;
  if (g) t = x.gaddr[g];
  else {
    // no handler can name the type itself; handlers may name a base
    std::map<std::string, std::vector<std::string>> bases = {
      {"_ZTISt12length_error", {"_ZTISt11logic_error", "_ZTISt9exception"}},
      {"_ZTISt12out_of_range", {"_ZTISt11logic_error", "_ZTISt9exception"}},
      {"_ZTISt16invalid_argument", {"_ZTISt11logic_error", "_ZTISt9exception"}},
      {"_ZTISt11logic_error", {"_ZTISt9exception"}},
      {"_ZTISt9bad_alloc", {"_ZTISt9exception"}},
      {"_ZTISt20bad_array_new_length", {"_ZTISt9bad_alloc", "_ZTISt9exception"}},
      {"_ZTISt17bad_function_call", {"_ZTISt9exception"}}};
    for (auto& b : bases[ti]) if (auto* gb = x.M->getNamedValue(b)) { t = x.gaddr[gb]; break; }
    if (!t) t = 0xdead0000 + (++fake & 0);
  }
  u64 o = x.alloc(s, 16, O_HEAP, d.I, true, 9);
  ExnState es; es.obj = o; es.tinfo = t;
  s.caught.push_back(es);
  x.unwind(s, o, t, &d);
  s.unwinding = true;
  return Val();
}
H(h_throw_length) { return throwStd(x, s, d, "_ZTISt12length_error"); }
H(h_throw_oor) { return throwStd(x, s, d, "_ZTISt12out_of_range"); }
H(h_throw_logic) { return throwStd(x, s, d, "_ZTISt11logic_error"); }
H(h_throw_invarg) { return throwStd(x, s, d, "_ZTISt16invalid_argument"); }
H(h_throw_badalloc) { return throwStd(x, s, d, "_ZTISt9bad_alloc"); }
H(h_throw_badfn) { return throwStd(x, s, d, "_ZTISt17bad_function_call"); }
H(h_begin_catch) { return A[0]; }
H(h_end_catch) { return Val(); }
H(h_rethrow) {
  if (s.caught.empty()) x.violate(s, "abort", "std::terminate (rethrow without exception)", &d);
  ExnState es = s.caught.back();
  x.unwind(s, es.obj, es.tinfo, &d);
  s.unwinding = true;
  return Val();
}

// harness API
static Val symInt(Exec& x, State& s, E name, unsigned w) {
  std::string n = x.cstr(s, name);
  return Val(x.freshVar(s, n, w, true));
}
H(h_sym_u8) { return symInt(x, s, A[0].e, 8); }
H(h_sym_u16) { return symInt(x, s, A[0].e, 16); }
H(h_sym_u32) { return symInt(x, s, A[0].e, 32); }
H(h_sym_u64) { return symInt(x, s, A[0].e, 64); }
H(h_sym_double) { return symInt(x, s, A[0].e, 64); }
H(h_sym_bool) {
  std::string n = x.cstr(s, A[0].e);
  return Val(x.freshVar(s, n, 1, true));
}
H(h_sym_range) {
  std::string n = x.cstr(s, A[0].e);
  u64 lo = x.conc(s, A[1].e), hi = x.conc(s, A[2].e);
  E v = x.freshVar(s, n, 64, true);
  s.model[v->aux] = lo;
  x.assume(s, mkAnd(mkUle(mkConst(lo, 64), v), mkUle(v, mkConst(hi, 64))));
  return Val(v);
}
H(h_sym_choose) {
  std::string n = x.cstr(s, A[0].e);
  u64 k = x.conc(s, A[1].e);
  if (k == 0) throw PathEnd{1};
  // fork eagerly: one sibling per value
  E v = x.freshVar(s, n, 16, true);
  u64 mine = 0;
  for (u64 i = k; i-- > 1;) {
    State* ns = x.fork(s);
    ns->model[v->aux] = i;
    x.addCons(*ns, mkEq(v, mkConst(i, 16)));
    Frame* f = x.top(*ns);
    if (d.dest >= 0) f->regs[d.dest] = Val(mkConst(i, 64));
    if (d.op == Instruction::Invoke) x.jump(*ns, d.succ[0]); else f->pc++;
    x.work.push_back(ns);
  }
  s.model[v->aux] = mine;
  x.addCons(s, mkEq(v, mkConst(mine, 16)));
  return Val(mkConst(mine, 64));
}
H(h_sym_bytes) {
  u64 p = x.conc(s, A[0].e), n = x.conc(s, A[1].e);
  std::string nm = x.cstr(s, A[2].e);
  for (u64 i = 0; i < n; i++) {
    E v = x.freshVar(s, nm, 8, true);
    s.model[v->aux] = 'a';
    x.writeMem(s, mkConst(p + i, 64), v, 1, &d);
  }
  return Val();
}
static E boolOf(E e) { return e->width == 1 ? e : mkNe(e, mkConst(0, e->width)); }
H(h_sym_assume) { x.checkUninit(s, A[0].e, &d); x.assume(s, boolOf(A[0].e)); return Val(); }
H(h_sym_assert) {
  std::string l = x.cstr(s, A[1].e);
  x.require(s, boolOf(A[0].e), "property", l, &d);
  return Val();
}
H(h_sym_fail) { x.violate(s, "property", x.cstr(s, A[0].e), &d); }
H(h_sym_reach) { x.reach(s, x.cstr(s, A[0].e)); return Val(); }
H(h_sym_concretize) { return Val(mkConst(x.conc(s, A[0].e), 64)); }
H(h_sym_out) {
  OutNode* n = new OutNode;
  n->name = x.cstr(s, A[0].e);
  n->e = A[1].e;
  n->prev = s.outs;
  s.outs = Ref<OutNode>(n);
  return Val();
}
H(h_sym_heap_mark) { s.heapMark = s.seq; return Val(); }
H(h_sym_check_leaks) {
  for (auto& o : s.mem)
    if (o->kind == O_HEAP && o->seq > s.heapMark && o->allocKind != 9)
      x.violate(s, "leak", x.cstr(s, A[0].e) + ": leak of " + std::to_string(o->size) + " bytes allocated at " + locStr(o->site), &d);
  return Val();
}
H(h_sym_live) {  // number of live heap objects since the mark
  u64 n = 0;
  for (auto& o : s.mem) if (o->kind == O_HEAP && o->seq > s.heapMark) n++;
  return Val(mkConst(n, 64));
}
H(h_sym_symbolic) { return Val(mkConst(1, 32)); }
H(h_sym_is_valid) {  // is [p, p+n) a readable live object?
  u64 p = x.conc(s, A[0].e), n = x.conc(s, A[1].e);
  size_t idx;
  Obj* o = x.find(s, p, &idx);
  return Val(mkConst(o && p - o->base + n <= o->size, 1));
}
H(h_sym_end) { throw PathEnd{0}; }

void Exec::regHandlers() {
  auto r = [&](const char* n, Handler h) { handlers[n] = h; };
  r("malloc", h_malloc); r("calloc", h_calloc); r("realloc", h_realloc); r("free", h_free);
  r("_Znwm", h_new); r("_Znam", h_newarr); r("_ZnwmRKSt9nothrow_t", h_new); r("_ZnamRKSt9nothrow_t", h_newarr);
  r("_ZdlPv", h_delete); r("_ZdlPvm", h_delete); r("_ZdaPv", h_deletearr); r("_ZdaPvm", h_deletearr);
  r("_ZnwmSt11align_val_t", h_new); r("_ZdlPvmSt11align_val_t", h_delete); r("_ZdlPvSt11align_val_t", h_delete);
  r("memcmp", h_memcmp); r("bcmp", h_bcmp); r("strlen", h_strlen); r("strcmp", h_strcmp); r("strncmp", h_strncmp);
  r("memchr", h_memchr); r("memrchr", h_memrchr); r("strchr", h_strchr); r("memcpy", h_memcpy); r("memmove", h_memcpy);
  r("__cxa_guard_acquire", h_guard_acquire); r("__cxa_guard_release", h_guard_release); r("__cxa_guard_abort", h_guard_abort);
  r("__cxa_atexit", h_nop); r("atexit", h_nop); r("__cxa_thread_atexit", h_nop); r("__cxa_thread_atexit_impl", h_nop);
  r("__cxa_pure_virtual", h_purevirt); r("__assert_fail", h_assert_fail); r("abort", h_abort);
  r("_ZSt9terminatev", h_terminate); r("__clang_call_terminate", h_terminate); r("exit", h_exit); r("_exit", h_exit);
  r("_ZNSt8ios_base4InitC1Ev", h_nop); r("_ZNSt8ios_base4InitD1Ev", h_nop); r("_ZSt21ios_base_library_initv", h_nop);
  r("__cxa_allocate_exception", h_alloc_exn); r("__cxa_free_exception", h_free_exn); r("__cxa_throw", h_throw);
  r("__cxa_begin_catch", h_begin_catch); r("__cxa_end_catch", h_end_catch); r("__cxa_rethrow", h_rethrow);
  r("_ZSt20__throw_length_errorPKc", h_throw_length);
  r("_ZSt20__throw_out_of_rangePKc", h_throw_oor);
  r("_ZSt24__throw_out_of_range_fmtPKcz", h_throw_oor);
  r("_ZSt19__throw_logic_errorPKc", h_throw_logic);
  r("_ZSt24__throw_invalid_argumentPKc", h_throw_invarg);
  r("_ZSt17__throw_bad_allocv", h_throw_badalloc);
  r("_ZSt28__throw_bad_array_new_lengthv", h_throw_badalloc);
  r("_ZSt25__throw_bad_function_callv", h_throw_badfn);
  r("_ZSt21__glibcxx_assert_failPKciS0_S0_", h_abort);
  r("sym_u8", h_sym_u8); r("sym_u16", h_sym_u16); r("sym_u32", h_sym_u32); r("sym_u64", h_sym_u64);
  r("sym_double_bits", h_sym_double); r("sym_bool", h_sym_bool); r("sym_range", h_sym_range); r("sym_choose", h_sym_choose);
  r("sym_bytes", h_sym_bytes); r("sym_assume", h_sym_assume); r("sym_assert", h_sym_assert); r("sym_fail", h_sym_fail);
  r("sym_reach", h_sym_reach); r("sym_concretize", h_sym_concretize); r("sym_out", h_sym_out);
  r("pthread_mutex_lock", h_lock); r("pthread_mutex_trylock", h_lock); r("pthread_mutex_unlock", h_unlock);
  r("pthread_rwlock_wrlock", h_lock); r("pthread_rwlock_trywrlock", h_lock); r("pthread_rwlock_rdlock", h_rdlock); r("pthread_rwlock_tryrdlock", h_rdlock); r("pthread_rwlock_unlock", h_unlock);
  r("pthread_mutex_init", h_zero); r("pthread_mutex_destroy", h_zero); r("pthread_rwlock_init", h_zero); r("pthread_rwlock_destroy", h_zero);
  r("pthread_cond_signal", h_zero); r("pthread_cond_broadcast", h_zero);
  r("sym_shared", h_sym_shared);
  r("sym_heap_mark", h_sym_heap_mark); r("sym_check_leaks", h_sym_check_leaks); r("sym_live", h_sym_live);
  r("sym_symbolic", h_sym_symbolic); r("sym_is_valid", h_sym_is_valid); r("sym_end", h_sym_end);
}

// ---------------------------------------------------------------- driver
void Exec::flushStats() {
  static SolverStats last;
  auto& c = solver.stats;
#define ADD(f, g) __sync_fetch_and_add(&sh->g, c.f - last.f)
  ADD(queries, queries); ADD(z3calls, z3calls); ADD(sat, sat); ADD(unsat, unsat); ADD(unknown, unknown);
  ADD(cacheHits, cacheHits); ADD(usec, solverUs); ADD(fpcalls, fpcalls); ADD(lia, lia); ADD(retries, retries);
  last = c;
  __sync_fetch_and_add(&sh->insts, localInsts);
  localInsts = 0;
}

void Exec::finish(State& s, int why, const std::string& msg) {
  __sync_fetch_and_add(&sh->paths, 1);
  if (s.depth > sh->maxDepth) sh->maxDepth = s.depth;
  if (why == 1) __sync_fetch_and_add(&sh->pathsAssumed, 1);
  if (why == 2) __sync_fetch_and_add(&sh->pathsViol, 1);
  if (why == 3) {
    __sync_fetch_and_add(&sh->inconclusive, 1);
    lock_();
    std::string m = msg;
    if (!s.frames.empty()) {
      std::string st;
      for (size_t i = s.frames.size(); i-- > 0 && s.frames.size() - i < 5;) {
        Frame* f = s.frames[i].p;
        if (f->pc < f->fn->blocks[f->bb].insts.size())
          st += " <- " + demangle(f->fn->F->getName().str()).substr(0, 60) + "@" + locStr(f->fn->blocks[f->bb].insts[f->pc].I);
      }
      m += st;
    }
    bool dup = false;
    for (int i = 0; i < sh->nIncMsg; i++) if (!strncmp(sh->inconclusiveMsg[i], m.c_str(), 100)) dup = true;
    if (!dup && sh->nIncMsg < 16) { strncpy(sh->inconclusiveMsg[sh->nIncMsg], m.c_str(), 399); sh->nIncMsg++; }
    unlock_();
  }
  if (why == 0) {
    // sample completed paths for the native cross-check: first few, then exponentially rarer
    static u64 mine = 0;
    mine++;
    if ((mine & (mine - 1)) == 0 && sh->samples < (int)opt.samplePaths) {
      int n = __sync_fetch_and_add(&sh->samples, 1);
      if (n < (int)opt.samplePaths) writeInputs(s, s.model, opt.outDir + "/sample-" + std::to_string(n) + ".txt", "");
    }
  }
}

void Exec::runPath(State* sp) {
  State& s = *sp;
  int why = 0;
  std::string msg;
  try {
    unsigned cnt = 0;
    for (;;) {
      step(s);
      localInsts++;
      if ((++cnt & 0xfff) == 0) {
        if (sh->stop) { delete sp; return; }
        if (s.insts > opt.maxInstPerPath) {
          why = 2;
          report(s, s.model, "hang", "the call does not return within " + std::to_string(opt.maxInstPerPath) + " instructions", nullptr);
          break;
        }
        share();
      }
    }
  } catch (PathEnd& p) { why = p.why; }
  catch (Unsupported& u) { why = 3; msg = u.msg; }
  finish(s, why, msg);
  delete sp;
}

// Hand the older half of the work list to a new process when a worker slot is free.
void Exec::share() {
  if (work.empty()) return;
  if (sh->active >= (int)opt.workers) return;
  double t = nowS();
  if (t - lastShare < 0.02) return;
  lastShare = t;
  int v = sh->active;
  if (v >= (int)opt.workers || !__sync_bool_compare_and_swap(&sh->active, v, v + 1)) return;
  flushStats();
  pid_t p = ::fork();
  if (p < 0) { __sync_fetch_and_sub(&sh->active, 1); return; }
  size_t half = (work.size() + 1) / 2;
  if (p == 0) {
    kids.clear();
    work.resize(half);
    lastShare = nowS();
    // the running state stays with the parent: restart our loop
    localInsts = 0;
    __sync_fetch_and_add(&sh->workersUsed, 1);
    run();
    _exit(0);
  }
  kids.push_back(p);
  work.erase(work.begin(), work.begin() + half);
  // reap finished kids
  for (size_t i = 0; i < kids.size();) {
    int st;
    if (waitpid(kids[i], &st, WNOHANG) == kids[i]) {
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { __sync_fetch_and_add(&sh->inconclusive, 1); lock_(); if (sh->nIncMsg < 16) snprintf(sh->inconclusiveMsg[sh->nIncMsg++], 399, "worker died (status %d)", st); unlock_(); }
      kids.erase(kids.begin() + i);
    } else i++;
  }
}

void Exec::run() {
  while (!work.empty() && !sh->stop) {
    if (nowS() - t0 > opt.timeLimit) {
      __sync_fetch_and_add(&sh->inconclusive, 1);
      lock_();
      if (sh->nIncMsg < 16) snprintf(sh->inconclusiveMsg[sh->nIncMsg++], 399, "time limit reached with %zu states pending", work.size());
      unlock_();
      sh->stop = 1;
      break;
    }
    if (work.size() > 1) share();
    State* s = work.back();
    work.pop_back();
    runPath(s);
  }
  flushStats();
  __sync_fetch_and_sub(&sh->active, 1);
  for (pid_t p : kids) {
    int st;
    if (waitpid(p, &st, 0) == p && (!WIFEXITED(st) || WEXITSTATUS(st) != 0)) {
      __sync_fetch_and_add(&sh->inconclusive, 1);
      lock_();
      if (sh->nIncMsg < 16) snprintf(sh->inconclusiveMsg[sh->nIncMsg++], 399, "worker died (status %d)", st);
      unlock_();
    }
  }
  kids.clear();
}

static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

// Second-solver cross-check: write the query and its verdict for the driver.
static std::string crossDir;
static void crossHook(const std::string& smt2, bool sat) {
  u64 n = __sync_fetch_and_add(&sh->crossChecked, 1);
  if (n >= 400) return;
  std::ofstream f(crossDir + "/q" + std::to_string(n) + (sat ? ".sat" : ".unsat") + ".smt2");
  f << smt2;
}

int main(int argc, char** argv) {
  std::vector<std::string> files;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") opt.entry = next();
    else if (a == "--out") opt.outDir = next();
    else if (a == "--workers") opt.workers = std::stoi(next());
    else if (a == "--time") opt.timeLimit = std::stod(next());
    else if (a == "--max-inst") opt.maxInstPerPath = std::stoull(next());
    else if (a == "--samples") opt.samplePaths = std::stoi(next());
    else if (a == "--max-violations") opt.maxViolations = std::stoi(next());
    else if (a == "--cross") opt.crossEvery = std::stoull(next());
    else if (a == "--rlimit") opt.rlimit = std::stoul(next());
    else if (a == "--repo") opt.repoPrefix = next();
    else if (a == "-v") opt.verbose = true;
    else files.push_back(a);
  }
  rlimit rl; rl.rlim_cur = rl.rlim_max = 1ull << 30;
  setrlimit(RLIMIT_STACK, &rl);
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof(Shared));
  sh->active = 1;
  sh->workersUsed = 1;
  Exec* x = new Exec;
  G = x;
  x->t0 = nowS();
  x->load(files);
  x->regHandlers();
  x->solver.rlimit = opt.rlimit;
  if (opt.crossEvery) { crossDir = opt.outDir; x->solver.crossEvery = opt.crossEvery; x->solver.crossHook = crossHook; }
  State* s = new State;
  x->initGlobals(*s);
  // number blocks; decode lazily but with stable global ids
  unsigned gid = 0;
  DenseMap<BasicBlock*, unsigned> gids;
  for (auto& F : *x->M) for (auto& bb : F) { gids[&bb] = gid++; x->gidBB.push_back(&bb); }
  for (auto& F : *x->M) {
    if (F.isDeclaration()) continue;
    FnInfo* fi = x->info(&F);
    for (auto& b : fi->blocks) b.gid = gids[b.bb];
  }
  double tLoad = nowS();
  Function* entry = x->M->getFunction(opt.entry);
  if (!entry) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
  // static constructors
  int rc = 0;
  if (auto* gc = x->M->getGlobalVariable("llvm.global_ctors")) {
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<u64, Function*>> v;
      for (auto& o : ca->operands()) {
        auto* cs = cast<ConstantStruct>(o.get());
        if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
      }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& p : v) {
        std::vector<Val> none;
        x->pushCall(*s, p.second, none, nullptr);
        try { for (;;) { x->step(*s); x->localInsts++; } }
        catch (PathEnd& pe) { if (pe.why) { fprintf(stderr, "ctor ended %d\n", pe.why); return 3; } }
        catch (Unsupported& u) { fprintf(stderr, "ctor %s: unsupported %s\n", p.second->getName().str().c_str(), u.msg.c_str()); return 3; }
      }
    }
  }
  std::vector<Val> none;
  x->pushCall(*s, entry, none, nullptr);
  s->heapMark = s->seq;
  x->work.push_back(s);
  x->run();
  double t1 = nowS();
  // ---- summary
  std::set<std::string> fnRepo, fnOther;
  std::map<std::string, std::pair<std::set<unsigned>, std::set<unsigned>>> lines;  // file -> (executed, all)
  for (size_t i = 0; i < x->gidBB.size() && i < (size_t)MAXBB; i++) {
    BasicBlock* bb = x->gidBB[i];
    Function* F = bb->getParent();
    bool ex = sh->bb[i];
    auto inRepo = [&](const DILocation* l) { return (l->getDirectory() + "/" + l->getFilename()).str().find(opt.repoPrefix) != std::string::npos || l->getFilename().starts_with(opt.repoPrefix); };
    if (ex && bb == &F->getEntryBlock()) {
      DISubprogram* sp = F->getSubprogram();
      bool rep = sp && sp->getFile() && (sp->getFilename().starts_with(opt.repoPrefix));
      (rep ? fnRepo : fnOther).insert(demangle(F->getName().str()));
    }
    for (auto& I : *bb) {
      for (const DILocation* l = I.getDebugLoc() ? I.getDebugLoc().get() : nullptr; l; l = l->getInlinedAt()) {
        if (!inRepo(l) || !l->getLine()) continue;
        auto& e = lines[l->getFilename().str()];
        e.second.insert(l->getLine());
        if (ex) {
          e.first.insert(l->getLine());
          if (l->getInlinedAt() || true) {
            if (auto* sp = l->getScope()->getSubprogram()) fnRepo.insert(demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()));
          }
        }
      }
    }
  }
  std::ofstream f(opt.outDir + "/result.json");
  f << "{\n";
  f << "\"violations\": " << sh->violations << ",\n\"inconclusive\": " << sh->inconclusive << ",\n";
  f << "\"inconclusive_msgs\": [";
  for (int i = 0; i < sh->nIncMsg; i++) f << (i ? ", " : "") << jstr(sh->inconclusiveMsg[i]);
  f << "],\n";
  f << "\"paths\": " << sh->paths << ",\n\"paths_assumed_away\": " << sh->pathsAssumed << ",\n\"forks\": " << sh->forks << ",\n\"instructions\": " << sh->insts
    << ",\n\"queries\": " << sh->queries << ",\n\"solver_calls\": " << sh->z3calls << ",\n\"sat\": " << sh->sat << ",\n\"unsat\": " << sh->unsat
    << ",\n\"unknown\": " << sh->unknown << ",\n\"cache_hits\": " << sh->cacheHits << ",\n\"fp_calls\": " << sh->fpcalls << ",\n\"integer_calls\": " << sh->lia << ",\n\"retries\": " << sh->retries << ",\n\"solver_s\": " << sh->solverUs / 1e6
    << ",\n\"max_depth\": " << sh->maxDepth << ",\n\"workers\": " << sh->workersUsed << ",\n\"samples\": " << (sh->samples < (int)opt.samplePaths ? sh->samples : (int)opt.samplePaths)
    << ",\n\"load_s\": " << tLoad - x->t0 << ",\n\"explore_s\": " << t1 - tLoad << ",\n";
  f << "\"reach\": {";
  for (int i = 0; i < sh->nreach; i++) f << (i ? ", " : "") << jstr(sh->reachName[i]) << ": " << sh->reachCount[i];
  f << "},\n\"repo_functions\": [";
  bool first = true;
  for (auto& n : fnRepo) { f << (first ? "" : ", ") << jstr(n.substr(0, 160)); first = false; }
  f << "],\n\"other_functions\": " << fnOther.size() << ",\n\"lines\": {";
  first = true;
  for (auto& l : lines) {
    f << (first ? "" : ", ") << jstr(l.first) << ": {\"executed\": " << l.second.first.size() << ", \"total\": " << l.second.second.size() << ", \"missed\": [";
    bool f2 = true;
    for (unsigned n : l.second.second) if (!l.second.first.count(n)) { f << (f2 ? "" : ",") << n; f2 = false; }
    f << "]}";
    first = false;
  }
  f << "}\n}\n";
  f.close();
  printf("jsym: paths=%llu (assumed away %llu) forks=%llu insts=%llu queries=%llu z3=%llu (sat %llu unsat %llu unk %llu) solver=%.2fs load=%.2fs explore=%.2fs viol=%d inconclusive=%d workers=%llu\n",
         (unsigned long long)sh->paths, (unsigned long long)sh->pathsAssumed, (unsigned long long)sh->forks, (unsigned long long)sh->insts,
         (unsigned long long)sh->queries, (unsigned long long)sh->z3calls, (unsigned long long)sh->sat, (unsigned long long)sh->unsat, (unsigned long long)sh->unknown,
         sh->solverUs / 1e6, tLoad - x->t0, t1 - tLoad, sh->violations, sh->inconclusive, (unsigned long long)sh->workersUsed);
  for (int i = 0; i < sh->nIncMsg; i++) printf("  inconclusive: %s\n", sh->inconclusiveMsg[i]);
  fflush(stdout);
  _exit(sh->violations ? 1 : sh->inconclusive ? 2 : rc);
}
