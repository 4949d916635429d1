// symex: a bounded symbolic executor for LLVM 18 bitcode, with Z3 as the deciding solver.
// Every feasible path of the entry function is explored; symbolic bytes come from vk_sym()/vk_u8().
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/MemoryBuffer.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <functional>
#include <map>
#include <random>
#include <set>
#include "expr.h"

using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options
static std::string optBC, optEntry = "vk_main", optOut;
static std::map<std::string, u64> optParams;
static u64 optMaxInstr = 5000000;
static double optTimeout = 600;
static int optMaxTests = 40;
static u64 optSeed = 1;
static int optStopFirst = 1;
static int optVerbose = 0, optCheckSimp = 0;
static u64 optMaxPaths = ~0ull;
static int optLeak = 1;
static unsigned optQueryTimeout = 120000;

struct Shared { volatile int stop; volatile int err; volatile u64 paths; };
static Shared* g_sh;
static int g_outfd = 2;
static int g_tokr = -1, g_tokw = -1;
static bool g_haveToken = false;  // token owned by this forked child (to give back)
static std::vector<pid_t> g_children;
static double g_t0;

// ------------------------------------------------------------------ values, memory
struct Val { u64 c; Expr* e; };
static inline Val cv(u64 c) { return Val{c, nullptr}; }
static inline Expr* toE(const Val& v, int w) { return v.e ? v.e : mkConst(w, v.c); }
static inline Val fromE(Expr* e) { if (e->op == E_CONST && e->w <= 64) return cv((u64)e->c); return Val{0, e}; }
static inline u64 mw(u64 v, int w) { return w >= 64 ? v : v & ((1ull << w) - 1); }

enum { K_GLOBAL, K_STACK, K_HEAP, K_FUNC, K_EXC };
enum { H_NONE, H_MALLOC, H_NEW, H_NEWARR };
struct Obj {
  u32 ref = 1; u32 size = 0; u8 kind = 0; bool ro = false, freed = false, noleak = false; u8 heap = 0;
  std::vector<u8> b; std::vector<Expr*> s;
  const Value* site = nullptr;
};
static const int OBJ_SHIFT = 24;
struct Chunk { u32 ref = 1; Obj* o[64] = {}; };

struct DFunc;
struct DInst;
struct Frame { DFunc* f; DInst* pc; u32 base; std::vector<u32> allocas; };
struct Exc { u64 addr, tinfo, dtor; int count; };

struct Dom { u32 ref; TT t; };
struct SymInfo { u32 first, n; const char* name; };

struct State {
  std::vector<Frame> fr;
  std::vector<Val> regs;
  std::vector<Chunk*> chunks; u32 nobj = 0;
  std::vector<Expr*> cons; VSet multi = {{0, 0, 0, 0}};
  std::vector<TT> dom; u64 domEp = 0;
  std::vector<u8> model; u64 epoch = 0;
  u32 nvars = 0;
  std::vector<SymInfo> syms;
  std::vector<Val> obs;
  std::vector<Exc> excs; std::vector<int> caught;
  u64 pendingExc = 0; u64 pendingSel = 0;
  u64 ninstr = 0;
  u32 heapLive = 0; u32 heapBase = 0;
  State() {}
  State(const State& o) : fr(o.fr), regs(o.regs), chunks(o.chunks), nobj(o.nobj), cons(o.cons), multi(o.multi), dom(o.dom), domEp(o.domEp), model(o.model), epoch(o.epoch), nvars(o.nvars), syms(o.syms), obs(o.obs), excs(o.excs), caught(o.caught), pendingExc(o.pendingExc), pendingSel(o.pendingSel), ninstr(o.ninstr), heapLive(o.heapLive), heapBase(o.heapBase) {
    for (auto c : chunks) c->ref++;
  }
  ~State() {
    for (auto c : chunks) if (--c->ref == 0) {
      for (auto o : c->o) if (o && --o->ref == 0) delete o;
      delete c;
    }
  }
  Obj* get(u32 id) { if (id >= nobj) return nullptr; return chunks[id >> 6]->o[id & 63]; }
  Chunk* chunkW(u32 ci) {
    Chunk* c = chunks[ci];
    if (c->ref > 1) { c->ref--; Chunk* n = new Chunk; for (int i = 0; i < 64; i++) { n->o[i] = c->o[i]; if (n->o[i]) n->o[i]->ref++; } chunks[ci] = n; c = n; }
    return c;
  }
  Obj* getW(u32 id) {
    Chunk* c = chunkW(id >> 6);
    Obj* o = c->o[id & 63];
    if (o->ref > 1) { o->ref--; Obj* n = new Obj(*o); n->ref = 1; c->o[id & 63] = n; o = n; }
    return o;
  }
  u32 alloc(u32 size, int kind) {
    if (nobj == 0) nobj = 1;
    u32 id = nobj++;
    if ((id >> 6) >= chunks.size()) chunks.push_back(new Chunk);
    Chunk* c = chunkW(id >> 6);
    Obj* o = new Obj; o->size = size; o->kind = kind; o->b.assign(size, kind == K_GLOBAL ? 0 : 0xA5);
    c->o[id & 63] = o;
    return id;
  }
};
static inline u64 addrOf(u32 id) { return (u64)id << OBJ_SHIFT; }

// ------------------------------------------------------------------ decoded program
struct Opnd { int slot; Val c; };
struct PhiCopy { int dst; Opnd src; int n; };
struct Edge { DInst* to; std::vector<PhiCopy> copies; };
struct Leaf { u32 off; u32 bits; };
enum DOp : u8 {
  D_ADD, D_SUB, D_MUL, D_UDIV, D_SDIV, D_UREM, D_SREM, D_AND, D_OR, D_XOR, D_SHL, D_LSHR, D_ASHR,
  D_ICMP, D_FCMP, D_FBIN, D_FNEG, D_ZEXT, D_SEXT, D_TRUNC, D_COPY, D_FCAST, D_SELECT, D_LOAD, D_STORE, D_GEP, D_ALLOCA,
  D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_INVOKE, D_UNREACH, D_EXTRACT, D_INSERT, D_LPAD, D_RESUME, D_NOP, D_EXTELT, D_INSELT, D_SHUF, D_CMPXCHG, D_RMW, D_UNSUP, D_INDIRECTBR
};
struct Ext;
struct DInst {
  u8 op = 0; u8 fk = 0; uint16_t sub = 0; u32 w = 0, w2 = 0; int dst = -1; u32 n = 1;
  std::vector<Opnd> ops; u64 imm = 0;
  Edge *e0 = nullptr, *e1 = nullptr;
  std::vector<Leaf> leaves;
  std::vector<std::pair<u64, Edge*>> cases;
  std::vector<std::pair<u64, u32>> scales;
  Function* callee = nullptr; DFunc* dcallee = nullptr; int ext = -1;
  const Instruction* I = nullptr;
  std::vector<u32> argN;
};
struct DFunc { Function* F; std::vector<DInst> code; u32 nslots = 0; std::vector<std::pair<int, int>> args; bool decoded = false; bool used = false; u64 execs = 0; };

static LLVMContext* g_ctx;
static Module* g_mod;
static const DataLayout* g_dl;
static std::unordered_map<const Value*, u64> g_gaddr;      // globals -> address
static std::unordered_map<u64, Function*> g_faddr;         // address -> function
static std::unordered_map<u64, const GlobalVariable*> g_gvaddr;
static std::unordered_map<Function*, DFunc*> g_dfuncs;
static State* g_init;

[[noreturn]] static void fatal(const std::string& m) {
  dprintf(g_outfd, "E\t%s\n", m.c_str());
  fprintf(stderr, "symex: %s\n", m.c_str());
  if (g_sh) { g_sh->err = 1; g_sh->stop = 1; }
  if (g_haveToken && g_tokw >= 0) { char c = '+'; (void)!write(g_tokw, &c, 1); }
  _exit(3);
}

static void flatten(Type* t, u64 off, std::vector<Leaf>& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = g_dl->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = g_dl->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    u64 eb = g_dl->getTypeSizeInBits(vt->getElementType());
    if (eb % 8) { out.push_back({(u32)off, 0xffffffff}); /* unsupported */ for (unsigned i = 1; i < vt->getNumElements(); i++) out.push_back({(u32)off, 0xffffffff}); return; }
    for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({(u32)(off + i * eb / 8), (u32)eb});
  } else out.push_back({(u32)off, (u32)g_dl->getTypeSizeInBits(t).getFixedValue()});
}
static u32 nslots(Type* t) {
  if (t->isVoidTy()) return 0;
  if (t->isSingleValueType() && !t->isVectorTy()) return 1;
  std::vector<Leaf> l; flatten(t, 0, l); return l.size();
}
static u32 widthOf(Type* t) { return (u32)g_dl->getTypeSizeInBits(t->isVectorTy() ? t->getScalarType() : t).getFixedValue(); }

static Val apToVal(const APInt& a) {
  if (a.getBitWidth() <= 64) return cv(a.getZExtValue());
  if (a.getBitWidth() > 128) fatal("integer constant wider than 128 bits");
  u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
  return Val{0, mkConst(a.getBitWidth(), v)};
}
static void constVals(const Constant* c, std::vector<Val>& out);
static Val constScalar(const Constant* c) { std::vector<Val> v; constVals(c, v); return v[0]; }
static u64 globalAddr(const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) return constScalar(a->getAliasee()).c;
  auto it = g_gaddr.find(g);
  if (it == g_gaddr.end()) fatal("no address for global " + g->getName().str());
  return it->second;
}
static void constVals(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { out.push_back(apToVal(ci->getValue())); return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back(apToVal(cf->getValueAPF().bitcastToAPInt())); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    std::vector<Leaf> l; flatten(t, 0, l);
    for (auto& x : l) out.push_back(x.bits > 64 && x.bits != 0xffffffff ? Val{0, mkConst(x.bits, 0)} : cv(0));
    return;
  }
  if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back(cv(globalAddr(g))); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(ca->getOperand(i), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*g_dl, off)) fatal("constant GEP");
        out.push_back(cv(constScalar(ce->getOperand(0)).c + off.getZExtValue())); return;
      }
      case Instruction::PtrToInt: out.push_back(cv(mw(constScalar(ce->getOperand(0)).c, widthOf(t)))); return;
      case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: out.push_back(constScalar(ce->getOperand(0))); return;
      case Instruction::Sub: out.push_back(cv(mw(constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c, widthOf(t)))); return;
      case Instruction::Add: out.push_back(cv(mw(constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c, widthOf(t)))); return;
      case Instruction::Trunc: out.push_back(cv(mw(constScalar(ce->getOperand(0)).c, widthOf(t)))); return;
      case Instruction::Xor: out.push_back(cv(mw(constScalar(ce->getOperand(0)).c ^ constScalar(ce->getOperand(1)).c, widthOf(t)))); return;
      case Instruction::Mul: out.push_back(cv(mw(constScalar(ce->getOperand(0)).c * constScalar(ce->getOperand(1)).c, widthOf(t)))); return;
      case Instruction::Shl: out.push_back(cv(mw(constScalar(ce->getOperand(0)).c << constScalar(ce->getOperand(1)).c, widthOf(t)))); return;
      case Instruction::ICmp: {
        u64 a = constScalar(ce->getOperand(0)).c, b = constScalar(ce->getOperand(1)).c;
        switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: out.push_back(cv(a == b)); return; case CmpInst::ICMP_NE: out.push_back(cv(a != b)); return; default: break; }
      }
      default: break;
    }
    std::string s; raw_string_ostream os(s); ce->print(os); fatal("constant expr " + os.str());
  }
  std::string s; raw_string_ostream os(s); c->print(os); fatal("constant kind " + os.str());
}
static void writeConst(State& s, u32 id, u64 off, const Constant* c) {
  Obj* o = s.getW(id);
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cd->getRawDataValues(); memcpy(o->b.data() + off, r.data(), r.size()); return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = g_dl->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(s, id, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    u64 es = g_dl->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(s, id, off + i * es, ca->getOperand(i));
    return;
  }
  if (isa<ConstantVector>(c)) {
    u64 es = g_dl->getTypeAllocSize(c->getType()->getScalarType());
    for (unsigned i = 0; i < c->getNumOperands(); i++) writeConst(s, id, off + i * es, cast<Constant>(c->getOperand(i)));
    return;
  }
  Val v = constScalar(c);
  u32 sz = g_dl->getTypeStoreSize(c->getType());
  u128 x = v.e ? v.e->c : v.c;
  for (u32 i = 0; i < sz && i < 16; i++) o->b[off + i] = (u8)(x >> (8 * i));
}

// ------------------------------------------------------------------ externals
enum {
  X_NONE, X_IGN, X_MEMCPY, X_MEMMOVE, X_MEMSET, X_MEMCMP, X_BCMP, X_NEW, X_NEWARR, X_DEL, X_DELARR, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE,
  X_ABORT, X_TRAP, X_ASSERTFAIL, X_SYM, X_U8, X_CHOICE, X_ASSUME, X_ASSERT, X_COVER, X_OBS, X_PARAM, X_FAIL,
  X_CXA_ALLOC, X_CXA_FREE, X_CXA_THROW, X_CXA_BEGIN, X_CXA_END, X_CXA_RETHROW, X_GUARD_ACQ, X_GUARD_REL, X_ATEXIT, X_THROWSTD, X_PUREVIRT,
  X_ERRNO, X_CTLZ, X_CTTZ, X_CTPOP, X_BSWAP, X_UMULO, X_SMULO, X_UADDO, X_SADDO, X_USUBO, X_SSUBO, X_UADDSAT, X_USUBSAT, X_SADDSAT, X_SSUBSAT, X_FSHL, X_FSHR, X_UMIN, X_UMAX, X_SMIN, X_SMAX, X_ABS,
  X_EXPECT, X_LLASSUME, X_ISCONST, X_OBJSIZE, X_TYPEID, X_TLSADDR, X_FABS, X_COPYSIGN, X_LAUNDER, X_PTRMASK, X_FREESTK, X_ZEROINIT, X_STACKSAVE, X_BITREV, X_CONCRETE, X_ISSYM, X_PRINT, X_FMULADD, X_LEAKOK, X_ISFPCLASS, X_TERMINATE
};
static int extByName(StringRef n) {
  static const std::map<std::string, int> m = {
    {"memcpy", X_MEMCPY}, {"memmove", X_MEMMOVE}, {"memset", X_MEMSET}, {"memcmp", X_MEMCMP}, {"bcmp", X_BCMP},
    {"_Znwm", X_NEW}, {"_Znam", X_NEWARR}, {"_ZnwmRKSt9nothrow_t", X_NEW}, {"_ZnamRKSt9nothrow_t", X_NEWARR},
    {"_ZnwmSt11align_val_t", X_NEW}, {"_ZdlPvSt11align_val_t", X_DEL}, {"_ZdlPvmSt11align_val_t", X_DEL},
    {"_ZdlPv", X_DEL}, {"_ZdlPvm", X_DEL}, {"_ZdaPv", X_DELARR}, {"_ZdaPvm", X_DELARR}, {"_ZdlPvRKSt9nothrow_t", X_DEL},
    {"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE},
    {"abort", X_ABORT}, {"__assert_fail", X_ASSERTFAIL}, {"_ZSt9terminatev", X_TERMINATE}, {"__clang_call_terminate", X_TERMINATE},
    {"_ZSt21__glibcxx_assert_failPKciS0_S0_", X_ASSERTFAIL}, {"__cxa_pure_virtual", X_PUREVIRT},
    {"vk_sym", X_SYM}, {"vk_u8", X_U8}, {"vk_choice", X_CHOICE}, {"vk_assume", X_ASSUME}, {"vk_assert_", X_ASSERT}, {"vk_cover", X_COVER}, {"vk_obs", X_OBS}, {"vk_param", X_PARAM}, {"vk_fail", X_FAIL},
    {"vk_concrete", X_CONCRETE}, {"vk_is_symbolic", X_ISSYM}, {"vk_print", X_PRINT}, {"vk_leak_ok", X_LEAKOK},
    {"__cxa_allocate_exception", X_CXA_ALLOC}, {"__cxa_free_exception", X_CXA_FREE}, {"__cxa_throw", X_CXA_THROW}, {"__cxa_begin_catch", X_CXA_BEGIN}, {"__cxa_end_catch", X_CXA_END}, {"__cxa_rethrow", X_CXA_RETHROW},
    {"__cxa_guard_acquire", X_GUARD_ACQ}, {"__cxa_guard_release", X_GUARD_REL}, {"__cxa_guard_abort", X_IGN}, {"__cxa_atexit", X_ATEXIT}, {"atexit", X_ATEXIT},
    {"__errno_location", X_ERRNO},
    {"_ZNSt8ios_base4InitC1Ev", X_IGN}, {"_ZNSt8ios_base4InitD1Ev", X_IGN}, {"flockfile", X_IGN}, {"funlockfile", X_IGN},
  };
  auto it = m.find(n.str());
  if (it != m.end()) return it->second;
  if (n.starts_with("_ZSt") && n.contains("__throw_")) return X_THROWSTD;
  return -1;
}
static int extByIntrinsic(Intrinsic::ID id) {
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return X_MEMCPY;
    case Intrinsic::memmove: return X_MEMMOVE;
    case Intrinsic::memset: return X_MEMSET;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: return X_IGN;
    case Intrinsic::stacksave: return X_STACKSAVE;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return X_TRAP;
    case Intrinsic::ctlz: return X_CTLZ; case Intrinsic::cttz: return X_CTTZ; case Intrinsic::ctpop: return X_CTPOP; case Intrinsic::bswap: return X_BSWAP; case Intrinsic::bitreverse: return X_BITREV;
    case Intrinsic::umul_with_overflow: return X_UMULO; case Intrinsic::smul_with_overflow: return X_SMULO;
    case Intrinsic::uadd_with_overflow: return X_UADDO; case Intrinsic::sadd_with_overflow: return X_SADDO;
    case Intrinsic::usub_with_overflow: return X_USUBO; case Intrinsic::ssub_with_overflow: return X_SSUBO;
    case Intrinsic::uadd_sat: return X_UADDSAT; case Intrinsic::usub_sat: return X_USUBSAT; case Intrinsic::sadd_sat: return X_SADDSAT; case Intrinsic::ssub_sat: return X_SSUBSAT;
    case Intrinsic::fshl: return X_FSHL; case Intrinsic::fshr: return X_FSHR;
    case Intrinsic::umin: return X_UMIN; case Intrinsic::umax: return X_UMAX; case Intrinsic::smin: return X_SMIN; case Intrinsic::smax: return X_SMAX; case Intrinsic::abs: return X_ABS;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: return X_EXPECT;
    case Intrinsic::assume: return X_LLASSUME; case Intrinsic::is_constant: return X_ISCONST; case Intrinsic::objectsize: return X_OBJSIZE;
    case Intrinsic::eh_typeid_for: return X_TYPEID; case Intrinsic::threadlocal_address: return X_TLSADDR; case Intrinsic::fabs: return X_FABS; case Intrinsic::copysign: return X_COPYSIGN; case Intrinsic::fmuladd: case Intrinsic::fma: return X_FMULADD; case Intrinsic::is_fpclass: return X_ISFPCLASS;
    case Intrinsic::ptrmask: return X_PTRMASK;
    default: return -1;
  }
}

// ------------------------------------------------------------------ decoding
static DFunc* getDFunc(Function* F) {
  DFunc*& d = g_dfuncs[F];
  if (!d) { d = new DFunc; d->F = F; }
  return d;
}
static void decode(DFunc* d) {
  d->decoded = true;
  Function* F = d->F;
  std::unordered_map<const Value*, int> slot;
  u32 ns = 0;
  for (auto& a : F->args()) { slot[&a] = ns; int n = nslots(a.getType()); d->args.push_back({(int)ns, n}); ns += n; }
  size_t ni = 0;
  std::unordered_map<const BasicBlock*, size_t> start;
  for (auto& bb : *F) {
    bool first = true;
    for (auto& I : bb) {
      if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += nslots(I.getType()); }
      if (isa<PHINode>(I)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) if (isa<DbgInfoIntrinsic>(ii) || ii->getIntrinsicID() == Intrinsic::lifetime_start || ii->getIntrinsicID() == Intrinsic::lifetime_end) continue;
      if (first) { start[&bb] = ni; first = false; }
      ni++;
    }
  }
  d->nslots = ns;
  d->code.resize(ni);
  auto opnd = [&](const Value* v) -> Opnd {
    if (auto* c = dyn_cast<Constant>(v)) { return Opnd{-1, constScalar(c)}; }
    auto it = slot.find(v);
    if (it == slot.end()) { return Opnd{-1, cv(0)}; }
    return Opnd{it->second, cv(0)};
  };
  // operands for possibly-aggregate values
  auto opndN = [&](const Value* v, std::vector<Opnd>& out) -> u32 {
    u32 n = nslots(v->getType());
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> vs; constVals(c, vs); for (auto& x : vs) out.push_back(Opnd{-1, x}); if (vs.size() != n) fatal("const slots"); }
    else { int s = slot.at(v); for (u32 i = 0; i < n; i++) out.push_back(Opnd{s + (int)i, cv(0)}); }
    return n;
  };
  auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge* e = new Edge; e->to = &d->code[start.at(to)];
    for (auto& I : *to) {
      auto* phi = dyn_cast<PHINode>(&I); if (!phi) break;
      std::vector<Opnd> o; u32 n = opndN(phi->getIncomingValueForBlock(from), o);
      for (u32 i = 0; i < n; i++) if (o[i].slot != slot[phi] + (int)i) e->copies.push_back({slot[phi] + (int)i, o[i], 1});
    }
    return e;
  };
  size_t k = 0;
  for (auto& bb : *F) for (auto& I : bb) {
    if (isa<PHINode>(I)) continue;
    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) if (isa<DbgInfoIntrinsic>(ii) || ii->getIntrinsicID() == Intrinsic::lifetime_start || ii->getIntrinsicID() == Intrinsic::lifetime_end) continue;
    DInst& D = d->code[k++];
    D.I = &I;
    Type* t = I.getType();
    if (!t->isVoidTy()) { D.dst = slot[&I]; D.n = nslots(t); if (!t->isAggregateType()) D.w = widthOf(t); }
    switch (I.getOpcode()) {
      case Instruction::Add: D.op = D_ADD; goto bin; case Instruction::Sub: D.op = D_SUB; goto bin; case Instruction::Mul: D.op = D_MUL; goto bin;
      case Instruction::UDiv: D.op = D_UDIV; goto bin; case Instruction::SDiv: D.op = D_SDIV; goto bin; case Instruction::URem: D.op = D_UREM; goto bin; case Instruction::SRem: D.op = D_SREM; goto bin;
      case Instruction::And: D.op = D_AND; goto bin; case Instruction::Or: D.op = D_OR; goto bin; case Instruction::Xor: D.op = D_XOR; goto bin;
      case Instruction::Shl: D.op = D_SHL; goto bin; case Instruction::LShr: D.op = D_LSHR; goto bin; case Instruction::AShr: D.op = D_ASHR; goto bin;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: D.op = D_FBIN; D.sub = I.getOpcode(); goto bin;
      bin: opndN(I.getOperand(0), D.ops); opndN(I.getOperand(1), D.ops); break;
      case Instruction::FNeg: D.op = D_FNEG; opndN(I.getOperand(0), D.ops); break;
      case Instruction::ICmp: D.op = D_ICMP; D.sub = cast<ICmpInst>(I).getPredicate(); D.w2 = widthOf(I.getOperand(0)->getType()); opndN(I.getOperand(0), D.ops); opndN(I.getOperand(1), D.ops); break;
      case Instruction::FCmp: D.op = D_FCMP; D.sub = cast<FCmpInst>(I).getPredicate(); D.w2 = widthOf(I.getOperand(0)->getType()); opndN(I.getOperand(0), D.ops); opndN(I.getOperand(1), D.ops); break;
      case Instruction::ZExt: D.op = D_ZEXT; goto cast; case Instruction::SExt: D.op = D_SEXT; goto cast; case Instruction::Trunc: D.op = D_TRUNC; goto cast;
      case Instruction::PtrToInt: case Instruction::IntToPtr: D.op = D_ZEXT; D.w2 = widthOf(I.getOperand(0)->getType()); if (D.w2 > D.w) D.op = D_TRUNC; goto cast;
      case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPExt: case Instruction::FPTrunc: D.op = D_FCAST; D.sub = I.getOpcode(); goto cast;
      cast: D.w2 = widthOf(I.getOperand(0)->getType()); opndN(I.getOperand(0), D.ops); break;
      case Instruction::BitCast:
        if (nslots(I.getOperand(0)->getType()) != D.n) { D.op = D_UNSUP; break; }
      case Instruction::Freeze: case Instruction::AddrSpaceCast: D.op = D_COPY; opndN(I.getOperand(0), D.ops); break;
      case Instruction::Select: D.op = D_SELECT; D.ops.push_back(opnd(I.getOperand(0))); if (I.getOperand(0)->getType()->isVectorTy()) D.op = D_UNSUP; opndN(I.getOperand(1), D.ops); opndN(I.getOperand(2), D.ops);
        { std::vector<Leaf> l; flatten(t, 0, l); D.leaves = l; } break;
      case Instruction::Load: D.op = D_LOAD; D.ops.push_back(opnd(I.getOperand(0))); flatten(t, 0, D.leaves); break;
      case Instruction::Store: D.op = D_STORE; D.ops.push_back(opnd(I.getOperand(1))); opndN(I.getOperand(0), D.ops); flatten(I.getOperand(0)->getType(), 0, D.leaves); break;
      case Instruction::GetElementPtr: {
        D.op = D_GEP; auto* g = cast<GetElementPtrInst>(&I);
        if (t->isVectorTy()) { D.op = D_UNSUP; break; }
        D.ops.push_back(opnd(g->getPointerOperand()));
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* idx = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) { D.imm += g_dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          u64 es = g_dl->getTypeAllocSize(it.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(idx)) D.imm += es * (u64)ci->getSExtValue();
          else { D.ops.push_back(opnd(idx)); D.scales.push_back({es, widthOf(idx->getType())}); }
        }
        break;
      }
      case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); D.op = D_ALLOCA; D.imm = g_dl->getTypeAllocSize(a.getAllocatedType()); D.ops.push_back(opnd(a.getArraySize())); break; }
      case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isUnconditional()) { D.op = D_BR; D.e0 = mkEdge(&bb, b.getSuccessor(0)); } else { D.op = D_CBR; D.ops.push_back(opnd(b.getCondition())); D.e0 = mkEdge(&bb, b.getSuccessor(0)); D.e1 = mkEdge(&bb, b.getSuccessor(1)); } break; }
      case Instruction::Switch: { auto& s = cast<SwitchInst>(I); D.op = D_SWITCH; D.w2 = widthOf(s.getCondition()->getType()); D.ops.push_back(opnd(s.getCondition())); D.e0 = mkEdge(&bb, s.getDefaultDest());
        std::map<const BasicBlock*, Edge*> es; for (auto c : s.cases()) { Edge*& e = es[c.getCaseSuccessor()]; if (!e) e = mkEdge(&bb, c.getCaseSuccessor()); D.cases.push_back({c.getCaseValue()->getZExtValue(), e}); } break; }
      case Instruction::Ret: D.op = D_RET; if (I.getNumOperands()) { opndN(I.getOperand(0), D.ops); } break;
      case Instruction::Unreachable: D.op = D_UNREACH; break;
      case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(I); D.op = D_EXTRACT; D.n = nslots(t);
        Type* at = e.getAggregateOperand()->getType(); u32 off = 0;
        for (unsigned ix : e.indices()) { if (auto* st = dyn_cast<StructType>(at)) { for (unsigned j = 0; j < ix; j++) off += nslots(st->getElementType(j)); at = st->getElementType(ix); } else { auto* ar = cast<ArrayType>(at); off += ix * nslots(ar->getElementType()); at = ar->getElementType(); } }
        std::vector<Opnd> o; opndN(e.getAggregateOperand(), o); D.op = D_COPY; D.ops.assign(o.begin() + off, o.begin() + off + D.n); break; }
      case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(I); D.op = D_COPY;
        Type* at = t; u32 off = 0;
        for (unsigned ix : e.indices()) { if (auto* st = dyn_cast<StructType>(at)) { for (unsigned j = 0; j < ix; j++) off += nslots(st->getElementType(j)); at = st->getElementType(ix); } else { auto* ar = cast<ArrayType>(at); off += ix * nslots(ar->getElementType()); at = ar->getElementType(); } }
        opndN(e.getAggregateOperand(), D.ops); std::vector<Opnd> o; opndN(e.getInsertedValueOperand(), o);
        for (size_t j = 0; j < o.size(); j++) D.ops[off + j] = o[j];
        break; }
      case Instruction::ExtractElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { D.op = D_UNSUP; break; } std::vector<Opnd> o; opndN(I.getOperand(0), o); D.op = D_COPY; D.ops.push_back(o[ci->getZExtValue()]); break; }
      case Instruction::InsertElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { D.op = D_UNSUP; break; } opndN(I.getOperand(0), D.ops); D.ops[ci->getZExtValue()] = opnd(I.getOperand(1)); D.op = D_COPY; break; }
      case Instruction::ShuffleVector: { auto& s = cast<ShuffleVectorInst>(I); std::vector<Opnd> o; opndN(I.getOperand(0), o); opndN(I.getOperand(1), o); D.op = D_COPY; for (int m : s.getShuffleMask()) D.ops.push_back(m < 0 ? Opnd{-1, cv(0)} : o[m]); break; }
      case Instruction::LandingPad: D.op = D_LPAD; break;
      case Instruction::Resume: D.op = D_RESUME; opndN(I.getOperand(0), D.ops); break;
      case Instruction::Fence: D.op = D_NOP; break;
      case Instruction::AtomicRMW: D.op = D_RMW; D.sub = cast<AtomicRMWInst>(I).getOperation(); D.ops.push_back(opnd(I.getOperand(0))); D.ops.push_back(opnd(I.getOperand(1))); break;
      case Instruction::AtomicCmpXchg: D.op = D_CMPXCHG; for (int j = 0; j < 3; j++) D.ops.push_back(opnd(I.getOperand(j))); D.w = widthOf(I.getOperand(1)->getType()); break;
      case Instruction::Call: case Instruction::Invoke: {
        auto& cb = cast<CallBase>(I);
        D.op = isa<InvokeInst>(I) ? D_INVOKE : D_CALL;
        if (auto* inv = dyn_cast<InvokeInst>(&I)) { D.e0 = mkEdge(&bb, inv->getNormalDest()); D.e1 = mkEdge(&bb, inv->getUnwindDest()); }
        for (auto& a : cb.args()) { if (a->getType()->isMetadataTy()) { D.argN.push_back(0); continue; } D.argN.push_back(opndN(a, D.ops)); }
        Value* cal = cb.getCalledOperand()->stripPointerCasts();
        if (auto* al = dyn_cast<GlobalAlias>(cal)) cal = al->getAliasee()->stripPointerCasts();
        if (isa<InlineAsm>(cal)) { D.ext = X_IGN; if (!t->isVoidTy()) D.ext = -2; break; }
        if (auto* f = dyn_cast<Function>(cal)) {
          D.callee = f;
          if (f->isIntrinsic()) { D.ext = extByIntrinsic(f->getIntrinsicID()); if (D.ext < 0) D.ext = -2; }
          else { int x = extByName(f->getName()); if (x >= 0) D.ext = x; else if (f->isDeclaration()) D.ext = -2; else D.dcallee = getDFunc(f); }
        } else { D.ops.push_back(opnd(cb.getCalledOperand())); D.imm = 1; }
        if (cb.arg_size()) D.w2 = cb.getArgOperand(0)->getType()->isSized() ? (cb.getArgOperand(0)->getType()->isAggregateType() ? 0 : widthOf(cb.getArgOperand(0)->getType())) : 0;
        break;
      }
      default: D.op = D_UNSUP;
    }
  }
}

// ------------------------------------------------------------------ solver
static Z3_context g_z3; static Z3_solver g_solver, g_solverI;
struct Stats {
  u64 paths = 0, killed = 0, instr = 0, forks = 0, z3 = 0, z3lia = 0, z3sat = 0, z3unsat = 0, domq = 0, rngq = 0, lsq = 0, linq = 0, cacheq = 0, modelq = 0, asserts = 0, assertConst = 0, assertDom = 0, assertZ3 = 0, tests = 0, viol = 0, pruned = 0;
  double z3time = 0, maxq = 0; u64 maxpath = 0;
} S;
static std::set<std::string> g_covers;
static u64 g_epoch = 1; static u64 g_domEp = 1;
struct QKeyHash { size_t operator()(const std::vector<u32>& v) const { u64 h = 7; for (u32 x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
struct QRes { int res; std::vector<std::pair<int, u8>> m; };
static std::unordered_map<std::vector<u32>, QRes, QKeyHash> g_qcache;

static void z3err(Z3_context c, Z3_error_code e) { fatal(std::string("z3 error: ") + Z3_get_error_msg(c, e)); }
static void initZ3() {
  Z3_config cfg = Z3_mk_config();
  g_z3 = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(g_z3, z3err);
  g_solver = Z3_mk_solver_for_logic(g_z3, Z3_mk_string_symbol(g_z3, "QF_BV"));
  Z3_solver_inc_ref(g_z3, g_solver);
  Z3_params p = Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3, p);
  Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "timeout"), optQueryTimeout);
  Z3_solver_set_params(g_z3, g_solver, p);
  g_solverI = Z3_mk_solver_for_logic(g_z3, Z3_mk_string_symbol(g_z3, "QF_LIA")); Z3_solver_inc_ref(g_z3, g_solverI); Z3_solver_set_params(g_z3, g_solverI, p);
  Z3_params_dec_ref(g_z3, p);
}
// returns 1 sat, 0 unsat; fatal on unknown
static int z3check(const std::vector<Expr*>& cs, const VSet& vars, std::vector<std::pair<int, u8>>& m) {
  double t = now();
  if (optVerbose > 2) { fprintf(stderr, "query:\n"); for (Expr* e : cs) { printExpr(stderr, e, 30); fprintf(stderr, "\n"); } }
  std::vector<Z3_ast> lia; bool useLia = wantsLia(cs) && liaQuery(g_z3, cs, vars, lia);
  Z3_solver g_solver = useLia ? ::g_solverI : ::g_solver;
  Z3_solver_push(g_z3, g_solver);
  if (useLia) { S.z3lia++; for (Z3_ast a : lia) Z3_solver_assert(g_z3, g_solver, a); }
  else for (Expr* e : cs) Z3_solver_assert(g_z3, g_solver, toZ3(g_z3, e));
  Z3_lbool r = Z3_solver_check(g_z3, g_solver);
  S.z3++;
  if (getenv("VK_DUMP") && r == Z3_L_UNDEF) { FILE* f = fopen(getenv("VK_DUMP"), "w"); fputs(Z3_solver_to_string(g_z3, g_solver), f); fprintf(f, "(check-sat)\n"); fclose(f); }
  if (r == Z3_L_UNDEF && useLia) { Z3_solver_pop(g_z3, g_solver, 1); useLia = false; g_solver = ::g_solver; Z3_solver_push(g_z3, g_solver); for (Expr* e : cs) Z3_solver_assert(g_z3, g_solver, toZ3(g_z3, e)); r = Z3_solver_check(g_z3, g_solver); }
  if (r == Z3_L_UNDEF) {
    if (optVerbose) { for (Expr* e : cs) { printExpr(stderr, e, 30); fprintf(stderr, "\n"); } }
    fatal("solver returned unknown (query timeout)");
  }
  if (r == Z3_L_TRUE) {
    S.z3sat++;
    Z3_model mo = Z3_solver_get_model(g_z3, g_solver);
    Z3_model_inc_ref(g_z3, mo);
    for (int v = 0; v < MAXV; v++) if (vars.test(v)) {
      Z3_ast out; u64 x = 0;
      if (Z3_model_eval(g_z3, mo, useLia ? liaVar(g_z3, v) : toZ3(g_z3, mkVar(v)), true, &out)) { uint64_t y; if (Z3_get_numeral_uint64(g_z3, out, &y)) x = y; }
      m.push_back({v, useLia ? liaByte(v, x) : (u8)x});
    }
    Z3_model_dec_ref(g_z3, mo);
    static u8 chk[MAXV]; for (auto& p : m) chk[p.first] = p.second; u64 ep = ++g_epoch; for (Expr* e : cs) if (!evalExpr(e, chk, ep)) { if (optVerbose) { for (auto& p : m) fprintf(stderr, "b%d=%d ", p.first, p.second); fprintf(stderr, "lia=%d\n", (int)useLia); printExpr(stderr, e, 30); fprintf(stderr, "\n%s", Z3_solver_to_string(g_z3, g_solver)); } fatal("solver model does not satisfy the query"); }
  } else S.z3unsat++;
  Z3_solver_pop(g_z3, g_solver, 1);
  static int cnt = 0; if (++cnt % 2000 == 0) { Z3_solver_reset(g_z3, ::g_solver); Z3_solver_reset(g_z3, ::g_solverI); }
  t = now() - t; S.z3time += t; if (t > S.maxq) S.maxq = t;
  if (optVerbose > 1 && t > 0.05) { fprintf(stderr, "slow query %.2fs res=%d ncons=%zu\n", t, r, cs.size()); for (Expr* e : cs) { printExpr(stderr, e, 12); fprintf(stderr, "\n"); } }
  return r == Z3_L_TRUE;
}
enum { BY_CONST, BY_DOM, BY_Z3 };
static int g_lastBy;
// Is (path condition && e) satisfiable?  On success *m holds a full model.
static bool mayBeTrue(State& s, Expr* e, std::vector<u8>* m) {
  if (isC(e)) { g_lastBy = BY_CONST; if (e->c && m) *m = s.model; return e->c; }
  if (evalExpr(e, s.model.data(), s.epoch)) { S.modelq++; g_lastBy = BY_Z3; if (m) *m = s.model; return true; }
  if (e->sv >= 0) {
    TT t = truthTable(e); TT& d = s.dom[e->sv];
    for (int i = 0; i < 4; i++) t.b[i] &= d.b[i];
    if (t.empty()) { S.domq++; g_lastBy = BY_DOM; return false; }
    if (!s.multi.test(e->sv)) { S.domq++; g_lastBy = BY_DOM; if (m) { *m = s.model; (*m)[e->sv] = t.first(); } return true; }
  }
  {  // interval reasoning over the byte domains
    u128 lo, hi; rangeExpr(e, s.dom.data(), s.domEp, lo, hi);
    if (hi == 0) { S.rngq++; g_lastBy = BY_DOM; return false; }
  }
  g_lastBy = BY_Z3;
  // independence slicing
  VSet vs = e->vs; std::vector<char> in(s.cons.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.cons.size(); i++) if (!in[i] && s.cons[i]->vs.intersects(vs)) { in[i] = 1; if (!vs.contains(s.cons[i]->vs)) { vs.add(s.cons[i]->vs); ch = true; } } }
  std::vector<Expr*> q; for (size_t i = 0; i < s.cons.size(); i++) if (in[i]) q.push_back(s.cons[i]);
  // all variables fixed?
  bool fixed = true;
  for (int v = 0; v < (int)s.nvars; v++) if (vs.test(v)) { if (s.dom[v].count() != 1) fixed = false; if (!(s.dom[v] == TT_ALL)) q.push_back(mkDomain(v, s.dom[v])); }
  if (fixed) { S.domq++; g_lastBy = BY_DOM; return false; }  // model was evaluated above and is the only one
  if (e->sv >= 0) {
    TT t = truthTable(e); const TT& d = s.dom[e->sv]; for (int i = 0; i < 4; i++) t.b[i] &= d.b[i];
    // refined domain contradicts a constraint outright?
    TT save = s.dom[e->sv]; s.dom[e->sv] = t; u64 ep = ++g_domEp; bool allTrue = true, anyFalse = false;
    for (size_t i = 0; i < s.cons.size() && !anyFalse; i++) if (in[i]) { u128 lo, hi; rangeExpr(s.cons[i], s.dom.data(), ep, lo, hi); if (hi == 0) anyFalse = true; if (lo == 0) allTrue = false; }
    s.dom[e->sv] = save;
    if (anyFalse) { S.rngq++; g_lastBy = BY_DOM; return false; }
    (void)allTrue;
    // try a few witnesses before asking the solver
    std::vector<u8> mm = s.model; int tried = 0; std::vector<int> vals; for (int x = 0; x < 256; x++) if (t.test(x)) vals.push_back(x);
    size_t step = vals.size() > 24 ? vals.size() / 24 : 1;
    for (size_t i = 0; i < vals.size() && tried < 26; i += step, tried++) {
      mm[e->sv] = (u8)vals[i]; u64 ep2 = ++g_epoch; bool ok = true;
      for (size_t j = 0; j < s.cons.size(); j++) if (in[j] && !evalExpr(s.cons[j], mm.data(), ep2)) { ok = false; break; }
      if (ok) { S.lsq++; if (m) *m = mm; return true; }
    }
  }
  Expr* se = simpExpr(e, s.dom.data(), s.domEp);
  if (isC(se) && !se->c) {
    if (!optCheckSimp) { S.linq++; g_lastBy = BY_DOM; return false; }
    std::vector<Expr*> q2 = q; q2.push_back(e); std::vector<std::pair<int, u8>> mm; if (z3check(q2, vs, mm)) fatal("simplifier disagrees with the solver"); S.linq++; return false;
  }
  if (!optCheckSimp) { for (Expr*& x : q) if (x->sv < 0) x = simpExpr(x, s.dom.data(), s.domEp); q.push_back(se); }
  else { std::vector<Expr*> q2 = q; for (Expr*& x : q2) if (x->sv < 0) x = simpExpr(x, s.dom.data(), s.domEp); q2.push_back(se); q.push_back(e); std::vector<std::pair<int, u8>> m1, m2; if (z3check(q, vs, m1) != z3check(q2, vs, m2)) fatal("simplifier disagrees with the solver (query)"); }
  std::vector<u32> key; for (Expr* x : q) key.push_back(x->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = g_qcache.find(key);
  QRes* r;
  if (it != g_qcache.end()) { S.cacheq++; r = &it->second; }
  else { QRes n; n.res = z3check(q, vs, n.m); if (g_qcache.size() > 2000000) g_qcache.clear(); r = &(g_qcache[key] = n); }
  if (r->res && m) { *m = s.model; for (auto& p : r->m) (*m)[p.first] = p.second; }
  return r->res;
}
// drop multi-variable constraints that the byte domains already imply
static void pruneCons(State& s, int v) {
  if (!s.multi.test(v)) return;
  bool ch = false; size_t j = 0;
  for (size_t i = 0; i < s.cons.size(); i++) {
    Expr* c = s.cons[i];
    if (c->vs.test(v)) { u128 lo, hi; rangeExpr(c, s.dom.data(), s.domEp, lo, hi); if (lo == 1) { ch = true; continue; } }
    s.cons[j++] = c;
  }
  if (ch) { s.cons.resize(j); s.multi = VSet{{0, 0, 0, 0}}; for (Expr* c : s.cons) s.multi.add(c->vs); }
}
static void addCons(State& s, Expr* e) {
  if (isC(e)) { if (!e->c) fatal("adding false constraint"); return; }
  if (e->op == E_AND) { addCons(s, e->k[0]); addCons(s, e->k[1]); return; }
  // !(a|b) -> !a & !b
  if (e->op == E_XOR && isC(e->k[1]) && e->k[0]->op == E_OR && e->k[0]->w == 1) { addCons(s, mkNot(e->k[0]->k[0])); addCons(s, mkNot(e->k[0]->k[1])); return; }
  if (e->sv >= 0) { TT t = truthTable(e); TT& d = s.dom[e->sv]; TT o = d; for (int i = 0; i < 4; i++) d.b[i] &= t.b[i]; if (!(o == d)) { s.domEp = ++g_domEp; pruneCons(s, e->sv); } return; }
  for (Expr* x : s.cons) if (x == e) return;
  // a word-wise test in which a single byte is undetermined restricts that byte only: decide it value by value
  int nv = 0, wide = -1, nw = 0; for (int v = 0; v < (int)s.nvars; v++) if (e->vs.test(v)) { nv++; if (s.dom[v].count() > 16) { nw++; wide = v; } }
  Expr* core = e->op == E_XOR && isC(e->k[1]) ? e->k[0] : e; bool swar = core->op == E_EQ && core->k[0]->op == E_AND && isC(core->k[0]->k[1]) && isC(core->k[1]);
  if (nv >= 4 && nw == 1 && swar) {
    TT save = s.dom[wide], keep = save; bool allTrue = true;
    for (int x = 0; x < 256; x++) if (save.test(x)) { TT u = {{0, 0, 0, 0}}; u.set(x); s.dom[wide] = u; Expr* z = simpExpr(e, s.dom.data(), ++g_domEp); 
      if (!isC(z)) {   // ask the solver about this value, over the domains alone
        std::vector<Expr*> q{e}; for (int v = 0; v < (int)s.nvars; v++) if (e->vs.test(v)) q.push_back(mkDomain(v, s.dom[v]));
        std::vector<u32> key{0x5a5a5a5a}; for (Expr* y : q) key.push_back(y->id);
        auto it = g_qcache.find(key); if (it == g_qcache.end()) { QRes n; n.res = z3check(q, e->vs, n.m); if (n.res) { q[0] = mkNot(e); std::vector<std::pair<int, u8>> mm; if (!z3check(q, e->vs, mm)) n.res = 2; } it = g_qcache.emplace(key, n).first; }
        if (it->second.res != 1) z = mkConst(1, it->second.res == 2);
      }
      if (isC(z) && !z->c) keep.b[x >> 6] &= ~(1ull << (x & 63)); else if (!isC(z)) allTrue = false; }
    s.dom[wide] = keep; s.domEp = ++g_domEp; S.linq++;
    if (keep.empty()) fatal("adding false constraint");
    if (!(keep == save)) pruneCons(s, wide);
    if (allTrue) return;
  }
  s.cons.push_back(e); s.multi.add(e->vs);
}
static void setModel(State& s, const std::vector<u8>& m) { s.model = m; s.epoch = ++g_epoch; }

// ------------------------------------------------------------------ reporting
static std::vector<State*> g_work;
struct PathEnd {};
static std::string hexModel(const std::vector<u8>& m, u32 n) { std::string r; char b[4]; for (u32 i = 0; i < n; i++) { snprintf(b, 4, "%02x", m[i]); r += b; } return r.empty() ? "-" : r; }
static std::string where(State& s) {
  std::string r;
  for (int i = (int)s.fr.size() - 1, k = 0; i >= 0 && k < 8; i--, k++) {
    std::string n = demangle(s.fr[i].f->F->getName().str());
    size_t p = n.find('('); if (p != std::string::npos && n.find("(anonymous") != p) n = n.substr(0, p);
    if (n.size() > 110) n = n.substr(0, 110);
    if (k) r += " < ";
    r += n;
  }
  for (auto& c : r) if (c == '\t' || c == '\n') c = ' ';
  return r;
}
static void violation(State& s, const std::string& kind, const std::string& label, const std::vector<u8>& m) {
  S.viol++;
  static std::set<std::string> seen;
  std::string key = kind + label;
  if (seen.insert(key).second) {
    std::string line = "V\t" + kind + "\t" + label + "\t" + hexModel(m, s.nvars) + "\t" + where(s) + "\n";
    (void)!write(g_outfd, line.data(), line.size());
    if (optVerbose) fprintf(stderr, "%s", line.c_str());
  }
  if (optStopFirst) g_sh->stop = 1;
}
[[noreturn]] static void kill(State& s, const std::string& kind, const std::string& label) {
  if (optVerbose) { std::string x; raw_string_ostream os(x); if (!s.fr.empty() && s.fr.back().pc && s.fr.back().pc->I) s.fr.back().pc->I->print(os); fprintf(stderr, "at: %s\n", os.str().c_str()); }
  violation(s, kind, label, s.model); throw PathEnd();
}
static void pushState(State* s) { g_work.push_back(s); S.forks++; }

// Resolve a condition, forking the other side (the other state re-executes or is set up by fix).
static bool branchOn(State& s, Expr* cond, const std::function<void(State&)>& fixTrue, const std::function<void(State&)>& fixFalse) {
  bool b = evalExpr(cond, s.model.data(), s.epoch) != 0;
  Expr* other = b ? mkNot(cond) : cond;
  std::vector<u8> m;
  if (mayBeTrue(s, other, &m)) {
    State* o = new State(s);
    addCons(*o, other); setModel(*o, m);
    if (b) fixFalse(*o); else fixTrue(*o);
    pushState(o);
    addCons(s, b ? cond : mkNot(cond));
  }
  return b;
}
// Fork over all values of e; the current state continues with one value.
static u64 concretize(State& s, const Val& v, int w) {
  if (!v.e) return v.c;
  Expr* e = v.e;
  if (isC(e)) return (u64)e->c;
  u64 x = (u64)evalExpr(e, s.model.data(), s.epoch);
  Expr* eq = mkEq(e, mkConst(w, x));
  std::vector<u8> m;
  if (mayBeTrue(s, mkNot(eq), &m)) {
    if (optVerbose >= 2) { fprintf(stderr, "concretize "); printExpr(stderr, e, 8); Frame& ff = s.fr.back(); fprintf(stderr, " op %d at %s\n", ff.pc->op, where(s).c_str()); }
    State* o = new State(s); addCons(*o, mkNot(eq)); setModel(*o, m); pushState(o);
  }
  addCons(s, eq);
  return x;
}

// ------------------------------------------------------------------ memory access
static Obj* access(State& s, u64 addr, u64 n, bool wr, u64* off) {
  u64 id = addr >> OBJ_SHIFT; u64 o = addr & ((1ull << OBJ_SHIFT) - 1);
  Obj* ob = id < s.nobj && id > 0 ? s.get((u32)id) : nullptr;
  char buf[160];
  if (!ob) {
    // pointer just below an object start?
    Obj* nx = id + 1 < s.nobj ? s.get((u32)id + 1) : nullptr;
    snprintf(buf, sizeof buf, "%s of %llu bytes at %s address 0x%llx", wr ? "write" : "read", (unsigned long long)n, addr < (1u << OBJ_SHIFT) ? "null/low" : "wild", (unsigned long long)addr); (void)nx;
    kill(s, "memory", buf);
  }
  if (ob->freed) { snprintf(buf, sizeof buf, "%s of %llu bytes in dead %s object (offset %llu, size %u)", wr ? "write" : "read", (unsigned long long)n, ob->kind == K_STACK ? "stack" : "heap", (unsigned long long)o, ob->size); kill(s, "memory", buf); }
  if (o + n > ob->size || ob->kind == K_FUNC) { snprintf(buf, sizeof buf, "out-of-bounds %s of %llu bytes at offset %llu of %s object of size %u", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)o, ob->kind == K_STACK ? "stack" : ob->kind == K_HEAP ? "heap" : "global", ob->size); kill(s, "memory", buf); }
  if (wr && ob->ro) kill(s, "memory", "write to constant object");
  *off = o;
  return ob;
}
static inline Expr* simpVar(State& s, Expr* e) {
  if (e->op == E_VAR) { const TT& t = s.dom[(int)e->c]; if (t.count() == 1) return mkConst(8, t.first()); }
  return e;
}
static Val readObj(State& s, Obj* ob, u64 off, u32 bits) {
  u32 n = (bits + 7) / 8;
  bool sym = false;
  if (!ob->s.empty()) for (u32 i = 0; i < n; i++) if (ob->s[off + i]) { sym = true; break; }
  if (!sym) {
    if (bits <= 64) { u64 v = 0; memcpy(&v, ob->b.data() + off, n); return cv(mw(v, bits)); }
    u128 v = 0; memcpy(&v, ob->b.data() + off, n > 16 ? 16 : n); return Val{0, mkConst(bits, v)};
  }
  Expr* r = nullptr;
  for (u32 i = 0; i < n; i++) { Expr* x = ob->s[off + i] ? simpVar(s, ob->s[off + i]) : mkConst(8, ob->b[off + i]); r = r ? mkConcat(x, r) : x; }
  if (bits % 8) r = mkExtract(r, 0, bits);
  return fromE(r);
}
static void writeObj(Obj* ob, u64 off, u32 bits, const Val& v) {
  u32 n = (bits + 7) / 8;
  if (!v.e) {
    u64 c = v.c;
    for (u32 i = 0; i < n; i++) ob->b[off + i] = i < 8 ? (u8)(c >> (8 * i)) : 0;
    if (!ob->s.empty()) for (u32 i = 0; i < n; i++) ob->s[off + i] = nullptr;
    return;
  }
  Expr* e = v.e; if (bits % 8) e = mkZext(e, n * 8);
  if (ob->s.empty()) ob->s.assign(ob->size, nullptr);
  for (u32 i = 0; i < n; i++) {
    Expr* x = mkExtract(e, 8 * i, 8);
    if (isC(x)) { ob->b[off + i] = (u8)x->c; ob->s[off + i] = nullptr; } else ob->s[off + i] = x;
  }
}
static Val loadVal(State& s, const Val& p, u32 bits) {
  if (bits == 0xffffffff) fatal("vector of sub-byte elements");
  u32 n = (bits + 7) / 8;
  if (!p.e) { u64 off; Obj* o = access(s, p.c, n, false, &off); return readObj(s, o, off, bits); }
  Expr* a = p.e;
  if (a->sv == -2 && bits <= 64) { a = simpExpr(a, s.dom.data(), s.domEp); if (isC(a)) { u64 off; Obj* o = access(s, (u64)a->c, n, false, &off); return readObj(s, o, off, bits); } }
  if (a->sv >= 0 && bits <= 64) {
    // exact candidate set from the byte domain
    const TT& d = s.dom[a->sv];
    std::vector<std::pair<int, u64>> cand; u32 id0 = 0; bool same = true; TT bad = {{0, 0, 0, 0}};
    for (int x = 0; x < 256; x++) if (d.test(x)) {
      u64 ad = a->tab ? a->tab[x] : 0; if (!a->tab) { same = false; break; }
      u64 id = ad >> OBJ_SHIFT, off = ad & ((1ull << OBJ_SHIFT) - 1);
      Obj* o = id < s.nobj && id ? s.get((u32)id) : nullptr;
      if (!o || o->freed || off + n > o->size || o->kind == K_FUNC) { bad.set(x); continue; }
      if (!id0) id0 = (u32)id; else if (id0 != id) same = false;
      cand.push_back({x, off});
    }
    if (!bad.empty()) { u64 x = concretize(s, Val{0, a}, 64); u64 off; Obj* o = access(s, x, n, false, &off); return readObj(s, o, off, bits); }
    if (same && !cand.empty()) {
      Obj* o = s.get(id0);
      bool conc = true; std::vector<Val> vals;
      for (auto& c : cand) { Val v = readObj(s, o, c.second, bits); if (v.e) conc = false; vals.push_back(v); }
      if (conc) {
        Expr* var = mkVar(a->sv); Expr* zx = bits >= 8 ? mkZext(var, bits) : mkExtract(var, 0, bits);
        std::vector<char> done(cand.size(), 0); size_t left = cand.size();
        std::vector<std::pair<TT, Expr*>> pieces;
        while (left) {
          std::map<u64, int> cc, lc; 
          for (size_t i = 0; i < cand.size(); i++) if (!done[i]) { cc[vals[i].c]++; lc[mw(vals[i].c - (u64)cand[i].first, bits)]++; }
          u64 bc = 0, bl = 0; int nc = 0, nl = 0;
          for (auto& p2 : cc) if (p2.second > nc) { nc = p2.second; bc = p2.first; }
          for (auto& p2 : lc) if (p2.second > nl) { nl = p2.second; bl = p2.first; }
          TT t = {{0, 0, 0, 0}};
          bool lin = nl > nc;
          for (size_t i = 0; i < cand.size(); i++) if (!done[i] && (lin ? mw(vals[i].c - (u64)cand[i].first, bits) == bl : vals[i].c == bc)) { done[i] = 1; left--; t.set(cand[i].first); }
          pieces.push_back({t, lin ? mkAdd(zx, mkConst(bits, bl)) : mkConst(bits, bc)});
        }
        Expr* r = pieces[0].second;
        for (size_t i = 1; i < pieces.size(); i++) r = mkIte(mkDomain(a->sv, pieces[i].first), pieces[i].second, r);
        return fromE(r);
      }
      if (cand.size() <= 16 && bits <= 8) {
        Expr* r = toE(vals[0], bits);
        for (size_t i = 1; i < cand.size(); i++) { TT t = {{0, 0, 0, 0}}; t.set(cand[i].first); r = mkIte(mkDomain(a->sv, t), toE(vals[i], bits), r); }
        return fromE(r);
      }
    }
  }
  u64 x = concretize(s, Val{0, a}, 64); u64 off; Obj* o = access(s, x, n, false, &off); return readObj(s, o, off, bits);
}
static void storeVal(State& s, u64 addr, u32 bits, const Val& v) {
  if (bits == 0xffffffff) fatal("vector of sub-byte elements");
  u64 off; access(s, addr, (bits + 7) / 8, true, &off);
  writeObj(s.getW((u32)(addr >> OBJ_SHIFT)), off, bits, v);
}
static std::string readStr(State& s, u64 addr) {
  std::string r; u64 off; Obj* o = access(s, addr, 1, false, &off);
  for (; off < o->size && o->b[off]; off++) r += (char)o->b[off];
  return r;
}
static void copyMem(State& s, u64 d, u64 sr, u64 n) {
  if (!n) return;
  u64 so, dof; Obj* a = access(s, sr, n, false, &so); access(s, d, n, true, &dof);
  a->ref++;  // keep source alive across COW
  Obj* o = s.getW((u32)(d >> OBJ_SHIFT));
  if (a == o) { a->ref--; }
  if (a == o || (d >> OBJ_SHIFT) == (sr >> OBJ_SHIFT)) {
    std::vector<u8> t(o->b.begin() + so, o->b.begin() + so + n); memcpy(o->b.data() + dof, t.data(), n);
    if (!o->s.empty()) { std::vector<Expr*> q(o->s.begin() + so, o->s.begin() + so + n); memcpy((void*)(o->s.data() + dof), q.data(), n * sizeof(Expr*)); }
  } else {
    memcpy(o->b.data() + dof, a->b.data() + so, n);
    if (!a->s.empty()) { if (o->s.empty()) o->s.assign(o->size, nullptr); for (u64 i = 0; i < n; i++) { Expr* e = a->s[so + i]; if (e) { e = simpVar(s, e); if (isC(e)) { o->b[dof + i] = (u8)e->c; e = nullptr; } } o->s[dof + i] = e; } }
    else if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[dof + i] = nullptr;
  }
  if (a != o) { if (--a->ref == 0) delete a; }
}

// ------------------------------------------------------------------ execution
static inline Val getOp(State& s, u32 base, const Opnd& o) { return o.slot < 0 ? o.c : s.regs[base + o.slot]; }
static inline Val getOpR(State& s, u32 base, const Opnd& o) {
  if (o.slot < 0) return o.c;
  Val v = s.regs[base + o.slot];
  if (v.e && v.e->sv >= 0) v = fromE(restrictExpr(v.e, s.dom.data()));
  return v;
}
static void takeEdge(State& s, Frame& f, Edge* e) {
  size_t n = e->copies.size();
  if (n == 1) { s.regs[f.base + e->copies[0].dst] = getOp(s, f.base, e->copies[0].src); }
  else if (n) {
    Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = getOp(s, f.base, e->copies[i].src);
    for (size_t i = 0; i < n; i++) s.regs[f.base + e->copies[i].dst] = t[i];
  }
  f.pc = e->to;
}
static void popFrame(State& s) {
  Frame& f = s.fr.back();
  for (u32 id : f.allocas) { Obj* o = s.getW(id); o->freed = true; o->b.clear(); o->b.shrink_to_fit(); o->s.clear(); o->s.shrink_to_fit(); }
  s.regs.resize(f.base);
  s.fr.pop_back();
}
static void pushFrame(State& s, DFunc* d, const std::vector<Val>& args) {
  if (!d->decoded) decode(d);
  d->used = true; d->execs++;
  if (s.fr.size() > 400) kill(s, "recursion", "call depth above 400");
  Frame f; f.f = d; f.base = s.regs.size(); f.pc = d->code.data();
  s.regs.resize(f.base + d->nslots, cv(0));
  size_t k = 0;
  for (auto& a : d->args) for (int i = 0; i < a.second; i++) s.regs[f.base + a.first + i] = k < args.size() ? args[k++] : cv(0);
  s.fr.push_back(std::move(f));
}
static void setRet(State& s, const Val& v) { Frame& f = s.fr.back(); if (f.pc->dst >= 0) s.regs[f.base + f.pc->dst] = v; }
static void advanceCall(State& s) { Frame& f = s.fr.back(); if (f.pc->op == D_INVOKE) takeEdge(s, f, f.pc->e0); else f.pc++; }

static bool tiIsBase(State& s, u64 ti, u64 target, int depth = 0) {
  if (ti == target) return true;
  if (depth > 10) return false;
  auto it = g_gvaddr.find(ti);
  if (it == g_gvaddr.end()) return false;
  const GlobalVariable* g = it->second;
  if (!g->hasInitializer()) {
    static const std::map<std::string, std::string> base = {
      {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
      {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}};
    auto b = base.find(g->getName().str());
    while (b != base.end()) { auto* bg = g_mod->getNamedGlobal(b->second); if (bg && g_gaddr.count(bg) && g_gaddr[bg] == target) return true; b = base.find(b->second); }
    return false;
  }
  u64 sz = g_dl->getTypeAllocSize(g->getValueType());
  Obj* o = s.get((u32)(ti >> OBJ_SHIFT));
  auto rd = [&](u64 off) { u64 v; memcpy(&v, o->b.data() + off, 8); return v; };
  if (sz == 24) return tiIsBase(s, rd(16), target, depth + 1);
  if (sz > 24) { u32 cnt; memcpy(&cnt, o->b.data() + 20, 4); for (u32 i = 0; i < cnt && 24 + 16 * i + 8 <= sz; i++) if (tiIsBase(s, rd(24 + 16 * i), target, depth + 1)) return true; }
  return false;
}
// unwind the top frame's callee: current top frame is the one whose pc raised
static void unwindExc(State& s, u64 addr) {
  u64 ti = 0; for (auto& e : s.excs) if (e.addr == addr) ti = e.tinfo;
  bool first = true;
  while (!s.fr.empty()) {
    Frame& f = s.fr.back(); (void)first;
    if (f.pc->op == D_INVOKE) {
      auto* inv = cast<InvokeInst>(f.pc->I); auto* lp = inv->getLandingPadInst();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) {
          auto* c = lp->getClause(i); 
          if (isa<ConstantPointerNull>(c)) { s.pendingExc = addr; s.pendingSel = 1; takeEdge(s, f, f.pc->e1); return; }
          u64 t = constScalar(c).c;
          if (tiIsBase(s, ti, t)) { s.pendingExc = addr; s.pendingSel = t >> OBJ_SHIFT; takeEdge(s, f, f.pc->e1); return; }
        } else { // filter: treat empty filter as matching -> terminate
          s.pendingExc = addr; s.pendingSel = (u64)(u32)-1; takeEdge(s, f, f.pc->e1); return;
        }
      }
      if (lp->isCleanup()) { s.pendingExc = addr; s.pendingSel = 0; takeEdge(s, f, f.pc->e1); return; }
    }
    if (s.fr.size() == 1) break;
    popFrame(s);
  }
  std::string tn = "?"; auto it = g_gvaddr.find(ti); if (it != g_gvaddr.end()) tn = demangle(it->second->getName().str());
  kill(s, "exception", "uncaught exception: " + tn);
}
static u64 newExc(State& s, u64 size) {
  u32 id = s.alloc(size ? size : 1, K_EXC); s.getW(id)->b.assign(size ? size : 1, 0);
  return addrOf(id);
}
static void throwStd(State& s, const char* ti) {
  u64 a = newExc(s, 64);
  auto* g = g_mod->getNamedGlobal(ti); u64 t = 0;
  if (g && g_gaddr.count(g)) t = g_gaddr[g];
  s.excs.push_back({a, t, 0, 0});
  unwindExc(s, a);
}

static Val binop(int op, int w, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c;
    switch (op) {
      case D_ADD: return cv(mw(x + y, w)); case D_SUB: return cv(mw(x - y, w)); case D_MUL: return cv(mw(x * y, w));
      case D_AND: return cv(x & y); case D_OR: return cv(x | y); case D_XOR: return cv(x ^ y);
      case D_SHL: return cv(y >= (u64)w ? 0 : mw(x << y, w)); case D_LSHR: return cv(y >= (u64)w ? 0 : x >> y);
      case D_UDIV: return cv(x / y); case D_UREM: return cv(x % y);
      default: break;
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (op) {
    case D_ADD: return fromE(mkAdd(x, y)); case D_SUB: return fromE(mkSub(x, y)); case D_MUL: return fromE(mkMul(x, y));
    case D_UDIV: return fromE(mkBin(E_UDIV, x, y)); case D_SDIV: return fromE(mkBin(E_SDIV, x, y)); case D_UREM: return fromE(mkBin(E_UREM, x, y)); case D_SREM: return fromE(mkBin(E_SREM, x, y));
    case D_AND: return fromE(mkAnd(x, y)); case D_OR: return fromE(mkOr(x, y)); case D_XOR: return fromE(mkXor(x, y));
    case D_SHL: return fromE(mkShl(x, y)); case D_LSHR: return fromE(mkLshr(x, y)); case D_ASHR: return fromE(mkAshr(x, y));
  }
  abort();
}
static Val icmp(int p, int w, const Val& a, const Val& b) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c; int64_t sxx = (int64_t)sx(x, w), sy = (int64_t)sx(y, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y);
      case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y); case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y);
      case CmpInst::ICMP_SLT: return cv(sxx < sy); case CmpInst::ICMP_SLE: return cv(sxx <= sy); case CmpInst::ICMP_SGT: return cv(sxx > sy); case CmpInst::ICMP_SGE: return cv(sxx >= sy);
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return fromE(mkEq(x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: return fromE(mkUlt(x, y)); case CmpInst::ICMP_ULE: return fromE(mkNot(mkUlt(y, x))); case CmpInst::ICMP_UGT: return fromE(mkUlt(y, x)); case CmpInst::ICMP_UGE: return fromE(mkNot(mkUlt(x, y)));
    case CmpInst::ICMP_SLT: return fromE(mkSlt(x, y)); case CmpInst::ICMP_SLE: return fromE(mkNot(mkSlt(y, x))); case CmpInst::ICMP_SGT: return fromE(mkSlt(y, x)); case CmpInst::ICMP_SGE: return fromE(mkNot(mkSlt(x, y)));
  }
  abort();
}
static long double toLD(const Val& v, int w) {
  if (w == 32) { float f; u32 b = (u32)v.c; memcpy(&f, &b, 4); return f; }
  if (w == 64) { double f; memcpy(&f, &v.c, 8); return f; }
  long double f = 0; u128 b = v.e ? v.e->c : v.c; memcpy(&f, &b, 10); return f;
}
static Val fromLD(long double x, int w) {
  if (w == 32) { float f = (float)x; u32 b; memcpy(&b, &f, 4); return cv(b); }
  if (w == 64) { double f = (double)x; u64 b; memcpy(&b, &f, 8); return cv(b); }
  u128 b = 0; memcpy(&b, &x, 10); return Val{0, mkConst(80, b)};
}
static bool isConcrete(const Val& v) { return !v.e || isC(v.e); }
// float/double comparison as bit-vector logic
static Expr* fpNan(Expr* x, int w) { int eb = w == 32 ? 8 : 11, mb = w == 32 ? 23 : 52; Expr* mag = mkExtract(x, 0, w - 1); (void)eb; return mkUlt(mkConst(w - 1, (((u128)1 << eb) - 1) << mb), mag); }
static Expr* fpLt(Expr* a, Expr* b, int w) { // ordered, no nan
  Expr *sa = mkExtract(a, w - 1, 1), *sb = mkExtract(b, w - 1, 1), *ma = mkExtract(a, 0, w - 1), *mb = mkExtract(b, 0, w - 1);
  Expr* bothz = mkAnd(mkEq(ma, mkConst(w - 1, 0)), mkEq(mb, mkConst(w - 1, 0)));
  Expr* r = mkIte(sa, mkIte(sb, mkUlt(mb, ma), mkConst(1, 1)), mkIte(sb, mkConst(1, 0), mkUlt(ma, mb)));
  return mkAnd(mkNot(bothz), r);
}
static Expr* fpEq(Expr* a, Expr* b, int w) { return mkOr(mkEq(a, b), mkAnd(mkEq(mkExtract(a, 0, w - 1), mkConst(w - 1, 0)), mkEq(mkExtract(b, 0, w - 1), mkConst(w - 1, 0)))); }
static Val fcmp(State& s, int p, int w, const Val& a, const Val& b) {
  if (isConcrete(a) && isConcrete(b)) {
    long double x = toLD(a, w), y = toLD(b, w); bool un = std::isnan(x) || std::isnan(y); bool r = false;
    switch (p & 7) { case 0: r = false; break; case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = !un && x != y; break; case 7: r = !un; break; }
    if (p >= 8) r = un || r; 
    if (p == 15) r = true;
    if (p == 8) r = un;
    return cv(r);
  }
  if (w > 64) fatal("symbolic x86_fp80 compare");
  Expr *x = toE(a, w), *y = toE(b, w); Expr* un = mkOr(fpNan(x, w), fpNan(y, w)); Expr* ord = mkNot(un); Expr* r;
  switch (p & 7) { case 0: r = mkConst(1, 0); break; case 1: r = fpEq(x, y, w); break; case 2: r = fpLt(y, x, w); break; case 3: r = mkOr(fpLt(y, x, w), fpEq(x, y, w)); break; case 4: r = fpLt(x, y, w); break; case 5: r = mkOr(fpLt(x, y, w), fpEq(x, y, w)); break; case 6: r = mkNot(fpEq(x, y, w)); break; default: r = mkConst(1, 1); }
  r = p < 8 ? mkAnd(ord, r) : mkOr(un, r);
  return fromE(r);
}

static void doAssert(State& s, const Val& c, const std::string& label) {
  S.asserts++;
  if (!c.e) { S.assertConst++; if (!(c.c & 1)) { kill(s, "assert", label); } return; }
  std::vector<u8> m; Expr* neg = mkNot(c.e);
  if (mayBeTrue(s, neg, &m)) {
    violation(s, "assert", label, m);
    // continue on the side where it holds, if any
    if (!mayBeTrue(s, c.e, &m)) throw PathEnd();
    addCons(s, c.e); setModel(s, m);
    return;
  }
  if (g_lastBy == BY_DOM) S.assertDom++; else S.assertZ3++;
}

static void execCall(State& s);
static Val opA(State& s, int i) { Frame& f = s.fr.back(); return getOp(s, f.base, f.pc->ops[i]); }

static u32 newVars(State& s, u32 n, const char* name) {
  u32 first = s.nvars; if (first + n > MAXV) fatal("too many symbolic bytes");
  s.nvars += n; s.dom.resize(s.nvars, TT_ALL); s.domEp = ++g_domEp; s.model.resize(s.nvars, 0); s.syms.push_back({first, n, name}); s.epoch = ++g_epoch;
  return first;
}

static void execExt(State& s, int x) {
  Frame& f = s.fr.back(); DInst& D = *f.pc;
  auto A = [&](int i) { return getOp(s, f.base, D.ops[i]); };
  auto C = [&](int i, int w = 64) { return concretize(s, getOp(s, f.base, D.ops[i]), w); };
  switch (x) {
    case X_IGN: case X_FREESTK: if (D.dst >= 0) setRet(s, cv(0)); break;
    case X_STACKSAVE: setRet(s, cv(0)); break;
    case X_MEMCPY: case X_MEMMOVE: { u64 d = C(0), r = C(1), n = C(2); copyMem(s, d, r, n); if (D.dst >= 0) setRet(s, cv(d)); break; }
    case X_MEMSET: { u64 d = C(0), n = C(2, D.I ? 64 : 64); Val v = A(1); if (D.callee && !D.callee->isIntrinsic()) { if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 0xff; }
      if (n) { u64 off; access(s, d, n, true, &off); Obj* o = s.getW((u32)(d >> OBJ_SHIFT)); for (u64 i = 0; i < n; i++) writeObj(o, off + i, 8, v); } if (D.dst >= 0) setRet(s, cv(d)); break; }
    case X_MEMCMP: case X_BCMP: {
      u64 a = C(0), b = C(1), n = C(2); if (!n) { setRet(s, cv(0)); break; }
      u64 ao, bo; Obj *oa = access(s, a, n, false, &ao), *ob = access(s, b, n, false, &bo);
      bool sym = false; for (u64 i = 0; i < n; i++) if ((!oa->s.empty() && oa->s[ao + i]) || (!ob->s.empty() && ob->s[bo + i])) sym = true;
      if (!sym) { int r = memcmp(oa->b.data() + ao, ob->b.data() + bo, n); setRet(s, cv((u32)(r < 0 ? -1 : r > 0 ? 1 : 0))); break; }
      Expr* r = mkConst(32, 0);
      for (u64 i = n; i-- > 0;) { Expr *p = toE(readObj(s, oa, ao + i, 8), 8), *q = toE(readObj(s, ob, bo + i, 8), 8);
        if (x == X_BCMP) r = mkIte(mkEq(p, q), r, mkConst(32, 1)); else r = mkIte(mkEq(p, q), r, mkIte(mkUlt(p, q), mkConst(32, 0xffffffff), mkConst(32, 1))); }
      setRet(s, fromE(r)); break; }
    case X_NEW: case X_NEWARR: case X_MALLOC: { u64 n = C(0); if (n >= (1u << OBJ_SHIFT)) kill(s, "alloc", "allocation larger than 16 MiB"); u32 id = s.alloc((u32)n, K_HEAP); Obj* o = s.getW(id); o->heap = x == X_NEW ? H_NEW : x == X_NEWARR ? H_NEWARR : H_MALLOC; o->site = D.I; s.heapLive++; setRet(s, cv(addrOf(id))); break; }
    case X_CALLOC: { u64 n = C(0), m = C(1); u32 id = s.alloc((u32)(n * m), K_HEAP); Obj* o = s.getW(id); o->heap = H_MALLOC; std::fill(o->b.begin(), o->b.end(), 0); s.heapLive++; setRet(s, cv(addrOf(id))); break; }
    case X_REALLOC: { u64 p = C(0), n = C(1); u32 id = s.alloc((u32)n, K_HEAP); Obj* o = s.getW(id); o->heap = H_MALLOC; s.heapLive++; if (p) { u64 off; Obj* old = access(s, p, 0, false, &off); u64 m = std::min<u64>(old->size, n); copyMem(s, addrOf(id), p, m); s.getW((u32)(p >> OBJ_SHIFT))->freed = true; s.heapLive--; } setRet(s, cv(addrOf(id))); break; }
    case X_DEL: case X_DELARR: case X_FREE: {
      u64 p = C(0); if (!p) { if (D.dst >= 0) setRet(s, cv(0)); break; }
      u64 id = p >> OBJ_SHIFT; Obj* o = id < s.nobj ? s.get((u32)id) : nullptr;
      if (!o || o->kind != K_HEAP || (p & ((1u << OBJ_SHIFT) - 1))) kill(s, "memory", "free of a pointer that is not a heap block");
      if (o->freed) kill(s, "memory", "double free");
      int want = x == X_DEL ? H_NEW : x == X_DELARR ? H_NEWARR : H_MALLOC;
      if (o->heap != want) kill(s, "memory", "mismatched allocation/deallocation");
      o = s.getW((u32)id); o->freed = true; o->b.clear(); o->s.clear(); if (!o->noleak) s.heapLive--; break; }
    case X_ABORT: kill(s, "abort", "abort() reached");
    case X_TERMINATE: kill(s, "abort", "std::terminate reached");
    case X_PUREVIRT: kill(s, "abort", "pure virtual call");
    case X_TRAP: { std::string t = "trap"; if (D.callee && D.callee->getIntrinsicID() == Intrinsic::ubsantrap) t = "undefined behaviour (ubsan check " + std::to_string(D.ops[0].c.c) + ")"; kill(s, "ub", t); }
    case X_ASSERTFAIL: { std::string t; 
        for (size_t i = 0; i < D.ops.size(); i++) { Val v = A(i); if (!v.e && v.c > 0xffffff) { std::string q = readStr(s, v.c); size_t sl = q.rfind('/'); if (sl != std::string::npos && q.find(' ') == std::string::npos) q = q.substr(sl + 1); if (q.size() > 200) q = q.substr(0, 200); t += (t.empty() ? "" : " | ") + q; } }
        kill(s, "assertion", t); }
    case X_SYM: { u64 p = C(0), n = C(1); u64 off; if (n) { access(s, p, n, true, &off); u32 v = newVars(s, (u32)n, "sym"); Obj* o = s.getW((u32)(p >> OBJ_SHIFT)); for (u64 i = 0; i < n; i++) writeObj(o, off + i, 8, Val{0, mkVar(v + i)}); } break; }
    case X_U8: { u32 v = newVars(s, 1, "u8"); setRet(s, Val{0, mkVar(v)}); break; }
    case X_CHOICE: {
      u64 n = C(0); if (n > 256 || n < 1) fatal("vk_choice range");
      u32 v = newVars(s, 1, "choice"); Expr* e = mkVar(v); 
      TT t = {{0, 0, 0, 0}}; for (u64 i = 0; i < n; i++) t.set((int)i); s.dom[v] = t;
      for (u64 i = n; i-- > 1;) { State* o = new State(s); TT u = {{0, 0, 0, 0}}; u.set((int)i); o->dom[v] = u; o->domEp = ++g_domEp; o->model[v] = (u8)i; o->epoch = ++g_epoch; Frame& g = o->fr.back(); if (g.pc->dst >= 0) o->regs[g.base + g.pc->dst] = cv(i); advanceCall(*o); pushState(o); }
      TT u = {{0, 0, 0, 0}}; u.set(0); s.dom[v] = u; s.domEp = ++g_domEp; s.model[v] = 0; s.epoch = ++g_epoch; (void)e; setRet(s, cv(0)); break; }
    case X_ASSUME: { Val c = A(0); if (!c.e) { if (!c.c) { S.pruned++; throw PathEnd(); } break; } std::vector<u8> m; Expr* e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(c.e->w, 0))); if (!mayBeTrue(s, e, &m)) { S.pruned++; throw PathEnd(); } addCons(s, e); if (m != s.model) setModel(s, m); break; }
    case X_ASSERT: { Val c = A(0); if (c.e && c.e->w != 1) c = fromE(mkNot(mkEq(c.e, mkConst(c.e->w, 0)))); else if (!c.e) c.c = c.c != 0; doAssert(s, c, readStr(s, C(1))); break; }
    case X_FAIL: kill(s, "assert", readStr(s, C(0)));
    case X_COVER: { std::string l = readStr(s, C(0)); g_covers.insert(l); break; }
    case X_OBS: s.obs.push_back(A(0)); break;
    case X_PRINT: { std::string l = readStr(s, C(0)); Val v = A(1); if (optVerbose) { fprintf(stderr, "print %s ", l.c_str()); if (v.e) printExpr(stderr, v.e, 20); else fprintf(stderr, "%llu", (unsigned long long)v.c); fprintf(stderr, "\n"); } break; }
    case X_PARAM: { std::string n = readStr(s, C(0)); auto it = optParams.find(n); if (it == optParams.end()) fatal("missing parameter " + n); setRet(s, cv(it->second)); break; }
    case X_CONCRETE: { Val v = A(0); setRet(s, cv(concretize(s, v, 64))); break; }
    case X_ISSYM: setRet(s, cv(A(0).e != nullptr)); break;
    case X_LEAKOK: s.heapBase = s.heapLive; break;
    case X_CXA_ALLOC: setRet(s, cv(newExc(s, C(0)))); break;
    case X_CXA_FREE: break;
    case X_CXA_THROW: { u64 a = C(0), t = C(1), d = C(2); s.excs.push_back({a, t, d, 0}); unwindExc(s, a); return; }
    case X_CXA_BEGIN: { u64 a = C(0); int idx = -1; for (size_t i = 0; i < s.excs.size(); i++) if (s.excs[i].addr == a) idx = (int)i; s.caught.push_back(idx); setRet(s, cv(a)); break; }
    case X_CXA_END: if (!s.caught.empty()) s.caught.pop_back(); break;
    case X_CXA_RETHROW: { if (s.caught.empty()) kill(s, "abort", "rethrow without exception"); u64 a = s.excs[s.caught.back()].addr; s.caught.pop_back(); unwindExc(s, a); return; }
    case X_GUARD_ACQ: { u64 p = C(0); Val v = loadVal(s, cv(p), 8); setRet(s, cv(v.c ? 0 : 1)); break; }
    case X_GUARD_REL: { u64 p = C(0); storeVal(s, p, 8, cv(1)); break; }
    case X_ATEXIT: if (D.dst >= 0) setRet(s, cv(0)); break;
    case X_THROWSTD: { StringRef n = D.callee->getName(); 
      const char* ti = n.contains("length_error") ? "_ZTISt12length_error" : n.contains("out_of_range") ? "_ZTISt12out_of_range" : n.contains("bad_alloc") || n.contains("bad_array") ? "_ZTISt9bad_alloc" : n.contains("logic_error") ? "_ZTISt11logic_error" : n.contains("bad_cast") ? "_ZTISt8bad_cast" : n.contains("bad_variant") ? "_ZTISt18bad_variant_access" : n.contains("bad_optional") ? "_ZTISt19bad_optional_access" : n.contains("regex_error") ? "_ZTISt11regex_error" : "_ZTISt13runtime_error";
      throwStd(s, ti); return; }
    case X_ERRNO: { static u64 a = 0; if (!a) a = optParams["__errno_addr"]; setRet(s, cv(a)); break; }
    case X_CTLZ: case X_CTTZ: case X_CTPOP: case X_BSWAP: case X_BITREV: case X_ABS: case X_FABS: case X_EXPECT: case X_LAUNDER: case X_TLSADDR: case X_ISFPCLASS: {
      Val v = A(0); int w = D.w2;
      if (x == X_EXPECT || x == X_LAUNDER || x == X_TLSADDR) { setRet(s, v); break; }
      Expr* e = toE(v, w); Expr* r;
      if (x == X_CTLZ) { r = mkConst(w, w); for (int i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w, w - 1 - i), r); }
      else if (x == X_CTTZ) { r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(w, i), r); }
      else if (x == X_CTPOP) { r = mkConst(w, 0); for (int i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(e, i, 1), w)); }
      else if (x == X_BSWAP) { r = mkExtract(e, 0, 8); for (int i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(e, i, 8)); }
      else if (x == X_BITREV) { r = mkExtract(e, 0, 1); for (int i = 1; i < w; i++) r = mkConcat(r, mkExtract(e, i, 1)); }
      else if (x == X_ABS) r = mkIte(mkSlt(e, mkConst(w, 0)), mkSub(mkConst(w, 0), e), e);
      else if (x == X_FABS) r = mkAnd(e, mkConst(w, maskw(w - 1)));
      else { // is.fpclass
        u64 mask = A(1).c; if (w > 64) { if (!isC(e)) fatal("symbolic fp80 class"); }
        int eb = w == 32 ? 8 : w == 64 ? 11 : 15, mb = w == 32 ? 23 : w == 64 ? 52 : 64;
        if (w > 64) { long double q = toLD(fromE(e), 80); bool neg = std::signbit(q); u64 c = std::isnan(q) ? 2 : std::isinf(q) ? (neg ? 4 : 512) : q == 0 ? (neg ? 32 : 64) : std::isnormal(q) ? (neg ? 8 : 256) : (neg ? 16 : 128); setRet(s, cv((c & mask) != 0)); break; }
        Expr* sg = mkExtract(e, w - 1, 1); Expr* ex = mkExtract(e, mb, eb); Expr* ma = mkExtract(e, 0, mb);
        Expr *exm = mkEq(ex, mkConst(eb, maskw(eb))), *ex0 = mkEq(ex, mkConst(eb, 0)), *ma0 = mkEq(ma, mkConst(mb, 0)); Expr* q = mkExtract(ma, mb - 1, 1);
        r = mkConst(1, 0); auto add = [&](u64 bit, Expr* c) { if (mask & bit) r = mkOr(r, c); };
        Expr* ns = mkNot(sg);
        add(1, mkAnd(exm, mkAnd(mkNot(ma0), mkNot(q)))); add(2, mkAnd(exm, q)); add(4, mkAnd(sg, mkAnd(exm, ma0))); add(512, mkAnd(ns, mkAnd(exm, ma0)));
        Expr* norm = mkAnd(mkNot(exm), mkNot(ex0)); add(8, mkAnd(sg, norm)); add(256, mkAnd(ns, norm)); Expr* sub = mkAnd(ex0, mkNot(ma0)); add(16, mkAnd(sg, sub)); add(128, mkAnd(ns, sub)); Expr* z = mkAnd(ex0, ma0); add(32, mkAnd(sg, z)); add(64, mkAnd(ns, z));
      }
      setRet(s, fromE(r)); break; }
    case X_COPYSIGN: { int w = D.w2; Expr *a = toE(A(0), w), *b = toE(A(1), w); setRet(s, fromE(mkConcat(mkExtract(b, w - 1, 1), mkExtract(a, 0, w - 1)))); break; }
    case X_FMULADD: { Val a = A(0), b = A(1), c = A(2); if (!isConcrete(a) || !isConcrete(b) || !isConcrete(c)) fatal("symbolic fma"); setRet(s, fromLD(toLD(a, D.w) * toLD(b, D.w) + toLD(c, D.w), D.w)); break; }
    case X_UMULO: case X_SMULO: case X_UADDO: case X_SADDO: case X_USUBO: case X_SSUBO: {
      int w = D.w2; if (2 * w > 128 && (x == X_UMULO || x == X_SMULO) && w > 64) fatal("wide mulo");
      Expr *a = toE(A(0), w), *b = toE(A(1), w); bool sg = x == X_SMULO || x == X_SADDO || x == X_SSUBO;
      Expr *r, *ov;
      if (x == X_UADDO) { r = mkAdd(a, b); ov = mkUlt(r, a); }
      else if (x == X_USUBO) { r = mkSub(a, b); ov = mkUlt(a, b); }
      else {
        int W = (x == X_UMULO || x == X_SMULO) ? 2 * w : w + 1;
        Expr *xa = sg ? mkSext(a, W) : mkZext(a, W), *xb = sg ? mkSext(b, W) : mkZext(b, W);
        Expr* full = (x == X_UMULO || x == X_SMULO) ? mkMul(xa, xb) : x == X_SADDO ? mkAdd(xa, xb) : mkSub(xa, xb);
        r = mkExtract(full, 0, w);
        if (x == X_UMULO && isC(b)) { ov = b->c == 0 ? mkConst(1, 0) : mkUlt(mkConst(w, maskw(w) / b->c), a); r = mkMul(a, b); }
        else if (x == X_UMULO && isC(a)) { ov = a->c == 0 ? mkConst(1, 0) : mkUlt(mkConst(w, maskw(w) / a->c), b); r = mkMul(a, b); }
        else ov = mkNot(mkEq(full, sg ? mkSext(r, W) : mkZext(r, W)));
      }
      s.regs[f.base + D.dst] = fromE(r); s.regs[f.base + D.dst + 1] = fromE(ov); break; }
    case X_UADDSAT: case X_USUBSAT: { int w = D.w2; Expr *a = toE(A(0), w), *b = toE(A(1), w); Expr* r = x == X_UADDSAT ? mkIte(mkUlt(mkAdd(a, b), a), mkConst(w, maskw(w)), mkAdd(a, b)) : mkIte(mkUlt(a, b), mkConst(w, 0), mkSub(a, b)); setRet(s, fromE(r)); break; }
    case X_UMIN: case X_UMAX: case X_SMIN: case X_SMAX: { int w = D.w2; Expr *a = toE(A(0), w), *b = toE(A(1), w); Expr* lt = (x == X_UMIN || x == X_UMAX) ? mkUlt(a, b) : mkSlt(a, b); setRet(s, fromE((x == X_UMIN || x == X_SMIN) ? mkIte(lt, a, b) : mkIte(lt, b, a))); break; }
    case X_FSHL: case X_FSHR: { int w = D.w2; Expr *a = toE(A(0), w), *b = toE(A(1), w); u64 k = C(2, w) % w; Expr* r = x == X_FSHL ? (k ? mkOr(mkShl(a, mkConst(w, k)), mkLshr(b, mkConst(w, w - k))) : a) : (k ? mkOr(mkShl(a, mkConst(w, w - k)), mkLshr(b, mkConst(w, k))) : b); setRet(s, fromE(r)); break; }
    case X_LLASSUME: { Val c = A(0); if (!c.e) { if (!c.c) kill(s, "ub", "violated llvm.assume"); break; } std::vector<u8> m; if (mayBeTrue(s, mkNot(c.e), &m)) { setModel(s, m); kill(s, "ub", "violated llvm.assume"); } break; }
    case X_ISCONST: setRet(s, cv(0)); break;
    case X_OBJSIZE: setRet(s, cv(A(1).c ? 0 : ~0ull)); break;
    case X_TYPEID: setRet(s, cv((C(0) >> OBJ_SHIFT) & 0xffffffff)); break;
    case X_PTRMASK: setRet(s, binop(D_AND, 64, A(0), A(1))); break;
    default: {
      std::string n = D.callee ? D.callee->getName().str() : "asm";
      fatal("unsupported external: " + n + " (" + demangle(n) + ") in " + where(s)); }
  }
  advanceCall(s);
}

static void execCall(State& s) {
  Frame& f = s.fr.back(); DInst& D = *f.pc;
  if (D.ext >= 0) { execExt(s, D.ext); return; }
  if (D.ext == -2) execExt(s, X_NONE);
  DFunc* d = D.dcallee; size_t nargs = D.ops.size();
  if (!d) {
    nargs--;
    u64 a = concretize(s, getOp(s, f.base, D.ops.back()), 64);
    auto it = g_faddr.find(a);
    if (it == g_faddr.end()) kill(s, "memory", "indirect call to a non-function");
    Function* F = it->second;
    int x = F->isIntrinsic() ? -1 : extByName(F->getName());
    if (x >= 0) { D.callee = F; execExt(s, x); return; }
    if (F->isDeclaration()) fatal("unsupported external (indirect): " + F->getName().str() + " in " + where(s));
    d = getDFunc(F);
  }
  std::vector<Val> args(nargs);
  for (size_t i = 0; i < nargs; i++) args[i] = getOp(s, f.base, D.ops[i]);
  // byval copies
  auto* cb = cast<CallBase>(D.I); size_t k = 0;
  std::vector<u32> tmp;
  for (unsigned i = 0; i < cb->arg_size(); i++) { if (cb->isByValArgument(i)) { u64 sz = g_dl->getTypeAllocSize(cb->getParamByValType(i)); u64 src = concretize(s, args[k], 64); u32 id = s.alloc((u32)sz, K_STACK); copyMem(s, addrOf(id), src, sz); args[k] = cv(addrOf(id)); tmp.push_back(id); } k += D.argN[i]; }
  pushFrame(s, d, args);
  for (u32 id : tmp) s.fr.back().allocas.push_back(id);
}

static void finishPath(State& s) {
  S.paths++; S.maxpath = std::max(S.maxpath, s.ninstr);
  if (optLeak && s.heapLive > s.heapBase) {
    std::string site;
    for (u32 i = 1; i < s.nobj; i++) { Obj* o = s.get(i); if (o && o->kind == K_HEAP && !o->freed && o->site) { site = demangle(cast<Instruction>(o->site)->getFunction()->getName().str()); } }
    violation(s, "leak", "heap block not released at end of run", s.model);
  }
  if ((int)S.tests < optMaxTests || (S.paths & (S.paths - 1)) == 0) {
    S.tests++;
    std::string l = "T\t" + hexModel(s.model, s.nvars) + "\t";
    for (size_t i = 0; i < s.obs.size(); i++) { Val v = s.obs[i]; u64 x = v.e ? (u64)evalExpr(v.e, s.model.data(), s.epoch) : v.c; char b[32]; snprintf(b, 32, "%s%llx", i ? "," : "", (unsigned long long)x); l += b; }
    l += "\n"; (void)!write(g_outfd, l.data(), l.size());
  }
}

static void maybeSplit();
static void giveToken() { if (g_haveToken && g_tokw >= 0) { char c = '+'; (void)!write(g_tokw, &c, 1); g_haveToken = false; } }

static bool isConstObj(State& s, const Val& p, Expr* x) { if (p.e) return false; u64 id = p.c >> OBJ_SHIFT; Obj* o = id < s.nobj && id ? s.get((u32)id) : nullptr; return o && (o->ro || (o->s.empty() && x->sv >= 0)); }
static void run(State& s) {
  u64 check = 0;
  while (true) {
    Frame& f = s.fr.back(); DInst& D = *f.pc; u32 base = f.base;
    if (++s.ninstr > optMaxInstr) { kill(s, "nontermination", "instruction bound " + std::to_string(optMaxInstr) + " exceeded on one path"); }
    S.instr++;
    if ((++check & 0x3fff) == 0) { if (g_sh->stop) throw PathEnd(); if (now() - g_t0 > optTimeout) fatal("time budget exhausted"); }
    switch (D.op) {
      case D_UDIV: case D_SDIV: case D_UREM: case D_SREM:
        for (u32 i = 0; i < D.n; i++) {
          Val b = getOp(s, base, D.ops[D.n + i]);
          if (!b.e) { if (b.c == 0) kill(s, "ub", "division by zero"); }
          else { std::vector<u8> m; Expr* z = mkEq(b.e, mkConst(D.w, 0)); if (mayBeTrue(s, z, &m)) { setModel(s, m); kill(s, "ub", "division by zero"); } }
        }
        // fallthrough
      case D_ADD: case D_SUB: case D_MUL: case D_AND: case D_OR: case D_XOR: case D_SHL: case D_LSHR: case D_ASHR:
        for (u32 i = 0; i < D.n; i++) s.regs[base + D.dst + i] = binop(D.op, D.w, getOpR(s, base, D.ops[i]), getOpR(s, base, D.ops[D.n + i]));
        f.pc++; break;
      case D_ICMP: for (u32 i = 0; i < D.n; i++) s.regs[base + D.dst + i] = icmp(D.sub, D.w2, getOpR(s, base, D.ops[i]), getOpR(s, base, D.ops[D.n + i])); f.pc++; break;
      case D_FCMP: for (u32 i = 0; i < D.n; i++) s.regs[base + D.dst + i] = fcmp(s, D.sub, D.w2, getOp(s, base, D.ops[i]), getOp(s, base, D.ops[D.n + i])); f.pc++; break;
      case D_FBIN: { Val a = getOp(s, base, D.ops[0]), b = getOp(s, base, D.ops[1]); if (!isConcrete(a) || !isConcrete(b) || D.n != 1) fatal("symbolic FP arithmetic in " + where(s));
        long double x = toLD(a, D.w), y = toLD(b, D.w), r;
        if (D.w == 64) { double p = (double)x, q = (double)y; switch (D.sub) { case Instruction::FAdd: r = p + q; break; case Instruction::FSub: r = p - q; break; case Instruction::FMul: r = p * q; break; case Instruction::FDiv: r = p / q; break; default: r = fmod(p, q); } }
        else if (D.w == 32) { float p = (float)x, q = (float)y; switch (D.sub) { case Instruction::FAdd: r = p + q; break; case Instruction::FSub: r = p - q; break; case Instruction::FMul: r = p * q; break; case Instruction::FDiv: r = p / q; break; default: r = fmodf(p, q); } }
        else switch (D.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodl(x, y); }
        s.regs[base + D.dst] = fromLD(r, D.w); f.pc++; break; }
      case D_FNEG: { Val a = getOp(s, base, D.ops[0]); s.regs[base + D.dst] = fromE(mkXor(toE(a, D.w), mkConst(D.w, (u128)1 << (D.w - 1)))); f.pc++; break; }
      case D_FCAST: { Val a = getOp(s, base, D.ops[0]); if (!isConcrete(a)) fatal("symbolic FP cast in " + where(s));
        Val r;
        switch (D.sub) { case Instruction::FPToUI: r = cv(mw((u64)toLD(a, D.w2), D.w)); break; case Instruction::FPToSI: r = cv(mw((u64)(int64_t)toLD(a, D.w2), D.w)); break; case Instruction::UIToFP: r = fromLD((long double)a.c, D.w); break; case Instruction::SIToFP: r = fromLD((long double)(int64_t)sx(a.c, D.w2), D.w); break; default: r = fromLD(toLD(a, D.w2), D.w); }
        s.regs[base + D.dst] = r; f.pc++; break; }
      case D_ZEXT: for (u32 i = 0; i < D.n; i++) { Val a = getOpR(s, base, D.ops[i]); s.regs[base + D.dst + i] = a.e ? fromE(mkZext(a.e, D.w)) : D.w > 64 ? Val{0, mkConst(D.w, a.c)} : a; } f.pc++; break;
      case D_SEXT: for (u32 i = 0; i < D.n; i++) { Val a = getOpR(s, base, D.ops[i]); if (a.e) s.regs[base + D.dst + i] = fromE(mkSext(a.e, D.w)); else { i128 v = sx(a.c, D.w2); s.regs[base + D.dst + i] = D.w > 64 ? Val{0, mkConst(D.w, (u128)v)} : cv(mw((u64)v, D.w)); } } f.pc++; break;
      case D_TRUNC: for (u32 i = 0; i < D.n; i++) { Val a = getOpR(s, base, D.ops[i]); s.regs[base + D.dst + i] = a.e ? fromE(mkExtract(a.e, 0, D.w)) : cv(mw(a.c, D.w)); } f.pc++; break;
      case D_COPY: {
        if (D.n == 1) s.regs[base + D.dst] = getOp(s, base, D.ops[0]);
        else { std::vector<Val> t(D.n); for (u32 i = 0; i < D.n; i++) t[i] = getOp(s, base, D.ops[i]); for (u32 i = 0; i < D.n; i++) s.regs[base + D.dst + i] = t[i]; }
        f.pc++; break; }
      case D_SELECT: {
        Val c = getOpR(s, base, D.ops[0]);
        for (u32 i = 0; i < D.n; i++) {
          Val a = getOp(s, base, D.ops[1 + i]), b = getOp(s, base, D.ops[1 + D.n + i]);
          Val r;
          if (!c.e) r = c.c ? a : b; else { int w = D.leaves[i].bits; r = fromE(mkIte(c.e, toE(a, w), toE(b, w))); }
          s.regs[base + D.dst + i] = r;
        }
        f.pc++; break; }
      case D_LOAD: {
        Val p = getOp(s, base, D.ops[0]);
        if (D.n == 1) { Val r = loadVal(s, p, D.leaves[0].bits); s.regs[base + D.dst] = r; }
        else { if (p.e) p = cv(concretize(s, p, 64)); for (u32 i = 0; i < D.n; i++) s.regs[base + D.dst + i] = loadVal(s, cv(p.c + D.leaves[i].off), D.leaves[i].bits); }
        f.pc++; break; }
      case D_STORE: {
        Val p = getOp(s, base, D.ops[0]); u64 a = concretize(s, p, 64);
        for (size_t i = 0; i < D.leaves.size(); i++) storeVal(s, a + D.leaves[i].off, D.leaves[i].bits, getOp(s, base, D.ops[1 + i]));
        f.pc++; break; }
      case D_GEP: {
        Val p = getOp(s, base, D.ops[0]);
        if (D.imm) p = binop(D_ADD, 64, p, cv(D.imm));
        for (size_t i = 0; i < D.scales.size(); i++) {
          Val x = getOpR(s, base, D.ops[1 + i]); u32 w = D.scales[i].second;
          if (x.e && !isConstObj(s, p, x.e)) x = cv(concretize(s, x, w));
          if (w < 64) { if (x.e) x = fromE(mkSext(x.e, 64)); else x.c = (u64)(int64_t)sx(x.c, w); }
          if (D.scales[i].first != 1) x = binop(D_MUL, 64, x, cv(D.scales[i].first));
          p = binop(D_ADD, 64, p, x);
        }
        s.regs[base + D.dst] = p; f.pc++; break; }
      case D_ALLOCA: { u64 n = concretize(s, getOp(s, base, D.ops[0]), 64) * D.imm; u32 id = s.alloc((u32)n, K_STACK); f.allocas.push_back(id); s.regs[base + D.dst] = cv(addrOf(id)); f.pc++; break; }
      case D_BR: takeEdge(s, f, D.e0); break;
      case D_CBR: {
        Val c = getOpR(s, base, D.ops[0]);
        bool b;
        if (!c.e) b = c.c; else b = branchOn(s, c.e, [&](State& o) { takeEdge(o, o.fr.back(), D.e0); }, [&](State& o) { takeEdge(o, o.fr.back(), D.e1); });
        takeEdge(s, f, b ? D.e0 : D.e1); break; }
      case D_SWITCH: {
        Val c = getOp(s, base, D.ops[0]);
        if (!c.e) { Edge* e = D.e0; for (auto& k : D.cases) if (k.first == c.c) { e = k.second; break; } takeEdge(s, f, e); break; }
        // group conditions by target
        std::vector<std::pair<Edge*, Expr*>> g; Expr* any = mkConst(1, 0);
        for (auto& k : D.cases) { Expr* q = mkEq(c.e, mkConst(D.w2, k.first)); any = mkOr(any, q); if (k.second == D.e0) continue; bool fnd = false; for (auto& y : g) if (y.first == k.second) { y.second = mkOr(y.second, q); fnd = true; } if (!fnd) g.push_back({k.second, q}); }
        Expr* deflt = mkConst(1, 1); for (auto& y : g) deflt = mkAnd(deflt, mkNot(y.second)); g.push_back({D.e0, deflt});
        Edge* mine = nullptr; Expr* minec = nullptr; std::vector<std::pair<State*, Edge*>> others;
        for (auto& y : g) {
          if (!mine && evalExpr(y.second, s.model.data(), s.epoch)) { mine = y.first; minec = y.second; continue; }
          std::vector<u8> m;
          if (mayBeTrue(s, y.second, &m)) { State* o = new State(s); addCons(*o, y.second); setModel(*o, m); takeEdge(*o, o->fr.back(), y.first); pushState(o); }
        }
        if (!mine) fatal("switch: no target");
        addCons(s, minec); takeEdge(s, f, mine); break; }
      case D_RET: {
        std::vector<Val> r; for (auto& o : D.ops) r.push_back(getOp(s, base, o));
        if (s.fr.size() == 1) { popFrame(s); return; }
        popFrame(s);
        Frame& g = s.fr.back();
        if (g.pc->dst >= 0) for (size_t i = 0; i < r.size(); i++) s.regs[g.base + g.pc->dst + i] = r[i];
        advanceCall(s); break; }
      case D_CALL: case D_INVOKE: execCall(s); break;
      case D_UNREACH: kill(s, "ub", "unreachable code reached");
      case D_LPAD: s.regs[base + D.dst] = cv(s.pendingExc); s.regs[base + D.dst + 1] = cv(s.pendingSel); f.pc++; break;
      case D_RESUME: { u64 a = getOp(s, base, D.ops[0]).c; if (s.fr.size() == 1) kill(s, "exception", "uncaught exception"); popFrame(s); unwindExc(s, a); break; }
      case D_NOP: f.pc++; break;
      case D_RMW: { u64 a = concretize(s, getOp(s, base, D.ops[0]), 64); Val old = loadVal(s, cv(a), D.w), v = getOp(s, base, D.ops[1]), n;
        switch (D.sub) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(D_ADD, D.w, old, v); break; case AtomicRMWInst::Sub: n = binop(D_SUB, D.w, old, v); break; case AtomicRMWInst::And: n = binop(D_AND, D.w, old, v); break; case AtomicRMWInst::Or: n = binop(D_OR, D.w, old, v); break; default: fatal("atomicrmw"); }
        storeVal(s, a, D.w, n); s.regs[base + D.dst] = old; f.pc++; break; }
      case D_CMPXCHG: { u64 a = concretize(s, getOp(s, base, D.ops[0]), 64); Val old = loadVal(s, cv(a), D.w), ex = getOp(s, base, D.ops[1]), nv = getOp(s, base, D.ops[2]); if (old.e || ex.e) fatal("symbolic cmpxchg"); bool ok = old.c == ex.c; if (ok) storeVal(s, a, D.w, nv); s.regs[base + D.dst] = old; s.regs[base + D.dst + 1] = cv(ok); f.pc++; break; }
      default: { std::string x; raw_string_ostream os(x); D.I->print(os); fatal("unsupported instruction:" + os.str() + " in " + where(s)); }
    }
  }
}

static void writeStats() {
  std::string l = "S\t{";
  char b[4096];
  snprintf(b, sizeof b, "\"paths\":%llu,\"forks\":%llu,\"instr\":%llu,\"z3\":%llu,\"z3lia\":%llu,\"z3sat\":%llu,\"z3unsat\":%llu,\"domq\":%llu,\"rngq\":%llu,\"lsq\":%llu,\"linq\":%llu,\"cacheq\":%llu,\"modelq\":%llu,\"z3time\":%.4f,\"maxq\":%.4f,\"asserts\":%llu,\"assertConst\":%llu,\"assertDom\":%llu,\"assertZ3\":%llu,\"viol\":%llu,\"pruned\":%llu,\"maxpath\":%llu,\"exprs\":%llu,\"killed\":%llu}",
    (unsigned long long)S.paths, (unsigned long long)S.forks, (unsigned long long)S.instr, (unsigned long long)S.z3, (unsigned long long)S.z3lia, (unsigned long long)S.z3sat, (unsigned long long)S.z3unsat, (unsigned long long)S.domq, (unsigned long long)S.rngq, (unsigned long long)S.lsq, (unsigned long long)S.linq, (unsigned long long)S.cacheq, (unsigned long long)S.modelq, S.z3time, S.maxq, (unsigned long long)S.asserts, (unsigned long long)S.assertConst, (unsigned long long)S.assertDom, (unsigned long long)S.assertZ3, (unsigned long long)S.viol, (unsigned long long)S.pruned, (unsigned long long)S.maxpath, (unsigned long long)g_nexprs, (unsigned long long)S.killed);
  l += b; l += "\n";
  for (auto& c : g_covers) l += "C\t" + c + "\n";
  for (auto& p : g_dfuncs) if (p.second->used) { l += "F\t" + std::string(p.first->getName()) + "\n"; }
  (void)!write(g_outfd, l.data(), l.size());
}

static void maybeSplit() {
  if (g_tokr < 0 || g_work.size() < 2) return;
  char c;
  if (read(g_tokr, &c, 1) != 1) return;
  pid_t p = ::fork();
  if (p < 0) { (void)!write(g_tokw, &c, 1); return; }
  std::vector<State*> mine, theirs;
  // alternate so both halves contain old (large) subtrees
  for (size_t i = 0; i < g_work.size(); i++) (i % 2 ? mine : theirs).push_back(g_work[i]);
  if (p == 0) { S = Stats(); g_haveToken = true; g_children.clear(); g_work = theirs; for (auto& d : g_dfuncs) d.second->used = false; optSeed = optSeed * 31 + getpid(); }
  else { g_children.push_back(p); g_work = mine; }
}

int main(int argc, char** argv) {
  g_t0 = now();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing arg\n"); exit(2); } return std::string(argv[++i]); };
    if (a == "-e") optEntry = nx(); else if (a == "-o") optOut = nx();
    else if (a == "-p") { std::string p = nx(); size_t q = p.find('='); optParams[p.substr(0, q)] = strtoull(p.c_str() + q + 1, nullptr, 0); }
    else if (a == "-t") optTimeout = atof(nx().c_str()); else if (a == "-m") optMaxInstr = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "-n") optMaxTests = atoi(nx().c_str()); else if (a == "-s") optSeed = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "-v") optVerbose++; else if (a == "--check-simp") optCheckSimp = 1; else if (a == "-k") optStopFirst = 0; else if (a == "--no-leak") optLeak = 0; else if (a == "-q") optQueryTimeout = atoi(nx().c_str());
    else if (a == "--tokens") { std::string p = nx(); sscanf(p.c_str(), "%d,%d", &g_tokr, &g_tokw); }
    else optBC = a;
  }
  signal(SIGPIPE, SIG_IGN);
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (!optOut.empty()) { g_outfd = open(optOut.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); if (g_outfd < 0) { perror("out"); return 3; } }
  struct rlimit rl = {1ull << 30, 1ull << 30}; setrlimit(RLIMIT_STACK, &rl);
  LLVMContext ctx; g_ctx = &ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(optBC, err, ctx);
  if (!mod) { err.print("symex", errs()); return 3; }
  g_mod = mod.get(); g_dl = &g_mod->getDataLayout();
  initZ3();
  // lay out globals
  State* s0 = new State; g_init = s0;
  for (auto& g : g_mod->globals()) {
    Type* t = g.getValueType(); u64 sz = t->isSized() ? g_dl->getTypeAllocSize(t).getFixedValue() : 0;
    if (!g.hasInitializer() && sz < 64) sz = 64;
    u32 id = s0->alloc((u32)sz, K_GLOBAL); g_gaddr[&g] = addrOf(id); g_gvaddr[addrOf(id)] = &g;
  }
  for (auto& F : *g_mod) { u32 id = s0->alloc(1, K_FUNC); g_gaddr[&F] = addrOf(id); g_faddr[addrOf(id)] = &F; }
  { u32 id = s0->alloc(16, K_GLOBAL); optParams["__errno_addr"] = addrOf(id); }
  for (auto& g : g_mod->globals()) if (g.hasInitializer()) { u32 id = (u32)(g_gaddr[&g] >> OBJ_SHIFT); writeConst(*s0, id, 0, g.getInitializer()); if (g.isConstant()) s0->getW(id)->ro = true; }
  Function* entry = g_mod->getFunction(optEntry);
  if (!entry || entry->isDeclaration()) fatal("no entry function " + optEntry);
  // global constructors
  if (auto* gc = g_mod->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function*>> fs;
    for (auto& o : arr->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : fs) { try { pushFrame(*s0, getDFunc(p.second), {}); run(*s0); } catch (PathEnd&) { fatal("global constructor failed"); } }
  }
  s0->heapBase = s0->heapLive; s0->ninstr = 0; S.instr = 0;
  pushFrame(*s0, getDFunc(entry), {});
  s0->epoch = ++g_epoch;
  g_work.push_back(s0);
  while (!g_work.empty()) {
    if (g_sh->stop) break;
    maybeSplit();
    if (g_work.empty()) break;
    State* s = g_work.back(); g_work.pop_back();
    try { run(*s); finishPath(*s); } catch (PathEnd&) { S.killed++; }
    delete s;
    if (now() - g_t0 > optTimeout) fatal("time budget exhausted");
  }
  writeStats();
  giveToken();
  int rc = 0;
  for (pid_t p : g_children) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { rc = 3; if (!WIFEXITED(st)) { dprintf(g_outfd, "E\tworker died (signal %d)\n", WTERMSIG(st)); g_sh->stop = 1; g_sh->err = 1; } } }
  if (g_sh->err) rc = 3;
  _exit(rc);
}
