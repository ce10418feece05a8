// apexsym: path-exploring symbolic executor for LLVM 18 bitcode with a z3 back end.
// See /verif/DESIGN.md for the semantics, bounds and trusted base.
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
using namespace llvm;
typedef uint64_t u64;
typedef uint32_t u32;

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- options
static struct Opt {
  std::string file, entry = "harness";
  double timeS = 60;
  u64 maxInstr = 20000000;
  int workers = 1;
  int maxViol = 8;
  int samples = 24;
  u64 maxPaths = ~0ULL;
  int maxDepth = 600;
  std::string param;
  u64 seed = 1;
  bool verbose = false;
  bool concrete = false; std::string concreteHex;
} opt;

static ExprPool *pool;

struct Val { u64 c; const Expr *e; };
static inline Val CV(u64 c) { return Val{c, nullptr}; }
static inline Val mkV(const Expr *e) { if (e->op == E_CONST) return CV(e->c); return Val{0, e}; }
static inline const Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : pool->mkConst(v.c, w); }

// ---------------------------------------------------------------- code
typedef int32_t Opnd; // >=0 register, <0 constant ~idx
enum IOp : uint16_t {
  I_BIN, I_CMP, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH, I_RET,
  I_CALL, I_UNREACHABLE, I_COPY, I_FBIN, I_FCMP, I_FCAST, I_INSERT, I_UNSUP
};
struct Inst {
  uint16_t op; uint8_t sub; uint8_t w, w2; uint8_t n; // n: slots
  int32_t dst;
  Opnd a, b, c;
  u32 aux;
  const Instruction *I;
};
struct GepIdx { Opnd o; int64_t scale; uint8_t w; };
struct GepInfo { int64_t off; std::vector<GepIdx> idx; };
struct Edge { u32 target; std::vector<std::pair<int32_t, Opnd>> copies; };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; };
struct Fn;
struct CallInfo {
  Fn *callee = nullptr; Opnd fp = 0; bool indirect = false;
  std::vector<Opnd> args; std::vector<uint8_t> argw; std::vector<int> argFirst; std::vector<int> byvalSize;
  int nslots = 0; unsigned retw = 0;
  Intrinsic::ID iid = Intrinsic::not_intrinsic;
  unsigned nfixedSlots = 0;
};
struct Fn {
  const Function *F; std::string name; bool decoded = false;
  u32 nregs = 0, nargs = 0; bool vararg = false;
  std::vector<Inst> code; std::vector<Val> consts; std::vector<GepInfo> geps; std::vector<Edge> edges;
  std::vector<SwitchInfo> switches; std::vector<CallInfo> calls;
  std::vector<uint8_t> argw; std::vector<int> byval;
  int builtin = 0; u64 addr = 0; u64 calls_n = 0; bool fromRepo = false;
};

// ---------------------------------------------------------------- memory
enum { OF_CONST = 1, OF_HEAP = 2, OF_STACK = 4, OF_GLOBAL = 8, OF_FUNC = 16, OF_FREED = 32 };
struct Obj {
  int rc; u32 size; uint8_t flags; uint8_t *data; const Expr **sym;
  Obj(u32 n, uint8_t f) : rc(1), size(n), flags(f), data((uint8_t *)malloc(n ? n : 1)), sym(nullptr) {}
  ~Obj() { free(data); free(sym); }
  Obj *clone() const { Obj *o = new Obj(size, flags); memcpy(o->data, data, size); if (sym) { o->sym = (const Expr **)malloc(sizeof(void *) * (size ? size : 1)); memcpy(o->sym, sym, sizeof(void *) * size); } return o; }
};
static inline void objRef(Obj *o) { if (o) o->rc++; }
static inline void objUnref(Obj *o) { if (o && --o->rc == 0) delete o; }
static Obj *FREED_TOMB;
static const int CH = 64;
struct Chunk { int rc = 1; Obj *o[CH]; Chunk() { memset(o, 0, sizeof o); } ~Chunk() { for (auto *x : o) objUnref(x); } };
struct Mem {
  std::vector<Chunk *> t; u32 next = 1;
  Mem() {}
  Mem(const Mem &m) : t(m.t), next(m.next) { for (auto *c : t) c->rc++; }
  ~Mem() { for (auto *c : t) if (--c->rc == 0) delete c; }
  Obj *get(u64 id) const { u64 ci = id / CH; if (ci >= t.size()) return nullptr; return t[ci]->o[id % CH]; }
  void set(u64 id, Obj *o) { // takes ownership
    u64 ci = id / CH;
    while (ci >= t.size()) t.push_back(new Chunk());
    Chunk *&c = t[ci];
    if (c->rc > 1) { Chunk *n = new Chunk(); for (int i = 0; i < CH; i++) { n->o[i] = c->o[i]; objRef(n->o[i]); } c->rc--; c = n; }
    objUnref(c->o[id % CH]); c->o[id % CH] = o;
  }
  Obj *writable(u64 id) {
    Chunk *c = t[id / CH]; Obj *o = c->o[id % CH];
    if (c->rc == 1 && o->rc == 1) return o;
    Obj *n = o->clone(); set(id, n); return n;
  }
};
static const u64 OFF0 = 0x100000; // slack below an object's start inside its address window
static const int WIN = 28;
static inline u64 addrOf(u64 id) { return (id << WIN) + OFF0; }

struct Dom { u64 b[4]; };
static inline int domCount(const Dom &d) { return __builtin_popcountll(d.b[0]) + __builtin_popcountll(d.b[1]) + __builtin_popcountll(d.b[2]) + __builtin_popcountll(d.b[3]); }
static inline bool domHas(const Dom &d, int v) { return d.b[v >> 6] >> (v & 63) & 1; }
static inline int domFirst(const Dom &d) { for (int i = 0; i < 4; i++) if (d.b[i]) return i * 64 + __builtin_ctzll(d.b[i]); return -1; }

struct Frame {
  int rc = 1; Fn *f; u32 pc = 0; std::vector<Val> r; int32_t retReg = -1; int retSlots = 0; std::vector<u32> allocas; u64 va = 0;
};
struct ListNode { std::shared_ptr<ListNode> next; const Expr *e; };
struct EmitRec { std::string name; std::vector<Val> bytes; };
struct EmitNode { std::shared_ptr<EmitNode> next; EmitRec r; };

struct State {
  Mem mem; std::vector<Frame *> st; std::vector<Dom> dom; u64 multiMask = 0;
  std::shared_ptr<ListNode> cons; std::shared_ptr<EmitNode> emits;
  u64 instr = 0; u32 covers = 0; int depth = 0;
  State() {}
  State(const State &s) : mem(s.mem), st(s.st), dom(s.dom), multiMask(s.multiMask), cons(s.cons), emits(s.emits), instr(s.instr), covers(s.covers), depth(s.depth) {
    for (auto *f : st) f->rc++;
    own();
  }
  ~State() { for (auto *f : st) if (--f->rc == 0) delete f; }
  void own() { if (st.empty()) return; Frame *&f = st.back(); if (f->rc > 1) { Frame *n = new Frame(*f); n->rc = 1; f->rc--; f = n; } }
};

// ---------------------------------------------------------------- module
static LLVMContext ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::map<const Function *, Fn *> fns;
static std::map<u64, Fn *> fnByAddr;
static std::map<std::string, Fn *> fnByName;
static std::map<const GlobalVariable *, u64> gaddr;
static Mem baseMem;
static std::vector<std::string> coverNames;
static std::set<std::string> unsupported;

static unsigned typeW(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static void flatten(Type *t, std::vector<unsigned> &out) {
  if (auto *s = dyn_cast<StructType>(t)) { for (auto *e : s->elements()) flatten(e, out); }
  else if (auto *a = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), out); }
  else if (t->isVoidTy()) {}
  else out.push_back(typeW(t));
}
static void flattenOffs(Type *t, u64 base, std::vector<std::pair<u64, unsigned>> &out) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flattenOffs(s->getElementType(i), base + sl->getElementOffset(i), out); }
  else if (auto *a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flattenOffs(a->getElementType(), base + i * es, out); }
  else out.push_back({base, typeW(t)});
}
static int nslots(Type *t) { std::vector<unsigned> v; flatten(t, v); return v.size(); }

static u64 constAddr(const Constant *C);
static bool constInt(const Constant *C, u64 &out) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) return false; out = ci->getZExtValue(); return true; }
  if (isa<ConstantPointerNull>(C)) { out = 0; return true; }
  if (isa<UndefValue>(C)) { out = 0; return true; }
  if (auto *cf = dyn_cast<ConstantFP>(C)) { out = cf->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
  if (isa<GlobalValue>(C)) { out = constAddr(C); return true; }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      u64 b; if (!constInt(ce->getOperand(0), b)) return false;
      APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return false;
      out = b + off.getSExtValue(); return true;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: {
      u64 b; if (!constInt(ce->getOperand(0), b)) return false; out = b & maskw(typeW(ce->getType())); return true; }
    case Instruction::Sub: case Instruction::Add: { u64 a, b; if (!constInt(ce->getOperand(0), a) || !constInt(ce->getOperand(1), b)) return false; out = (ce->getOpcode() == Instruction::Sub ? a - b : a + b) & maskw(typeW(ce->getType())); return true; }
    }
  }
  return false;
}
static u64 constAddr(const Constant *C) {
  if (auto *gv = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(gv); return it == gaddr.end() ? 0 : it->second; }
  if (auto *f = dyn_cast<Function>(C)) return fns[f]->addr;
  if (auto *ga = dyn_cast<GlobalAlias>(C)) return constAddr(ga->getAliasee());
  return 0;
}
static void writeConst(const Constant *C, uint8_t *p) {
  Type *t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { memset(p, 0, DL->getTypeStoreSize(t)); return; }
  if (auto *s = dyn_cast<ConstantStruct>(C)) { auto *sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) writeConst(s->getOperand(i), p + sl->getElementOffset(i)); return; }
  if (auto *a = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) writeConst(a->getOperand(i), p + i * es); return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(C)) { u64 es = d->getElementByteSize(); for (unsigned i = 0; i < d->getNumElements(); i++) { u64 v; if (d->getElementType()->isIntegerTy()) v = d->getElementAsInteger(i); else v = d->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); memcpy(p + i * es, &v, es); } return; }
  u64 v = 0; if (!constInt(C, v)) { errs() << "apexsym: unhandled constant " << *C << "\n"; }
  memcpy(p, &v, std::min<u64>(8, DL->getTypeStoreSize(t)));
}

enum Builtin { B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_ABORT, B_EXIT,
  B_SYM, B_RESTRICT, B_CHOICE, B_ASSUME, B_ASSERT, B_COVER, B_EMIT, B_CONC, B_ASSERT_EQ, B_ISSYM, B_PARAM, B_FAIL, B_EXCLUDE, B_OBJSIZE, B_PRINT,
  B_STRLEN, B_STRCMP, B_STRNCMP, B_MEMCMP, B_STRCHR, B_STRSTR, B_STRCASECMP, B_STRNCASECMP, B_NOP, B_UNREACH_OK };
static const std::map<std::string, int> builtins = {
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
  {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT},
  {"sv_sym_", B_SYM}, {"sv_restrict_", B_RESTRICT}, {"sv_exclude_", B_EXCLUDE}, {"sv_choice", B_CHOICE}, {"sv_assume_", B_ASSUME}, {"sv_assert_", B_ASSERT}, {"sv_fail", B_FAIL}, {"sv_cover", B_COVER}, {"sv_emit", B_EMIT}, {"sv_conc", B_CONC}, {"sv_assert_mem_eq", B_ASSERT_EQ}, {"sv_param", B_PARAM}, {"sv_objsize", B_OBJSIZE}, {"sv_print", B_PRINT},
  {"strlen", B_STRLEN}, {"strcmp", B_STRCMP}, {"strncmp", B_STRNCMP}, {"memcmp", B_MEMCMP}, {"strchr", B_STRCHR}, {"strstr", B_STRSTR}, {"strcasecmp", B_STRCASECMP}, {"strncasecmp", B_STRNCASECMP},
};

static void loadModule() {
  SMDiagnostic err;
  M = parseIRFile(opt.file, err, ctx);
  if (!M) { err.print("apexsym", errs()); exit(3); }
  DL = &M->getDataLayout();
  // aliasing of undefined externals to same-named internal definitions is done by the driver
  FREED_TOMB = new Obj(0, OF_FREED); FREED_TOMB->rc = 1 << 30;
  u64 id = 1;
  for (auto &F : *M) {
    Fn *f = new Fn(); f->F = &F; f->name = F.getName().str();
    f->addr = addrOf(id); Obj *o = new Obj(1, OF_FUNC | OF_CONST); baseMem.set(id, o); id++;
    fns[&F] = f; fnByAddr[f->addr] = f; fnByName[f->name] = f;
    auto it = builtins.find(f->name); if (it != builtins.end()) f->builtin = it->second;
    f->vararg = F.isVarArg();
    if (auto *sp = F.getSubprogram()) { auto fn = sp->getFilename(); f->fromRepo = fn.contains("/repo/") || (sp->getDirectory().contains("/repo")); }
  }
  std::vector<std::pair<const GlobalVariable *, u64>> gl;
  for (auto &G : M->globals()) { gaddr[&G] = addrOf(id); gl.push_back({&G, id}); id++; }
  for (auto &p : gl) {
    const GlobalVariable *G = p.first; u64 sz = DL->getTypeAllocSize(G->getValueType());
    Obj *o = new Obj(sz, OF_GLOBAL | (G->isConstant() ? OF_CONST : 0)); memset(o->data, 0, sz);
    if (G->hasInitializer()) writeConst(G->getInitializer(), o->data);
    else if (opt.verbose) errs() << "note: undefined global " << G->getName() << "\n";
    baseMem.set(p.second, o);
  }
  baseMem.next = id;
}

// ---------------------------------------------------------------- decoding
static void decode(Fn *f) {
  if (f->decoded) return;
  f->decoded = true;
  const Function &F = *f->F;
  std::map<const Value *, int> reg; std::map<const Value *, Opnd> cmap;
  int nr = 0;
  for (auto &A : F.args()) {
    reg[&A] = nr; std::vector<unsigned> fl; flatten(A.getType(), fl); for (auto w : fl) f->argw.push_back(w);
    f->byval.push_back(A.hasByValAttr() ? (int)DL->getTypeAllocSize(A.getParamByValType()) : 0);
    nr += fl.size();
  }
  f->nargs = nr;
  for (auto &B : F) for (auto &I : B) { int n = nslots(I.getType()); if (n) { reg[&I] = nr; nr += n; } }
  f->nregs = nr;
  auto addConst = [&](u64 v) -> Opnd { f->consts.push_back(CV(v)); return ~(int)(f->consts.size() - 1); };
  std::function<Opnd(const Value *, int)> opnd = [&](const Value *v, int slot) -> Opnd {
    auto it = reg.find(v); if (it != reg.end()) return it->second + slot;
    if (auto *C = dyn_cast<Constant>(v)) {
      if (C->getType()->isAggregateType()) {
        // flatten constant aggregate
        std::vector<const Constant *> leaf; std::function<void(const Constant *)> rec = [&](const Constant *c) {
          if (c->getType()->isAggregateType()) { unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements(); for (unsigned i = 0; i < n; i++) rec(c->getAggregateElement(i)); } else leaf.push_back(c); };
        rec(C); u64 x = 0; constInt(leaf[slot], x); return addConst(x);
      }
      auto ci = cmap.find(v); if (ci != cmap.end()) return ci->second;
      u64 x = 0; if (!constInt(C, x)) { std::string s; raw_string_ostream os(s); os << *C; unsupported.insert("const:" + s); }
      return cmap[v] = addConst(x);
    }
    return addConst(0);
  };
  std::map<const BasicBlock *, u32> start; std::vector<std::pair<u32, const BasicBlock *>> fix;
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) -> u32 {
    Edge e; e.target = 0;
    for (auto &I : *to) { auto *ph = dyn_cast<PHINode>(&I); if (!ph) break; int n = nslots(ph->getType()); for (int i = 0; i < n; i++) e.copies.push_back({reg[ph] + i, opnd(ph->getIncomingValueForBlock(from), i)}); }
    f->edges.push_back(e); fix.push_back({(u32)f->edges.size() - 1, to}); return f->edges.size() - 1;
  };
  for (auto &B : F) {
    start[&B] = f->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst in{}; in.I = &I; in.dst = reg.count(&I) ? reg[&I] : -1; in.w = typeW(I.getType()); in.n = 1;
      auto unsup = [&]() { in.op = I_UNSUP; };
      if (auto *b = dyn_cast<BinaryOperator>(&I)) {
        in.op = I_BIN; in.a = opnd(b->getOperand(0), 0); in.b = opnd(b->getOperand(1), 0); in.w2 = in.w;
        switch (b->getOpcode()) {
        case Instruction::Add: in.sub = E_ADD; break; case Instruction::Sub: in.sub = E_SUB; break; case Instruction::Mul: in.sub = E_MUL; break;
        case Instruction::UDiv: in.sub = E_UDIV; break; case Instruction::SDiv: in.sub = E_SDIV; break; case Instruction::URem: in.sub = E_UREM; break; case Instruction::SRem: in.sub = E_SREM; break;
        case Instruction::Shl: in.sub = E_SHL; break; case Instruction::LShr: in.sub = E_LSHR; break; case Instruction::AShr: in.sub = E_ASHR; break;
        case Instruction::And: in.sub = E_AND; break; case Instruction::Or: in.sub = E_OR; break; case Instruction::Xor: in.sub = E_XOR; break;
        default: in.op = I_FBIN; in.sub = b->getOpcode(); break;
        }
        if (in.w == 0 || in.w > 64) unsup();
      } else if (auto *c = dyn_cast<ICmpInst>(&I)) {
        in.op = I_CMP; in.w2 = typeW(c->getOperand(0)->getType()); const Value *x = c->getOperand(0), *y = c->getOperand(1);
        switch (c->getPredicate()) {
        case CmpInst::ICMP_EQ: in.sub = E_EQ; break; case CmpInst::ICMP_NE: in.sub = E_NE; break;
        case CmpInst::ICMP_ULT: in.sub = E_ULT; break; case CmpInst::ICMP_ULE: in.sub = E_ULE; break; case CmpInst::ICMP_UGT: in.sub = E_ULT; std::swap(x, y); break; case CmpInst::ICMP_UGE: in.sub = E_ULE; std::swap(x, y); break;
        case CmpInst::ICMP_SLT: in.sub = E_SLT; break; case CmpInst::ICMP_SLE: in.sub = E_SLE; break; case CmpInst::ICMP_SGT: in.sub = E_SLT; std::swap(x, y); break; case CmpInst::ICMP_SGE: in.sub = E_SLE; std::swap(x, y); break;
        default: unsup();
        }
        in.a = opnd(x, 0); in.b = opnd(y, 0); if (!in.w2 || in.w2 > 64) unsup();
      } else if (isa<FCmpInst>(I)) { in.op = I_FCMP; in.sub = cast<FCmpInst>(I).getPredicate(); in.w2 = typeW(I.getOperand(0)->getType()); in.a = opnd(I.getOperand(0), 0); in.b = opnd(I.getOperand(1), 0);
      } else if (auto *c = dyn_cast<CastInst>(&I)) {
        in.op = I_CAST; in.w2 = typeW(c->getOperand(0)->getType()); in.a = opnd(c->getOperand(0), 0);
        switch (c->getOpcode()) {
        case Instruction::Trunc: in.sub = E_EXTRACT; break; case Instruction::ZExt: in.sub = E_ZEXT; break; case Instruction::SExt: in.sub = E_SEXT; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: in.sub = in.w < in.w2 ? E_EXTRACT : E_ZEXT; break;
        case Instruction::BitCast: in.op = I_COPY; break;
        default: in.op = I_FCAST; in.sub = c->getOpcode();
        }
        if (!in.w || in.w > 64 || !in.w2 || in.w2 > 64) unsup();
      } else if (isa<FreezeInst>(I)) { in.op = I_COPY; in.a = opnd(I.getOperand(0), 0); in.n = nslots(I.getType());
      } else if (isa<UnaryOperator>(I)) { in.op = I_FBIN; in.sub = 255; in.a = opnd(I.getOperand(0), 0); in.b = in.a;
      } else if (auto *s = dyn_cast<SelectInst>(&I)) { in.op = I_SELECT; in.a = opnd(s->getCondition(), 0); in.b = opnd(s->getTrueValue(), 0); in.c = opnd(s->getFalseValue(), 0); if (!in.w) unsup();
      } else if (auto *l = dyn_cast<LoadInst>(&I)) { in.op = I_LOAD; in.a = opnd(l->getPointerOperand(), 0); if (!in.w || in.w > 64) unsup();
      } else if (auto *s = dyn_cast<StoreInst>(&I)) { in.op = I_STORE; in.a = opnd(s->getPointerOperand(), 0); in.b = opnd(s->getValueOperand(), 0); in.w = typeW(s->getValueOperand()->getType()); if (!in.w || in.w > 64) unsup();
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        in.op = I_GEP; in.a = opnd(g->getPointerOperand(), 0); GepInfo gi; gi.off = 0;
        for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) {
          if (StructType *st = it.getStructTypeOrNull()) gi.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
          else { int64_t sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(it.getOperand())) gi.off += sc * ci->getSExtValue(); else gi.idx.push_back({opnd(it.getOperand(), 0), sc, (uint8_t)typeW(it.getOperand()->getType())}); }
        }
        in.aux = f->geps.size(); f->geps.push_back(gi);
      } else if (auto *al = dyn_cast<AllocaInst>(&I)) { in.op = I_ALLOCA; in.aux = DL->getTypeAllocSize(al->getAllocatedType()); in.a = opnd(al->getArraySize(), 0);
      } else if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isUnconditional()) { in.op = I_BR; in.aux = mkEdge(&B, br->getSuccessor(0)); }
        else { in.op = I_CONDBR; in.a = opnd(br->getCondition(), 0); in.aux = mkEdge(&B, br->getSuccessor(0)); in.b = mkEdge(&B, br->getSuccessor(1)); }
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        in.op = I_SWITCH; in.a = opnd(sw->getCondition(), 0); in.w2 = typeW(sw->getCondition()->getType()); SwitchInfo si;
        std::map<const BasicBlock *, u32> em; auto ed = [&](const BasicBlock *t) { auto it = em.find(t); if (it != em.end()) return it->second; return em[t] = mkEdge(&B, t); };
        si.def = ed(sw->getDefaultDest()); for (auto &cs : sw->cases()) si.cases.push_back({cs.getCaseValue()->getZExtValue(), ed(cs.getCaseSuccessor())});
        in.aux = f->switches.size(); f->switches.push_back(si);
      } else if (auto *r = dyn_cast<ReturnInst>(&I)) {
        in.op = I_RET; in.n = 0; if (r->getReturnValue()) { in.n = nslots(r->getReturnValue()->getType()); 
          in.aux = f->calls.size(); CallInfo ci; for (int i = 0; i < in.n; i++) ci.args.push_back(opnd(r->getReturnValue(), i)); f->calls.push_back(ci); }
      } else if (auto *cb = dyn_cast<CallInst>(&I)) {
        in.op = I_CALL; CallInfo ci; ci.nslots = nslots(I.getType()); ci.retw = typeW(I.getType());
        const Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (cb->isInlineAsm()) { unsup(); }
        else if (auto *cf = dyn_cast<Function>(cv)) { ci.callee = fns[cf]; ci.iid = cf->getIntrinsicID(); }
        else { ci.indirect = true; ci.fp = opnd(cb->getCalledOperand(), 0); }
        unsigned nfixed = cb->getFunctionType()->getNumParams();
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          const Value *a = cb->getArgOperand(i); 
          if (a->getType()->isMetadataTy()) continue;
          std::vector<unsigned> fl; flatten(a->getType(), fl);
          for (unsigned k = 0; k < fl.size(); k++) { ci.args.push_back(opnd(a, k)); ci.argw.push_back(fl[k]); ci.argFirst.push_back(i); ci.byvalSize.push_back(cb->isByValArgument(i) ? (int)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0); }
          if (i + 1 == nfixed) ci.nfixedSlots = ci.args.size();
        }
        if (nfixed == 0) ci.nfixedSlots = 0;
        in.aux = f->calls.size(); in.n = ci.nslots; f->calls.push_back(ci);
      } else if (isa<UnreachableInst>(I)) in.op = I_UNREACHABLE;
      else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
        Type *t = ev->getAggregateOperand()->getType(); int off = 0;
        for (unsigned ix : ev->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(st->getElementType(k)); t = st->getElementType(ix); } else { t = t->getArrayElementType(); off += ix * nslots(t); } }
        in.op = I_COPY; in.a = opnd(ev->getAggregateOperand(), off); in.n = nslots(t); if (isa<Constant>(ev->getAggregateOperand())) in.n = 1;
      } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
        Type *t = iv->getType(); int off = 0;
        for (unsigned ix : iv->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(st->getElementType(k)); t = st->getElementType(ix); } else { t = t->getArrayElementType(); off += ix * nslots(t); } }
        in.op = I_INSERT; in.n = nslots(iv->getType()); in.c = off; in.sub = nslots(t); in.aux = f->calls.size(); CallInfo ci;
        for (int i = 0; i < in.n; i++) ci.args.push_back(i >= off && i < off + in.sub ? opnd(iv->getInsertedValueOperand(), i - off) : opnd(iv->getAggregateOperand(), i));
        f->calls.push_back(ci);
      } else unsup();
      f->code.push_back(in);
    }
  }
  for (auto &p : fix) f->edges[p.first].target = start[p.second];
}

// ---------------------------------------------------------------- solver
static struct Stats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0; double solverS = 0; u64 paths = 0, instrs = 0, forks = 0, asserts = 0, symAsserts = 0, assumeKilled = 0, incomplete = 0, relPaths = 0, domMismatch = 0; double inputs = 0; } S;
static z3::context *zc; static z3::solver *zs;
static std::map<const Expr *, z3::expr> *zmemo;
static void zinit() { if (zc) return; zc = new z3::context(); zs = new z3::solver(*zc, "QF_BV"); zmemo = new std::map<const Expr *, z3::expr>(); z3::params p(*zc); p.set("timeout", 20000u); zs->set(p); }
static z3::expr zsym(int i) { return zc->bv_const(("b" + std::to_string(i)).c_str(), 8); }
static z3::expr zrange(z3::expr x, int lo, int hi) { if (lo == hi) return x == zc->bv_val(lo, 8); if (lo == 0) return z3::ule(x, zc->bv_val(hi, 8)); if (hi == 255) return z3::uge(x, zc->bv_val(lo, 8)); return z3::uge(x, zc->bv_val(lo, 8)) && z3::ule(x, zc->bv_val(hi, 8)); }
static z3::expr zdom(int i, const Dom &d) {
  z3::expr_vector v(*zc); z3::expr x = zsym(i);
  for (int a = 0; a < 256;) { if (!domHas(d, a)) { a++; continue; } int b = a; while (b < 255 && domHas(d, b + 1)) b++; v.push_back(zrange(x, a, b)); a = b + 1; }
  return z3::mk_or(v);
}
static z3::expr zx(const Expr *e) {
  auto it = zmemo->find(e); if (it != zmemo->end()) return it->second;
  z3::expr r(*zc); unsigned w = e->width;
  auto bval = [&](u64 v) { return zc->bv_val((uint64_t)v, w); };
  if (e->op == E_CONST) r = bval(e->c);
  else if (e->unary) {
    z3::expr x = zsym(e->sym); const u64 *t = e->tab; z3::expr zext = w > 8 ? z3::zext(x, w - 8) : (w < 8 ? x.extract(w - 1, 0) : x);
    bool first = true;
    for (int a = 255; a >= 0;) {
      int b = a; z3::expr val(*zc);
      while (b > 0 && t[b - 1] == t[a]) b--;
      int b2 = a; while (b2 > 0 && t[b2 - 1] == ((t[b2] - 1) & maskw(w))) b2--;
      if (b2 < b) { b = b2; val = zext + bval((t[a] - a) & maskw(w)); } else val = bval(t[a]);
      if (first) { r = val; first = false; } else r = z3::ite(zrange(x, b, a), val, r);
      a = b - 1;
    }
    // note: the last piece built is outermost; ranges are disjoint so order is irrelevant
  } else {
    z3::expr a = zx(e->k[0]); z3::expr b(*zc), d(*zc); if (e->k[1]) b = zx(e->k[1]); if (e->k[2]) d = zx(e->k[2]);
    auto boolv = [&](z3::expr q) { return z3::ite(q, zc->bv_val(1, 1), zc->bv_val(0, 1)); };
    switch (e->op) {
    case E_ADD: r = a + b; break; case E_SUB: r = a - b; break; case E_MUL: r = a * b; break;
    case E_UDIV: r = z3::udiv(a, b); break; case E_SDIV: r = a / b; break; case E_UREM: r = z3::urem(a, b); break; case E_SREM: r = z3::srem(a, b); break;
    case E_SHL: r = z3::shl(a, b); break; case E_LSHR: r = z3::lshr(a, b); break; case E_ASHR: r = z3::ashr(a, b); break;
    case E_AND: r = a & b; break; case E_OR: r = a | b; break; case E_XOR: r = a ^ b; break;
    case E_EQ: r = boolv(a == b); break; case E_NE: r = boolv(a != b); break; case E_ULT: r = boolv(z3::ult(a, b)); break; case E_ULE: r = boolv(z3::ule(a, b)); break;
    case E_SLT: r = boolv(z3::slt(a, b)); break; case E_SLE: r = boolv(z3::sle(a, b)); break;
    case E_ZEXT: r = z3::zext(a, w - e->k[0]->width); break; case E_SEXT: r = z3::sext(a, w - e->k[0]->width); break;
    case E_EXTRACT: r = a.extract(e->c + w - 1, e->c); break;
    case E_ITE: r = z3::ite(a == zc->bv_val(1, 1), b, d); break;
    }
  }
  zmemo->emplace(e, r); return r;
}
// satisfiability of domains(mask) & connected constraints & extra==val ; fills model bytes when asked
static int zcheck(State &s, u64 mask, const Expr *extra, bool extraVal, std::vector<uint8_t> *model) {
  zinit(); double t0 = nowS();
  if (extra) mask |= extra->support;
  std::vector<const Expr *> cs; bool ch = true; std::set<const Expr *> used;
  while (ch) { ch = false; for (auto *n = s.cons.get(); n; n = n->next.get()) if (!used.count(n->e) && (n->e->support & mask)) { used.insert(n->e); cs.push_back(n->e); if (n->e->support & ~mask) { mask |= n->e->support; ch = true; } } }
  zs->push();
  for (unsigned i = 0; i < s.dom.size(); i++) if (mask >> i & 1) if (domCount(s.dom[i]) < 256) zs->add(zdom(i, s.dom[i]));
  for (auto *e : cs) zs->add(zx(e) == zc->bv_val(1, 1));
  if (extra) zs->add(zx(extra) == zc->bv_val(extraVal ? 1 : 0, 1));
  z3::check_result r = zs->check(); S.queries++;
  if (r == z3::sat) {
    S.sat++;
    if (model) { z3::model m = zs->get_model(); for (unsigned i = 0; i < s.dom.size(); i++) if (mask >> i & 1) { z3::expr v = m.eval(zsym(i), true); (*model)[i] = (uint8_t)v.get_numeral_uint64(); } }
  } else if (r == z3::unsat) S.unsat++; else S.unknown++;
  zs->pop(); S.solverS += nowS() - t0;
  if (zmemo->size() > 200000) zmemo->clear();
  return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
}
// PC & (some pair of byte terms differs): discharges an equality obligation in z3
static int zcheckPairs(State &s, u64 mask, const std::vector<std::pair<const Expr *, const Expr *>> &prs) {
  zinit(); double t0 = nowS(); zs->push();
  for (auto *n = s.cons.get(); n; n = n->next.get()) { zs->add(zx(n->e) == zc->bv_val(1, 1)); mask |= n->e->support; }
  for (unsigned i = 0; i < s.dom.size(); i++) if ((mask >> i & 1) && domCount(s.dom[i]) < 256) zs->add(zdom(i, s.dom[i]));
  z3::expr_vector v(*zc); for (auto &p : prs) v.push_back(zx(p.first) != zx(p.second));
  zs->add(z3::mk_or(v)); z3::check_result r = zs->check(); S.queries++; if (r == z3::sat) S.sat++; else if (r == z3::unsat) S.unsat++; else S.unknown++;
  zs->pop(); S.solverS += nowS() - t0; return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
}
static bool modelOf(State &s, const Expr *extra, bool ev, std::vector<uint8_t> &m) {
  m.assign(s.dom.size(), 0);
  for (unsigned i = 0; i < s.dom.size(); i++) {
    // prefer readable bytes
    int v = -1; static const char pref[] = "abxAB1 "; for (const char *p = pref; *p; p++) if (domHas(s.dom[i], (uint8_t)*p)) { v = (uint8_t)*p; break; }
    if (v < 0) v = domFirst(s.dom[i]); m[i] = v;
  }
  u64 mask = s.multiMask | (extra ? extra->support : 0);
  if (mask) return zcheck(s, mask, extra, ev, &m) == 1;
  return true;
}
static u64 evalM(const Expr *e, const std::vector<uint8_t> &m) {
  if (e->op == E_CONST) return e->c;
  if (e->unary) return e->tab[m[e->sym]];
  return evalOp(e->op, e->width, e->op == E_ITE ? e->width : e->k[0]->width, evalM(e->k[0], m), e->k[1] ? evalM(e->k[1], m) : 0, e->k[2] ? evalM(e->k[2], m) : 0, e->c);
}
// fold unary subterms that are constant on the current domains
static const Expr *simp(State &s, const Expr *e, std::unordered_map<const Expr *, const Expr *> &memo) {
  if (e->op == E_CONST) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  const Expr *r = e;
  if (e->unary) {
    const Dom &d = s.dom[e->sym]; bool first = true, same = true; u64 v = 0;
    for (int q = 0; q < 4 && same; q++) for (u64 b = d.b[q]; b; b &= b - 1) { u64 x = e->tab[q * 64 + __builtin_ctzll(b)]; if (first) { v = x; first = false; } else if (x != v) { same = false; break; } }
    if (same) r = pool->mkConst(v, e->width);
  } else {
    const Expr *k[3] = {nullptr, nullptr, nullptr}; bool ch = false;
    for (int i = 0; i < e->nk; i++) { k[i] = simp(s, e->k[i], memo); ch |= k[i] != e->k[i]; }
    if (ch) r = pool->mk(e->op, e->width, k[0], k[1], k[2], e->c);
  }
  memo[e] = r; return r;
}
static const Expr *simplify(State &s, const Expr *e) { std::unordered_map<const Expr *, const Expr *> m; return simp(s, e, m); }
static const Expr *findBool(State &s, const Expr *e, std::set<const Expr *> &seen) {
  if (!seen.insert(e).second) return nullptr;
  if (e->op == E_CONST) return nullptr;
  if (e->unary) return e->width == 1 ? e : nullptr;
  for (int i = 0; i < e->nk; i++) if (auto *r = findBool(s, e->k[i], seen)) return r;
  return nullptr;
}

// ---------------------------------------------------------------- results
struct Viol { std::string kind, msg, loc, stack; std::vector<uint8_t> in; };
struct Sample { std::vector<uint8_t> in; std::vector<std::pair<std::string, std::string>> emits; };
static std::vector<Viol> viols; static std::vector<Sample> samples; static std::map<std::string, int> violSeen; static u64 violTotal;
static std::map<std::string, u64> coverCount; static std::map<std::string, u64> incompleteWhy;
static std::vector<State *> work; static double deadline; static bool stopAll; static u64 rng;
static std::map<Fn *, u64> fnCount;

static std::string locOf(State &s) {
  std::string r;
  for (int i = (int)s.st.size() - 1; i >= 0; i--) {
    Frame *f = s.st[i]; u32 pc = f->pc; if (i != (int)s.st.size() - 1 && pc > 0) pc--; // pc of callers points past the call
    const Inst &in = f->f->code[std::min<u32>(pc, f->f->code.size() - 1)];
    std::string l = f->f->name; if (auto &d = in.I->getDebugLoc()) { auto fn = d->getFilename().str(); auto p = fn.rfind('/'); l += "@" + (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(d.getLine()); }
    r += (r.empty() ? "" : " < ") + l;
  }
  return r;
}
static bool mayBeSat(State &s, const Expr *e, bool v);
static void violation(State &s, const std::string &kind, const std::string &msg, const Expr *extra = nullptr, bool ev = false) {
  violTotal++;
  Viol v; v.kind = kind; v.msg = msg; v.stack = locOf(s); v.loc = v.stack.substr(0, v.stack.find(" < "));
  std::string key = kind + "|" + msg + "|" + v.loc;
  int &n = violSeen[key]; n++;
  if (n > 40) return;
  if (!modelOf(s, extra, ev, v.in)) { if (opt.verbose) errs() << "no model for violation " << msg << "\n"; n--; violTotal--; return; }
  viols.push_back(v);
  if (opt.verbose) errs() << "VIOL " << kind << " " << msg << " at " << v.stack << "\n";
  if ((int)violSeen.size() > opt.maxViol) stopAll = true;
}
static void incomplete(State &s, const std::string &why) { S.incomplete++; std::string k = why; incompleteWhy[k]++; if (opt.verbose) errs() << "INCOMPLETE " << why << " at " << locOf(s) << "\n"; }

static void endPath(State &s) {
  S.paths++;
  double prod = 1; for (auto &d : s.dom) prod *= domCount(d);
  if (s.cons) S.relPaths++; else S.inputs += prod;
  for (unsigned i = 0; i < coverNames.size(); i++) if (s.covers >> i & 1) coverCount[coverNames[i]]++;
  // z3 certifies that the path condition is satisfiable (cross-check of the domain procedure) on a rotating subset
  bool smp = false; u64 n = S.paths;
  rng = rng * 6364136223846793005ULL + 1442695040888963407ULL;
  int slot = -1;
  if ((int)samples.size() < opt.samples) { slot = samples.size(); samples.push_back({}); smp = true; }
  else { u64 r = (rng >> 33) % n; if (r < (u64)opt.samples) { slot = r; smp = true; } }
  if (smp || n <= 300 || n % 16 == 0) {
    std::vector<uint8_t> m(s.dom.size(), 0); u64 all = s.dom.size() >= 64 ? ~0ULL : (1ULL << s.dom.size()) - 1;
    if (smp) { Sample q; if (modelOf(s, nullptr, false, m)) { q.in = m; for (auto *e = s.emits.get(); e; e = e->next.get()) { std::string b; for (auto &v : e->r.bytes) b += (char)(v.e ? evalM(v.e, m) : v.c); q.emits.push_back({e->r.name, b}); } std::reverse(q.emits.begin(), q.emits.end()); } samples[slot] = q; }
    if (!s.dom.empty()) { int r = zcheck(s, all, nullptr, false, nullptr); if (r == 0) { S.domMismatch++; } }
  }
}

// ---------------------------------------------------------------- execution
struct Kill {}; // path ends silently
struct Restart {}; // re-execute the current instruction (state narrowed/forked)

static State *cloneState(State &s) { S.forks++; State *n = new State(s); return n; }
static bool restrictTab(State &s, const Expr *e, u64 want, bool eq) { // unary e == want (or != want)
  Dom &d = s.dom[e->sym]; Dom n = {{0, 0, 0, 0}};
  for (int q = 0; q < 4; q++) for (u64 b = d.b[q]; b; b &= b - 1) { int i = q * 64 + __builtin_ctzll(b); if ((e->tab[i] == want) == eq) n.b[q] |= 1ULL << (i & 63); }
  d = n; return domFirst(n) >= 0;
}
static void addCons(State &s, const Expr *e, bool val) {
  if (!val) e = pool->mk(E_XOR, 1, e, pool->mkConst(1, 1));
  if (e->op == E_CONST) return;
  if (e->unary) { restrictTab(s, e, 1, true); return; }
  auto n = std::make_shared<ListNode>(); n->next = s.cons; n->e = e; s.cons = n; s.multiMask |= e->support;
}
// decide a boolean; forks the state if both outcomes are possible. Returns the outcome for s.
// child states (other outcome) re-execute the current instruction.
static bool decide(State &s, const Val &v) {
  if (!v.e) return v.c & 1;
  const Expr *e = v.e;
  if (!e->unary) e = simplify(s, e);
  if (e->op == E_CONST) return e->c & 1;
  if (e->unary) {
    const Dom &d = s.dom[e->sym]; bool t = false, f = false;
    for (int q = 0; q < 4; q++) for (u64 b = d.b[q]; b; b &= b - 1) { if (e->tab[q * 64 + __builtin_ctzll(b)] & 1) t = true; else f = true; if (t && f) goto both; }
    return t;
  both:
    bool rel = s.multiMask >> e->sym & 1;
    if (rel) { int rt = zcheck(s, 0, e, true, nullptr), rf = zcheck(s, 0, e, false, nullptr); if (rt == 0 && rf == 0) { S.domMismatch++; throw Kill(); } if (rt < 0 || rf < 0) { incomplete(s, "solver-unknown"); throw Kill(); } if (rt == 0) { restrictTab(s, e, 1, false); return false; } if (rf == 0) { restrictTab(s, e, 1, true); return true; } }
    State *o = cloneState(s); restrictTab(*o, e, 1, false); o->depth = ++s.depth; work.push_back(o);
    restrictTab(s, e, 1, true); return true;
  }
  std::set<const Expr *> seen; const Expr *b = findBool(s, e, seen);
  if (b) { decide(s, Val{0, b}); return decide(s, Val{0, e}); }
  int rt = zcheck(s, 0, e, true, nullptr), rf = zcheck(s, 0, e, false, nullptr);
  if (rt < 0 || rf < 0) { incomplete(s, "solver-unknown"); throw Kill(); }
  if (!rt && !rf) { S.domMismatch++; throw Kill(); }
  if (rt && rf) { State *o = cloneState(s); addCons(*o, e, false); o->depth = ++s.depth; work.push_back(o); addCons(s, e, true); return true; }
  return rt;
}
static u64 conc(State &s, const Val &v) {
  if (!v.e) return v.c;
  const Expr *e = v.e->unary ? v.e : simplify(s, v.e);
  if (e->op == E_CONST) return e->c;
  if (e->unary) {
    std::vector<u64> vals; const Dom &d = s.dom[e->sym];
    for (int q = 0; q < 4; q++) for (u64 b = d.b[q]; b; b &= b - 1) vals.push_back(e->tab[q * 64 + __builtin_ctzll(b)]);
    std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
    if (vals.size() == 1) return vals[0];
    bool rel = s.multiMask >> e->sym & 1; bool have = false; u64 mine = 0; std::vector<u64> ok;
    for (u64 x : vals) { if (rel) { const Expr *q = pool->mk(E_EQ, 1, e, pool->mkConst(x, e->width)); if (zcheck(s, 0, q, true, nullptr) == 0) continue; } ok.push_back(x); }
    if (ok.empty()) throw Kill();
    for (size_t i = 1; i < ok.size(); i++) { State *o = cloneState(s); restrictTab(*o, e, ok[i], true); o->depth++; work.push_back(o); }
    have = true; mine = ok[0]; (void)have; restrictTab(s, e, mine, true); return mine;
  }
  std::vector<uint8_t> m(s.dom.size(), 0);
  for (unsigned i = 0; i < s.dom.size(); i++) m[i] = domFirst(s.dom[i]);
  if (zcheck(s, e->support | s.multiMask, nullptr, false, &m) != 1) throw Kill();
  u64 x = evalM(e, m); const Expr *q = pool->mk(E_EQ, 1, e, pool->mkConst(x, e->width));
  int rf = zcheck(s, 0, q, false, nullptr);
  if (rf) { State *o = cloneState(s); addCons(*o, q, false); o->depth++; work.push_back(o); }
  addCons(s, q, true); return x;
}

static Obj *access(State &s, u64 addr, u64 n, bool wr, u64 &off, u64 &id) {
  id = addr >> WIN; off = (addr & ((1ULL << WIN) - 1)) - OFF0;
  const char *what = wr ? "write" : "read";
  if (addr < (1ULL << WIN)) { violation(s, "memory", std::string(addr < 4096 ? "NULL pointer " : "wild pointer ") + what); throw Kill(); }
  Obj *o = s.mem.get(id);
  if (!o) { violation(s, "memory", std::string("wild pointer ") + what); throw Kill(); }
  if (o->flags & OF_FREED) { violation(s, "memory", std::string("use after free/return ") + what); throw Kill(); }
  if (off + n > o->size || off + n < off) { violation(s, "memory", std::string("out-of-bounds ") + what + ((o->flags & OF_HEAP) ? " (heap)" : (o->flags & OF_STACK) ? " (stack)" : " (global)")); throw Kill(); }
  if (wr) { if (o->flags & OF_CONST) { violation(s, "memory", "write to constant"); throw Kill(); } o = s.mem.writable(id); }
  return o;
}
static Val loadV(State &s, u64 addr, unsigned w) {
  u64 off, id; unsigned n = (w + 7) / 8; Obj *o = access(s, addr, n, false, off, id);
  bool sy = false; if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { sy = true; break; }
  if (!sy) { u64 v = 0; memcpy(&v, o->data + off, n); return CV(v & maskw(w)); }
  if (n == 1) { const Expr *e = o->sym[off]; if (w < 8) e = pool->mk(E_EXTRACT, w, e); return mkV(e); }
  const Expr *first = o->sym[off];
  if (first && first->op == E_EXTRACT && first->c == 0 && first->k[0]->width == w) {
    bool all = true; for (unsigned i = 1; i < n && all; i++) { const Expr *q = o->sym[off + i]; all = q && q->op == E_EXTRACT && q->k[0] == first->k[0] && q->c == 8 * i; }
    if (all) return mkV(first->k[0]);
  }
  const Expr *r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    const Expr *b = o->sym[off + i] ? o->sym[off + i] : pool->mkConst(o->data[off + i], 8);
    b = pool->mk(E_ZEXT, w, b); if (i) b = pool->mk(E_SHL, w, b, pool->mkConst(8 * i, w));
    r = r ? pool->mk(E_OR, w, r, b) : b;
  }
  return mkV(r);
}
static inline void putSym(Obj *o, u64 off, const Expr *e) { if (!o->sym) o->sym = (const Expr **)calloc(o->size ? o->size : 1, sizeof(void *)); o->sym[off] = e; }
static void storeV(State &s, u64 addr, unsigned w, const Val &v) {
  u64 off, id; unsigned n = (w + 7) / 8; Obj *o = access(s, addr, n, true, off, id);
  if (!v.e) { u64 c = v.c & maskw(w); memcpy(o->data + off, &c, n); if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
  const Expr *e = v.e; if (w < 8) e = pool->mk(E_ZEXT, 8, e);
  for (unsigned i = 0; i < n; i++) {
    const Expr *b = n == 1 ? e : pool->mk(E_EXTRACT, 8, e, nullptr, nullptr, 8 * i);
    if (b->op == E_CONST) { o->data[off + i] = b->c; if (o->sym) o->sym[off + i] = nullptr; } else { o->data[off + i] = 0; putSym(o, off + i, b); }
  }
}
static u64 allocObj(State &s, u64 n, uint8_t flags, int fill) {
  u64 id = s.mem.next++; Obj *o = new Obj(n, flags); memset(o->data, fill, n); s.mem.set(id, o); return addrOf(id);
}
static u64 heapAlloc(State &s, u64 n, int fill) {
  if (n >= (1ULL << WIN) - 2 * OFF0 - 4096) { if (n > (1ULL << 46)) return 0; incomplete(s, "huge allocation"); throw Kill(); }
  if (n > (64u << 20)) { incomplete(s, "huge allocation"); throw Kill(); }
  return allocObj(s, n, OF_HEAP, fill);
}
static Obj *heapCheck(State &s, u64 p, const char *fn) {
  Obj *o = s.mem.get(p >> WIN);
  if (!o || p < (1ULL << WIN)) { violation(s, "memory", std::string("invalid ") + fn); throw Kill(); }
  if (o->flags & OF_FREED) { violation(s, "memory", std::string("double ") + fn); throw Kill(); }
  if (!(o->flags & OF_HEAP) || p != addrOf(p >> WIN)) { violation(s, "memory", std::string("invalid ") + fn); throw Kill(); }
  return o;
}
static void copyMem(State &s, u64 d, u64 a, u64 n) {
  if (!n) return;
  u64 so, si, dof, di; Obj *src = access(s, a, n, false, so, si); objRef(src);
  struct G { Obj *o; ~G() { objUnref(o); } } g{src};
  Obj *dst = access(s, d, n, true, dof, di);
  if (src == dst || si == di) { memmove(dst->data + dof, dst->data + so, n); if (dst->sym) memmove(dst->sym + dof, dst->sym + so, n * sizeof(void *)); return; }
  memcpy(dst->data + dof, src->data + so, n);
  if (src->sym) { if (!dst->sym) dst->sym = (const Expr **)calloc(dst->size, sizeof(void *)); memcpy(dst->sym + dof, src->sym + so, n * sizeof(void *)); }
  else if (dst->sym) memset(dst->sym + dof, 0, n * sizeof(void *));
}
// concrete byte view; false if symbolic or out of bounds
static bool peek(State &s, u64 addr, uint8_t &b) {
  u64 id = addr >> WIN, off = (addr & ((1ULL << WIN) - 1)) - OFF0; if (addr < (1ULL << WIN)) return false;
  Obj *o = s.mem.get(id); if (!o || (o->flags & OF_FREED) || off >= o->size || (o->sym && o->sym[off])) return false; b = o->data[off]; return true;
}
// contiguous concrete view of an object
struct View { const uint8_t *p; const Expr *const *sym; u64 n; };
static bool view(State &s, u64 addr, View &v) {
  u64 id = addr >> WIN, off = (addr & ((1ULL << WIN) - 1)) - OFF0; if (addr < (1ULL << WIN)) return false;
  Obj *o = s.mem.get(id); if (!o || (o->flags & OF_FREED) || off > o->size) return false;
  v.p = o->data + off; v.sym = o->sym ? o->sym + off : nullptr; v.n = o->size - off; return true;
}
static std::string cstr(State &s, u64 addr) { std::string r; uint8_t b; while (r.size() < 4096 && peek(s, addr + r.size(), b) && b) r += (char)b; return r; }

static inline Val getO(Frame *f, Opnd o) { return o >= 0 ? f->r[o] : f->f->consts[~o]; }
static Val binop(uint8_t op, unsigned w, unsigned w2, const Val &a, const Val &b) {
  if (!a.e && !b.e) return CV(evalOp(op, w, w2, a.c, b.c, 0, 0));
  return mkV(pool->mk(op, w, toE(a, w2), toE(b, w2)));
}
static double asD(u64 v, unsigned w) { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }

static void takeEdge(Frame *f, u32 e) {
  Edge &ed = f->f->edges[e]; size_t n = ed.copies.size();
  if (n == 1) f->r[ed.copies[0].first] = getO(f, ed.copies[0].second);
  else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = getO(f, ed.copies[i].second); for (size_t i = 0; i < n; i++) f->r[ed.copies[i].first] = t[i]; }
  f->pc = ed.target;
}
static void pushFrame(State &s, Fn *f, const std::vector<Val> &args, int32_t retReg, int retSlots, const CallInfo *ci) {
  decode(f);
  if ((int)s.st.size() > opt.maxDepth) { violation(s, "recursion", "call depth limit exceeded"); throw Kill(); }
  Frame *n = new Frame(); n->f = f; n->r.assign(f->nregs, CV(0)); n->retReg = retReg; n->retSlots = retSlots;
  f->calls_n++; fnCount[f]++;
  for (u32 i = 0; i < f->nargs && i < args.size(); i++) n->r[i] = args[i];
  if (ci) for (u32 i = 0; i < f->nargs && i < args.size(); i++) if (ci->byvalSize.size() > i && ci->byvalSize[i]) { u64 a = allocObj(s, ci->byvalSize[i], OF_STACK, 0); copyMem(s, a, args[i].c, ci->byvalSize[i]); n->allocas.push_back(a >> WIN); n->r[i] = CV(a); }
  if (f->vararg && args.size() > f->nargs) {
    u64 a = allocObj(s, 8 * (args.size() - f->nargs), OF_STACK, 0); n->allocas.push_back(a >> WIN); n->va = a;
    for (size_t i = f->nargs; i < args.size(); i++) {
      Val v = args[i]; unsigned w = ci ? ci->argw[i] : 64; if (v.e && w < 64) v = mkV(pool->mk(E_ZEXT, 64, v.e));
      storeV(s, a + 8 * (i - f->nargs), 64, v);
    }
  }
  s.st.push_back(n);
}
static std::string hexOf(const std::string &b) { std::string r; char t[3]; for (unsigned char c : b) { snprintf(t, 3, "%02x", c); r += t; } return r; }

// returns true if handled (result in out)
static int newSym(State &s) { if (s.dom.size() >= 64) { incomplete(s, "more than 64 symbolic bytes"); throw Kill(); } Dom d; for (auto &x : d.b) x = ~0ULL; s.dom.push_back(d); return s.dom.size() - 1; }
static uint8_t concByte(State &s) { size_t i = s.dom.size(); (void)i; return 0; }
static bool fastStr(State &s, int b, const std::vector<Val> &a, Val &out) {
  for (auto &v : a) if (v.e) return false;
  View x, y; if (!view(s, a[0].c, x)) return false;
  auto lc = [](uint8_t c) -> int { return c >= 'A' && c <= 'Z' ? c + 32 : c; };
  switch (b) {
  case B_STRLEN: for (u64 i = 0; i < x.n; i++) { if (x.sym && x.sym[i]) return false; if (!x.p[i]) { out = CV(i); return true; } } return false;
  case B_STRCHR: { uint8_t c = a[1].c; for (u64 i = 0; i < x.n; i++) { if (x.sym && x.sym[i]) return false; if (x.p[i] == c) { out = CV(a[0].c + i); return true; } if (!x.p[i]) { out = CV(0); return true; } } return false; }
  case B_STRCMP: case B_STRNCMP: case B_STRCASECMP: case B_STRNCASECMP: {
    if (!view(s, a[1].c, y)) return false; u64 lim = (b == B_STRNCMP || b == B_STRNCASECMP) ? a[2].c : ~0ULL; bool ci = b == B_STRCASECMP || b == B_STRNCASECMP;
    for (u64 i = 0; i < lim; i++) { if (i >= x.n || i >= y.n) return false; if ((x.sym && x.sym[i]) || (y.sym && y.sym[i])) return false; int p = x.p[i], q = y.p[i]; if (ci) p = lc(p), q = lc(q); if (p != q) { out = CV((u32)(p - q)); return true; } if (!p) break; }
    out = CV(0); return true; }
  case B_MEMCMP: { if (!view(s, a[1].c, y)) return false; u64 n = a[2].c; for (u64 i = 0; i < n; i++) { if (i >= x.n || i >= y.n) return false; if ((x.sym && x.sym[i]) || (y.sym && y.sym[i])) return false; if (x.p[i] != y.p[i]) { out = CV((u32)((int)x.p[i] - (int)y.p[i])); return true; } } out = CV(0); return true; }
  case B_STRSTR: {
    if (!view(s, a[1].c, y)) return false; u64 ln = 0; for (;; ln++) { if (ln >= y.n || (y.sym && y.sym[ln])) return false; if (!y.p[ln]) break; }
    u64 lx = 0; for (;; lx++) { if (lx >= x.n || (x.sym && x.sym[lx])) return false; if (!x.p[lx]) break; }
    void *r = ln ? memmem(x.p, lx, y.p, ln) : (void *)x.p; out = CV(r ? a[0].c + ((uint8_t *)r - x.p) : 0); return true; }
  }
  return false;
}
struct EndPath {};
static bool doBuiltin(State &s, Fn *f, const std::vector<Val> &a, Val &out, const Inst &in) {
  switch (f->builtin) {
  case B_MALLOC: out = CV(heapAlloc(s, conc(s, a[0]), 0xCD)); return true;
  case B_CALLOC: { u64 x = conc(s, a[0]), y = conc(s, a[1]); if (y && x > (1ULL << 40) / y) { out = CV(0); return true; } out = CV(heapAlloc(s, x * y, 0)); return true; }
  case B_REALLOC: { u64 p = conc(s, a[0]), n = conc(s, a[1]); if (!p) { out = CV(heapAlloc(s, n, 0xCD)); return true; } Obj *o = heapCheck(s, p, "realloc"); u64 os = o->size; if (!n) { objRef(FREED_TOMB); s.mem.set(p >> WIN, FREED_TOMB); out = CV(0); return true; } u64 q = heapAlloc(s, n, 0xCD); if (!q) { out = CV(0); return true; } copyMem(s, q, p, std::min(os, n)); objRef(FREED_TOMB); s.mem.set(p >> WIN, FREED_TOMB); out = CV(q); return true; }
  case B_FREE: { u64 p = conc(s, a[0]); if (!p) return true; heapCheck(s, p, "free"); objRef(FREED_TOMB); s.mem.set(p >> WIN, FREED_TOMB); return true; }
  case B_MEMCPY: { u64 d = conc(s, a[0]), q = conc(s, a[1]), n = conc(s, a[2]); copyMem(s, d, q, n); out = CV(d); return true; }
  case B_MEMSET: { u64 d = conc(s, a[0]), n = conc(s, a[2]); if (n) { u64 off, id; Obj *o = access(s, d, n, true, off, id); if (!a[1].e) { memset(o->data + off, (int)a[1].c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(void *)); } else for (u64 i = 0; i < n; i++) storeV(s, d + i, 8, mkV(pool->mk(E_EXTRACT, 8, a[1].e))); } out = CV(d); return true; }
  case B_ABORT: violation(s, "abort", "abort() called"); throw Kill();
  case B_EXIT: throw EndPath();
  case B_SYM: { u64 p = conc(s, a[0]), n = conc(s, a[1]); u64 off, id; access(s, p, n, true, off, id); if (s.dom.size() + n > 64) { incomplete(s, "more than 64 symbolic bytes"); throw Kill(); } for (u64 i = 0; i < n; i++) { int k = newSym(s); if (opt.concrete) { u64 v = 0; if (opt.concreteHex.size() >= 2 * (size_t)(k + 1)) v = strtoul(opt.concreteHex.substr(2 * k, 2).c_str(), 0, 16); memset(s.dom[k].b, 0, 32); s.dom[k].b[v >> 6] |= 1ULL << (v & 63); storeV(s, p + i, 8, CV(v)); } else storeV(s, p + i, 8, Val{0, pool->syms[k]}); } return true; }
  case B_RESTRICT: case B_EXCLUDE: { u64 p = conc(s, a[0]), n = conc(s, a[1]), sp = conc(s, a[2]), sn = conc(s, a[3]); Dom m = {{0, 0, 0, 0}}; for (u64 i = 0; i < sn; i++) { uint8_t b; if (peek(s, sp + i, b)) m.b[b >> 6] |= 1ULL << (b & 63); } if (f->builtin == B_EXCLUDE) for (auto &x : m.b) x = ~x;
    for (u64 i = 0; i < n; i++) { Val v = loadV(s, p + i, 8); if (!v.e) { if (!domHas(m, v.c)) throw Kill(); continue; } if (v.e->op != E_SYM) continue; Dom &d = s.dom[v.e->sym]; for (int q = 0; q < 4; q++) d.b[q] &= m.b[q]; if (domFirst(d) < 0) { S.assumeKilled++; throw Kill(); } } return true; }
  case B_CHOICE: { // n alternatives; introduced as a symbolic byte and forked per value
    u64 n = conc(s, a[0]); u64 mine = 0; if (n > 256) { incomplete(s, "sv_choice of more than 256"); throw Kill(); } if (s.dom.size() >= 64) { incomplete(s, "more than 64 symbolic bytes"); throw Kill(); }
    if (opt.concrete) { int k = newSym(s); u64 v = 0; if (opt.concreteHex.size() >= 2 * (size_t)(k + 1)) v = strtoul(opt.concreteHex.substr(2 * k, 2).c_str(), 0, 16); memset(s.dom[k].b, 0, 32); s.dom[k].b[v >> 6] |= 1ULL << (v & 63); out = CV(v); return true; }
    Frame *fr = s.st.back();
    for (u64 i = n; i-- > 1;) { State *o = cloneState(s); int k = newSym(*o); Dom &d = o->dom[k]; memset(&d, 0, sizeof d); d.b[i >> 6] = 1ULL << (i & 63); Frame *g = o->st.back(); if (in.dst >= 0) g->r[in.dst] = CV(i); g->pc++; o->depth++; work.push_back(o); }
    (void)fr; int k = newSym(s); Dom &d = s.dom[k]; memset(&d, 0, sizeof d); d.b[0] = 1; out = CV(mine); return true; }
  case B_ASSUME: { Val c = a[0]; if (c.e) c = mkV(pool->mk(E_NE, 1, toE(c, 32), pool->mkConst(0, 32))); else c = CV(c.c != 0); bool r = decide(s, c); if (!r) { S.assumeKilled++; throw Kill(); } return true; }
  case B_ASSERT: {
    S.asserts++; std::string msg = cstr(s, a[1].c);
    if (!a[0].e) { if (!(u32)a[0].c) { violation(s, "assert", msg); throw Kill(); } return true; }
    const Expr *c = pool->mk(E_NE, 1, a[0].e, pool->mkConst(0, a[0].e->width)); c = simplify(s, c);
    if (c->op == E_CONST) { if (!c->c) { violation(s, "assert", msg); throw Kill(); } return true; }
    S.symAsserts++; int r = zcheck(s, 0, c, false, nullptr);
    if (r < 0) { incomplete(s, "solver-unknown"); throw Kill(); }
    if (r == 1) { violation(s, "assert", msg, c, false); if (zcheck(s, 0, c, true, nullptr) != 1) throw Kill(); }
    addCons(s, c, true); return true; }
  case B_ASSERT_EQ: {
    S.asserts++; u64 p = conc(s, a[0]), q = conc(s, a[1]), n = conc(s, a[2]); std::string msg = cstr(s, a[3].c);
    const Expr *all = nullptr; bool ident = true; u64 sup = 0; std::vector<std::pair<const Expr *, const Expr *>> prs;
    for (u64 i = 0; i < n; i++) { Val x = loadV(s, p + i, 8), y = loadV(s, q + i, 8); if (!x.e && !y.e) { if (x.c != y.c) { violation(s, "assert", msg); throw Kill(); } continue; }
      prs.push_back({toE(x, 8), toE(y, 8)}); sup |= prs.back().first->support | prs.back().second->support;
      if (x.e == y.e) continue;
      const Expr *c = simplify(s, pool->mk(E_EQ, 1, toE(x, 8), toE(y, 8))); if (c->op == E_CONST) { if (!c->c) { violation(s, "assert", msg); throw Kill(); } continue; }
      ident = false; all = all ? pool->mk(E_AND, 1, all, c) : c; }
    if (all && all->op == E_CONST) { if (!all->c) { violation(s, "assert", msg); throw Kill(); } all = nullptr; }
    if (all) { S.symAsserts++; int r = zcheck(s, 0, all, false, nullptr); if (r < 0) { incomplete(s, "solver-unknown"); throw Kill(); } if (r == 1) { violation(s, "assert", msg, all, false); throw Kill(); } }
    else if (!prs.empty() && (S.symAsserts < 2000 || S.asserts % 16 == 0)) { S.symAsserts++; if (zcheckPairs(s, sup, prs) == 1) { violation(s, "assert", msg); throw Kill(); } }
    return true; }
  case B_FAIL: S.asserts++; violation(s, "assert", cstr(s, a[0].c)); throw Kill();
  case B_COVER: { std::string n = cstr(s, a[0].c); size_t i = 0; for (; i < coverNames.size(); i++) if (coverNames[i] == n) break; if (i == coverNames.size()) coverNames.push_back(n); if (i < 32) s.covers |= 1u << i; return true; }
  case B_EMIT: { auto n = std::make_shared<EmitNode>(); n->next = s.emits; n->r.name = cstr(s, a[0].c); u64 p = conc(s, a[1]), len = conc(s, a[2]); for (u64 i = 0; i < len; i++) n->r.bytes.push_back(loadV(s, p + i, 8)); s.emits = n; return true; }
  case B_CONC: out = CV(conc(s, a[0])); return true;
  case B_PARAM: { u64 p = allocObj(s, opt.param.size() + 1, OF_GLOBAL, 0); for (size_t i = 0; i < opt.param.size(); i++) storeV(s, p + i, 8, CV((uint8_t)opt.param[i])); out = CV(p); return true; }
  case B_OBJSIZE: { u64 p = conc(s, a[0]); Obj *o = s.mem.get(p >> WIN); out = CV(o ? o->size : 0); return true; }
  case B_PRINT: if (opt.verbose) errs() << "PRINT " << cstr(s, a[0].c) << " " << (a[1].e ? -1 : (int64_t)a[1].c) << "\n"; return true;
  }
  return false;
}
static bool doIntrinsic(State &s, const CallInfo &ci, const std::vector<Val> &a, Val &out, Val &out2, const Inst &in) {
  unsigned w = ci.retw;
  auto cmpsel = [&](uint8_t op) { Val c = a[0].e || a[1].e ? mkV(pool->mk(op, 1, toE(a[0], w), toE(a[1], w))) : CV(evalOp(op, 1, w, a[0].c, a[1].c, 0, 0)); if (!c.e) { out = c.c ? a[0] : a[1]; return; } out = mkV(pool->mk(E_ITE, w, c.e, toE(a[0], w), toE(a[1], w))); };
  switch (ci.iid) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 d = conc(s, a[0]), q = conc(s, a[1]), n = conc(s, a[2]); copyMem(s, d, q, n); return true; }
  case Intrinsic::memset: { Fn t; t.builtin = B_MEMSET; Val o; std::vector<Val> b = a; if (b[1].e) b[1] = mkV(pool->mk(E_ZEXT, 32, b[1].e)); return doBuiltin(s, &t, b, o, in); }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::vaend: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: return true;
  case Intrinsic::stacksave: out = CV(0); return true;
  case Intrinsic::expect: out = a[0]; return true;
  case Intrinsic::is_constant: out = CV(0); return true;
  case Intrinsic::objectsize: out = CV(~0ULL & maskw(w)); return true;
  case Intrinsic::vastart: { u64 p = a[0].c; storeV(s, p, 32, CV(48)); storeV(s, p + 4, 32, CV(176)); storeV(s, p + 8, 64, CV(s.st.back()->va)); storeV(s, p + 16, 64, CV(0)); return true; }
  case Intrinsic::vacopy: copyMem(s, a[0].c, a[1].c, 24); return true;
  case Intrinsic::smax: cmpsel(E_SLT); if (!out.e) { } { Val c = binop(E_SLT, 1, w, a[0], a[1]); if (!c.e) out = c.c ? a[1] : a[0]; else out = mkV(pool->mk(E_ITE, w, c.e, toE(a[1], w), toE(a[0], w))); } return true;
  case Intrinsic::smin: cmpsel(E_SLT); return true;
  case Intrinsic::umin: cmpsel(E_ULT); return true;
  case Intrinsic::umax: { Val c = binop(E_ULT, 1, w, a[0], a[1]); if (!c.e) out = c.c ? a[1] : a[0]; else out = mkV(pool->mk(E_ITE, w, c.e, toE(a[1], w), toE(a[0], w))); return true; }
  case Intrinsic::abs: { Val c = binop(E_SLT, 1, w, a[0], CV(0)); Val n = binop(E_SUB, w, w, CV(0), a[0]); if (!c.e) out = c.c ? n : a[0]; else out = mkV(pool->mk(E_ITE, w, c.e, toE(n, w), toE(a[0], w))); return true; }
  case Intrinsic::usub_sat: { Val c = binop(E_ULT, 1, w, a[0], a[1]); Val n = binop(E_SUB, w, w, a[0], a[1]); if (!c.e) out = c.c ? CV(0) : n; else out = mkV(pool->mk(E_ITE, w, c.e, pool->mkConst(0, w), toE(n, w))); return true; }
  case Intrinsic::umul_with_overflow: { u64 x = conc(s, a[0]), y = conc(s, a[1]); unsigned __int128 m = (unsigned __int128)x * y; unsigned bw = ci.argw[0]; out = CV((u64)m & maskw(bw)); out2 = CV(m > maskw(bw)); return true; }
  case Intrinsic::uadd_with_overflow: { u64 x = conc(s, a[0]), y = conc(s, a[1]); unsigned __int128 m = (unsigned __int128)x + y; unsigned bw = ci.argw[0]; out = CV((u64)m & maskw(bw)); out2 = CV(m > maskw(bw)); return true; }
  case Intrinsic::fshl: { u64 x = conc(s, a[0]), y = conc(s, a[1]), k = conc(s, a[2]) % w; out = CV(k ? ((x << k) | (y >> (w - k))) & maskw(w) : x); return true; }
  case Intrinsic::fshr: { u64 x = conc(s, a[0]), y = conc(s, a[1]), k = conc(s, a[2]) % w; out = CV(k ? ((x << (w - k)) | (y >> k)) & maskw(w) : y); return true; }
  case Intrinsic::bswap: { u64 x = conc(s, a[0]); out = CV(w == 64 ? __builtin_bswap64(x) : w == 32 ? __builtin_bswap32(x) : __builtin_bswap16(x)); return true; }
  case Intrinsic::ctpop: out = CV(__builtin_popcountll(conc(s, a[0]))); return true;
  case Intrinsic::ctlz: { u64 x = conc(s, a[0]); out = CV(x ? __builtin_clzll(x) - (64 - w) : w); return true; }
  case Intrinsic::cttz: { u64 x = conc(s, a[0]); out = CV(x ? __builtin_ctzll(x) : w); return true; }
  case Intrinsic::fmuladd: out = CV(fromD(asD(a[0].c, w) * asD(a[1].c, w) + asD(a[2].c, w), w)); return true;
  case Intrinsic::fabs: out = CV(fromD(__builtin_fabs(asD(a[0].c, w)), w)); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: violation(s, "trap", "trap"); throw Kill();
  default: return false;
  }
}

static void step(State &s) { // executes until the path ends (throws) ; periodically checks limits
  for (;;) {
    Frame *f = s.st.back(); const Inst &in = f->f->code[f->pc];
    if (++s.instr > opt.maxInstr) { violation(s, "hang", "instruction limit exceeded"); throw Kill(); }
    S.instrs++;
    if ((S.instrs & 0xfffff) == 0 && nowS() > deadline) { stopAll = true; incomplete(s, "time budget"); throw Kill(); }
    switch (in.op) {
    case I_BIN: {
      Val a = getO(f, in.a), b = getO(f, in.b);
      if (in.sub >= E_UDIV && in.sub <= E_SREM) { Val z = binop(E_EQ, 1, in.w, b, CV(0)); if (decide(s, z)) { violation(s, "div0", "division by zero"); throw Kill(); } }
      f->r[in.dst] = binop(in.sub, in.w, in.w, a, b); f->pc++; break; }
    case I_CMP: { Val a = getO(f, in.a), b = getO(f, in.b); f->r[in.dst] = binop(in.sub, 1, in.w2, a, b); f->pc++; break; }
    case I_CAST: { Val a = getO(f, in.a); if (!a.e) f->r[in.dst] = CV(evalOp(in.sub, in.w, in.w2, a.c, 0, 0, 0)); else f->r[in.dst] = mkV(pool->mk(in.sub, in.w, a.e)); f->pc++; break; }
    case I_COPY: if (in.n == 1) f->r[in.dst] = getO(f, in.a); else { std::vector<Val> t; for (int i = 0; i < in.n; i++) t.push_back(in.a >= 0 ? f->r[in.a + i] : f->f->consts[~in.a]); for (int i = 0; i < in.n; i++) f->r[in.dst + i] = t[i]; } f->pc++; break;
    case I_INSERT: { CallInfo &ci = f->f->calls[in.aux]; std::vector<Val> t; for (auto o : ci.args) t.push_back(getO(f, o)); for (size_t i = 0; i < t.size(); i++) f->r[in.dst + i] = t[i]; f->pc++; break; }
    case I_SELECT: {
      Val c = getO(f, in.a), a = getO(f, in.b), b = getO(f, in.c);
      if (!c.e) { f->r[in.dst] = (c.c & 1) ? a : b; f->pc++; break; }
      u64 sup = c.e->support | (a.e ? a.e->support : 0) | (b.e ? b.e->support : 0);
      if (in.w == 1 || (sup & (sup - 1)) == 0) { f->r[in.dst] = mkV(pool->mk(E_ITE, in.w, c.e, toE(a, in.w), toE(b, in.w))); f->pc++; break; }
      bool t = decide(s, c); f->r[in.dst] = t ? a : b; f->pc++; break; }
    case I_LOAD: {
      Val p = getO(f, in.a);
      if (p.e) {
        const Expr *e = p.e->unary ? p.e : simplify(s, p.e);
        if (e->op == E_CONST) p = CV(e->c);
        else if (e->unary && in.w >= 8) {
          const Dom &d = s.dom[e->sym]; u64 tab[256]; memset(tab, 0, sizeof tab); bool ok = true; u64 id0 = ~0ULL; unsigned n = in.w / 8;
          for (int q = 0; q < 4 && ok; q++) for (u64 b = d.b[q]; b; b &= b - 1) {
            int i = q * 64 + __builtin_ctzll(b); u64 ad = e->tab[i]; if (id0 == ~0ULL) id0 = ad >> WIN; View v; if ((ad >> WIN) != id0 || !view(s, ad, v) || v.n < n) { ok = false; break; }
            for (unsigned k = 0; k < n; k++) if (v.sym && v.sym[k]) { ok = false; break; } if (!ok) break;
            u64 x = 0; memcpy(&x, v.p, n); tab[i] = x; }
          if (ok) { f->r[in.dst] = mkV(pool->internTab(e->sym, in.w, tab, E_TAB, 0, nullptr, nullptr, nullptr)); f->pc++; break; }
          p = CV(conc(s, p));
        } else p = CV(conc(s, p));
      }
      f->r[in.dst] = loadV(s, p.c, in.w); f->pc++; break; }
    case I_STORE: { Val p = getO(f, in.a); u64 ad = p.e ? conc(s, p) : p.c; storeV(s, ad, in.w, getO(f, in.b)); f->pc++; break; }
    case I_GEP: {
      GepInfo &g = f->f->geps[in.aux]; Val p = getO(f, in.a); bool sy = p.e; u64 off = g.off;
      if (!sy) { u64 ad = p.c + off; for (auto &ix : g.idx) { Val v = getO(f, ix.o); if (v.e) { sy = true; break; } ad += (u64)sextw(v.c, ix.w) * ix.scale; } if (!sy) { f->r[in.dst] = CV(ad); f->pc++; break; } }
      Val r = binop(E_ADD, 64, 64, p, CV(off));
      for (auto &ix : g.idx) { Val v = getO(f, ix.o); if (v.e) { const Expr *e = pool->mk(E_SEXT, 64, v.e); e = pool->mk(E_MUL, 64, e, pool->mkConst(ix.scale, 64)); v = mkV(e); } else v = CV((u64)sextw(v.c, ix.w) * ix.scale); r = binop(E_ADD, 64, 64, r, v); }
      f->r[in.dst] = r; f->pc++; break; }
    case I_ALLOCA: { u64 n = conc(s, getO(f, in.a)); u64 a = allocObj(s, n * in.aux, OF_STACK, 0xCD); f->allocas.push_back(a >> WIN); f->r[in.dst] = CV(a); f->pc++; break; }
    case I_BR: takeEdge(f, in.aux); break;
    case I_CONDBR: { Val c = getO(f, in.a); bool t = c.e ? decide(s, c) : (c.c & 1); takeEdge(f, t ? in.aux : in.b); break; }
    case I_SWITCH: {
      SwitchInfo &si = f->f->switches[in.aux]; Val v = getO(f, in.a);
      if (v.e) { const Expr *e = v.e->unary ? v.e : simplify(s, v.e); if (e->op == E_CONST) v = CV(e->c); else v = Val{0, e}; }
      if (!v.e) { u32 t = si.def; for (auto &c : si.cases) if (c.first == v.c) { t = c.second; break; } takeEdge(f, t); break; }
      if (v.e->unary) {
        // group by successor
        const Expr *e = v.e; u64 tab[256]; for (int i = 0; i < 256; i++) { u32 t = si.def; for (auto &c : si.cases) if (c.first == e->tab[i]) { t = c.second; break; } tab[i] = t; }
        const Expr *te = pool->internTab(e->sym, 32, tab, E_TAB, 0, nullptr, nullptr, nullptr);
        u64 t = te->op == E_CONST ? te->c : conc(s, Val{0, te}); takeEdge(f, t); break;
      }
      bool done = false; for (auto &c : si.cases) { Val q = binop(E_EQ, 1, in.w2, v, CV(c.first)); if (decide(s, q)) { takeEdge(f, c.second); done = true; break; } }
      if (!done) takeEdge(f, si.def); break; }
    case I_RET: {
      Val rv[16]; int n = in.n; if (n > 16) n = 16; if (n) { CallInfo &ci = f->f->calls[in.aux]; for (int i = 0; i < n; i++) rv[i] = getO(f, ci.args[i]); }
      for (u32 id : f->allocas) { objRef(FREED_TOMB); s.mem.set(id, FREED_TOMB); }
      int32_t rr = f->retReg; s.st.pop_back(); if (--f->rc == 0) delete f;
      if (s.st.empty()) throw EndPath();
      s.own(); f = s.st.back(); if (rr >= 0) for (int i = 0; i < n; i++) f->r[rr + i] = rv[i];
      break; }
    case I_UNREACHABLE: violation(s, "unreachable", "unreachable code reached"); throw Kill();
    case I_CALL: {
      CallInfo &ci = f->f->calls[in.aux]; Fn *cal = ci.callee; std::vector<Val> args; args.reserve(ci.args.size());
      for (auto o : ci.args) args.push_back(getO(f, o));
      if (ci.indirect) { u64 p = conc(s, getO(f, ci.fp)); auto it = fnByAddr.find(p); if (it == fnByAddr.end()) { violation(s, "memory", "call through invalid function pointer"); throw Kill(); } cal = it->second; }
      Val out = CV(0), out2 = CV(0);
      if (ci.iid != Intrinsic::not_intrinsic) {
        if (!doIntrinsic(s, ci, args, out, out2, in)) { incomplete(s, "intrinsic " + cal->name); throw Kill(); }
        f = s.st.back(); if (in.dst >= 0) { f->r[in.dst] = out; if (in.n > 1) f->r[in.dst + 1] = out2; } f->pc++; break;
      }
      if (cal->builtin >= B_STRLEN && cal->builtin <= B_STRNCASECMP) { if (fastStr(s, cal->builtin, args, out)) { if (in.dst >= 0) f->r[in.dst] = out; f->pc++; break; } }
      else if (cal->builtin) { if (doBuiltin(s, cal, args, out, in)) { f = s.st.back(); if (in.dst >= 0) f->r[in.dst] = out; f->pc++; break; } }
      if (cal->F->isDeclaration()) { incomplete(s, "external " + cal->name); throw Kill(); }
      f->pc++;
      pushFrame(s, cal, args, in.dst, in.n, &ci); break; }
    case I_FBIN: {
      double x = asD(conc(s, getO(f, in.a)), in.w), y = asD(conc(s, getO(f, in.b)), in.w), r = 0;
      switch (in.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = __builtin_fmod(x, y); break; case 255: r = -x; break; }
      f->r[in.dst] = CV(fromD(r, in.w)); f->pc++; break; }
    case I_FCMP: {
      double x = asD(conc(s, getO(f, in.a)), in.w2), y = asD(conc(s, getO(f, in.b)), in.w2); bool un = x != x || y != y, r = false;
      switch (in.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_TRUE: r = true; break; }
      f->r[in.dst] = CV(r); f->pc++; break; }
    case I_FCAST: {
      u64 v = conc(s, getO(f, in.a)), r = 0;
      switch (in.sub) { case Instruction::FPToUI: r = (u64)asD(v, in.w2); break; case Instruction::FPToSI: r = (u64)(int64_t)asD(v, in.w2); break; case Instruction::UIToFP: r = fromD((double)v, in.w); break; case Instruction::SIToFP: r = fromD((double)sextw(v, in.w2), in.w); break; case Instruction::FPTrunc: case Instruction::FPExt: r = fromD(asD(v, in.w2), in.w); break; default: incomplete(s, "fcast"); throw Kill(); }
      f->r[in.dst] = CV(r & maskw(in.w)); f->pc++; break; }
    default: { std::string t; raw_string_ostream os(t); os << *in.I; incomplete(s, "unsupported instruction " + t.substr(0, 60)); throw Kill(); }
    }
  }
}
static void runOne(State *s) {
  try { step(*s); } catch (Kill &) {} catch (EndPath &) { endPath(*s); } catch (z3::exception &e) { incomplete(*s, std::string("z3: ") + e.msg()); }
  delete s;
}

// ---------------------------------------------------------------- output
static std::string js(const std::string &x) { std::string r = "\""; char t[8]; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(t, 8, "\\u%04x", c); r += t; } else r += c; } return r + "\""; }
static void dump(FILE *o) {
  fprintf(o, "{\"paths\":%llu,\"instrs\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.4f,\"asserts\":%llu,\"sym_asserts\":%llu,\"assume_killed\":%llu,\"incomplete\":%llu,\"rel_paths\":%llu,\"dom_mismatch\":%llu,\"inputs\":%.17g,\"viol_total\":%llu,\"work_left\":%zu,\"stopped\":%d",
    (unsigned long long)S.paths, (unsigned long long)S.instrs, (unsigned long long)S.forks, (unsigned long long)S.queries, (unsigned long long)S.sat, (unsigned long long)S.unsat, (unsigned long long)S.unknown, S.solverS, (unsigned long long)S.asserts, (unsigned long long)S.symAsserts, (unsigned long long)S.assumeKilled, (unsigned long long)S.incomplete, (unsigned long long)S.relPaths, (unsigned long long)S.domMismatch, S.inputs, (unsigned long long)violTotal, work.size(), (int)stopAll);
  fprintf(o, ",\"violations\":["); bool c = false; for (auto &v : viols) { std::string b((char *)v.in.data(), v.in.size()); fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"input\":\"%s\"}", c ? "," : "", js(v.kind).c_str(), js(v.msg).c_str(), js(v.loc).c_str(), js(v.stack).c_str(), hexOf(b).c_str()); c = true; }
  fprintf(o, "],\"samples\":["); c = false; for (auto &q : samples) { std::string b((char *)q.in.data(), q.in.size()); fprintf(o, "%s{\"input\":\"%s\",\"emits\":[", c ? "," : "", hexOf(b).c_str()); c = true; bool d = false; for (auto &e : q.emits) { fprintf(o, "%s[%s,\"%s\"]", d ? "," : "", js(e.first).c_str(), hexOf(e.second).c_str()); d = true; } fprintf(o, "]}"); }
  fprintf(o, "],\"covers\":{"); c = false; for (auto &p : coverCount) { fprintf(o, "%s%s:%llu", c ? "," : "", js(p.first).c_str(), (unsigned long long)p.second); c = true; }
  fprintf(o, "},\"incomplete_why\":{"); c = false; for (auto &p : incompleteWhy) { fprintf(o, "%s%s:%llu", c ? "," : "", js(p.first).c_str(), (unsigned long long)p.second); c = true; }
  fprintf(o, "},\"functions\":["); c = false; for (auto &p : fnCount) if (p.first->fromRepo) { fprintf(o, "%s%s", c ? "," : "", js(p.first->name).c_str()); c = true; }
  fprintf(o, "]}\n"); fflush(o);
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") opt.entry = nx(); else if (a == "--time") opt.timeS = atof(nx().c_str()); else if (a == "--max-instr") opt.maxInstr = strtoull(nx().c_str(), 0, 10);
    else if (a == "--workers") opt.workers = atoi(nx().c_str()); else if (a == "--max-viol") opt.maxViol = atoi(nx().c_str()); else if (a == "--samples") opt.samples = atoi(nx().c_str());
    else if (a == "--param") opt.param = nx(); else if (a == "--seed") opt.seed = strtoull(nx().c_str(), 0, 10); else if (a == "-v") opt.verbose = true; else if (a == "--max-depth") opt.maxDepth = atoi(nx().c_str());
    else if (a == "--concrete") { opt.concrete = true; opt.concreteHex = nx(); }
    else opt.file = a;
  }
  { struct rlimit rl; rl.rlim_cur = rl.rlim_max = 6ULL << 30; setrlimit(RLIMIT_AS, &rl); }
  rng = opt.seed * 0x9E3779B97F4A7C15ULL + 1;
  pool = new ExprPool();
  loadModule();
  auto it = fnByName.find(opt.entry);
  if (it == fnByName.end() || it->second->F->isDeclaration()) { fprintf(stderr, "apexsym: no entry %s\n", opt.entry.c_str()); return 4; }
  deadline = nowS() + opt.timeS;
  State *s0 = new State(); s0->mem.~Mem(); new (&s0->mem) Mem(baseMem);
  try { pushFrame(*s0, it->second, {}, -1, 0, nullptr); } catch (Kill &) { return 5; }
  work.push_back(s0);
  auto drain = [&]() { while (!work.empty() && !stopAll) { if (nowS() > deadline) { stopAll = true; break; } State *s = work.back(); work.pop_back(); runOne(s); } };
  if (opt.workers <= 1) { drain(); dump(stdout); return 0; }
  // breadth-first until the frontier is wide enough, then fork workers over it
  std::deque<State *> fr; size_t want = opt.workers * 24; double bfsEnd = nowS() + 5;
  while (!work.empty() && work.size() < want && !stopAll && nowS() < bfsEnd) { State *s = work.front(); work.erase(work.begin()); runOne(s); std::stable_sort(work.begin(), work.end(), [](State *a, State *b) { return a->depth < b->depth; }); }
  if (work.empty() || stopAll) { dump(stdout); return 0; }
  auto *ctr = (std::atomic<u64> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ctr->store(0);
  dump(stdout); // parent's own part
  std::vector<State *> frontier = work; work.clear();
  std::vector<std::pair<pid_t, FILE *>> kids; zc = nullptr; zs = nullptr; zmemo = nullptr;
  fflush(stdout);
  for (int w = 0; w < opt.workers; w++) {
    FILE *tf = tmpfile(); pid_t p = fork();
    if (p == 0) {
      S = Stats(); viols.clear(); samples.clear(); coverCount.clear(); incompleteWhy.clear(); violTotal = 0; rng += w * 7919 + 1; opt.samples = std::max(4, opt.samples / opt.workers);
      for (;;) { u64 i = ctr->fetch_add(1); if (i >= frontier.size() || stopAll) break; if (nowS() > deadline) { stopAll = true; work.push_back(nullptr); break; } work.push_back(frontier[i]); drain(); }
      u64 left = ctr->load() < frontier.size() ? 1 : 0; (void)left;
      dump(tf); fflush(tf); _exit(0);
    }
    kids.push_back({p, tf});
  }
  for (auto &k : kids) { int st; waitpid(k.first, &st, 0); rewind(k.second); char buf[65536]; size_t n, tot = 0; while ((n = fread(buf, 1, sizeof buf, k.second)) > 0) { fwrite(buf, 1, n, stdout); tot += n; } if (!tot || !WIFEXITED(st)) printf("{\"worker_died\":1}\n"); }
  return 0;
}
