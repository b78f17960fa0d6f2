// symx: symbolic executor for LLVM 18 bitcode with z3.  See /verif/DESIGN.md.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <dlfcn.h>
#include <signal.h>
#include <fcntl.h>
#include <atomic>
#include <new>
#include <typeinfo>
#include <stdexcept>
#include <functional>
#include <setjmp.h>
using namespace llvm;

extern unsigned long g_rlimit;
static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }

// ------------------------------------------------------------------ shared state
struct Shared {
  std::atomic<int> tokens; std::atomic<long> paths, rejected, assumed, forks, queries, qsat, qunsat, qunknown, qcached, solver_us, asserts, asserts_solver, insts, unsupported, concretized, crashed, timeouts, trunc;
  std::atomic<int> violations; std::atomic<int> stop; std::atomic<int> traces; std::atomic<int> nmsg; std::atomic<long> maxprocs, procs;
  char msg[64][400];
  std::atomic<long> reach[256]; char reachname[256][64]; std::atomic<int> nreach;
  std::atomic<long> bracnt;
};
static Shared *sh;
static u8 *funcHit; // shared bitmap of executed functions
static std::string outdir = "."; static int optRanks = 1; static int optMaxViol = 6; static double deadline = 0; static int optTraces = 0; static int optTokens = 8; static long optMaxPaths = -1; static u64 optMaxInst = 0; static bool optIteLoads = false; static std::string optReject;
static std::vector<long> optArgs; // harness parameters
static bool verbose = false;
static void note(const std::string &s) {
  for (int i = 0; i < std::min(64, (int)sh->nmsg); i++) if (!strncmp(sh->msg[i], s.c_str(), 399)) return;
  int k = sh->nmsg++; if (k < 64) { strncpy(sh->msg[k], s.c_str(), 399); } else sh->nmsg = 64;
  if (verbose) fprintf(stderr, "[symx] %s\n", s.c_str());
}

// ------------------------------------------------------------------ memory
static const u64 ARENA = 0x100000000000ull; static const u64 ARENA_SZ = 12ull << 30;
static u32 *gran; struct SymCell { Expr *e[8]; u8 k[8]; }; static SymCell **shadow;
struct Obj { u64 base, size; bool alive, hasSym, heap, ro; u8 kind; const char *name; };
static std::vector<Obj> objs; static std::vector<u32> freeObjs;
static u64 heapTop, heapEnd;
static inline bool inArena(u64 a) { return a - ARENA < ARENA_SZ; }
static inline u32 &granOf(u64 a) { return gran[(a - ARENA) >> 4]; }
static inline SymCell *&cellOf(u64 a) { return shadow[(a - ARENA) >> 3]; }
static void initMem() {
  auto mm = [](u64 at, u64 sz) { void *p = mmap((void *)at, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; };
  mm(ARENA, ARENA_SZ); gran = (u32 *)mm(0, ARENA_SZ / 4); shadow = (SymCell **)mm(0, ARENA_SZ);
  objs.push_back({0, 0, false, false, false, false, 0, "null"});
  heapTop = ARENA + 65536; heapEnd = ARENA + (8ull << 30);
}
static u32 newObj(u64 base, u64 size, u8 kind, const char *name, bool heap) {
  u32 id; if (!freeObjs.empty()) { id = freeObjs.back(); freeObjs.pop_back(); } else { id = objs.size(); objs.push_back(Obj()); }
  objs[id] = {base, size, true, false, heap, false, kind, name};
  u64 n = (size + 15) / 16; u32 *g = &granOf(base); for (u64 i = 0; i < n; i++) g[i] = id;
  return id;
}
static void clearShadow(u64 base, u64 size) { for (u64 a = base & ~7ull; a < base + size; a += 8) if (cellOf(a)) cellOf(a) = nullptr; }
static u64 heapAlloc(u64 size, u64 align, const char *name, u8 fill) {
  if (align < 16) align = 16;
  u64 b = (heapTop + align - 1) & ~(align - 1); u64 n = (size + 15) & ~15ull; if (n == 0) n = 16;
  if (size > (4ull << 30) || b + n + 32 > heapEnd) return 0;
  heapTop = b + n + 32; // red zone
  u32 id = newObj(b, size, 1, name, true); if (size == 0) granOf(b) = id;
  memset((void *)b, fill, n); return b;
}
static Obj *objAt(u64 a) { if (!inArena(a)) return nullptr; u32 g = granOf(a); return g ? &objs[g] : nullptr; }
// native side frees of arena pointers
static bool arenaFree(u64 a) { Obj *o = objAt(a); if (o && o->base == a && o->alive) { o->alive = false; if (o->size > (1 << 20)) madvise((void *)((a + 4095) & ~4095ull), (o->size - 4096) & ~4095ull, MADV_DONTNEED); return true; } return false; }
void operator delete(void *p) noexcept { if (inArena((u64)p)) arenaFree((u64)p); else free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------------ path condition
static std::vector<Expr *> PC; std::vector<Expr *> g_side;
static bool inconclusivePath = false;
[[noreturn]] static void endPath(int kind); // 0 complete 1 rejected 2 assume 3 violation/stop 4 unsupported 5 timeout
struct QKey { std::vector<u32> k; bool operator==(const QKey &o) const { return k == o.k; } };
struct QH { size_t operator()(const QKey &q) const { u64 h = 1469598103934665603ull; for (u32 x : q.k) { h ^= x; h *= 1099511628211ull; } return h; } };
struct QRes { SatRes r; };
static std::unordered_map<QKey, QRes, QH> qcache;
static void sliceFor(Expr *c, std::vector<Expr *> &out) {
  std::set<u32> vs(c->vs->v.begin(), c->vs->v.end()); std::vector<bool> used(PC.size(), false); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < PC.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : PC[i]->vs->v) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = true; ch = true; vs.insert(PC[i]->vs->v.begin(), PC[i]->vs->v.end()); } } }
  for (size_t i = 0; i < PC.size(); i++) if (used[i]) out.push_back(PC[i]);
}
static double optQueryTimeout = 60; // wall seconds, enforced by rlimit only
static SatRes query(Expr *c, Model *m) {
  std::vector<Expr *> cs; sliceFor(c, cs); cs.push_back(c);
  QKey k; for (Expr *e : cs) k.k.push_back(e->id); std::sort(k.k.begin(), k.k.end());
  auto it = qcache.find(k);
  if (it != qcache.end() && (it->second.r == UNSAT || (it->second.r == UNKNOWN) || !m)) { sh->qcached++; return it->second.r; }
  double t = now(); Model mm; if (m) mm = *m; SatRes r = solveConj(cs, &mm, false); double el = now() - t;
  sh->queries++; sh->solver_us += (long)(el * 1e6); if (r == SAT) sh->qsat++; else if (r == UNSAT) sh->qunsat++; else { sh->qunknown++; }
  if (verbose && el > 2) fprintf(stderr, "[symx] slow query %.1fs -> %d (%zu constraints) %s\n", el, r, cs.size(), exprStr(c, 4).c_str());
  if (r == SAT && m) *m = mm;
  qcache[k] = {r}; return r;
}
static void addKnown(Expr *c, bool val) {
  // c is an i1 expression known to equal val
  g_known[c->id] = val;
  Val n = vNot(Val{0, c}); if (n.s) g_known[n.s->id] = !val;
  if (val && c->op == EQ) { if (c->b->op == CONST) g_known[c->a->id] = c->b->cv; else if (c->a->op == CONST) g_known[c->b->id] = c->a->cv; }
  if (val && c->op == FEQ && !g_ieee) { if (c->b->op == FCONST) g_known[c->a->id] = c->b->cv; else if (c->a->op == FCONST) g_known[c->b->id] = c->a->cv; }
  if (val && c->op == AND && c->w == 1) { addKnown(c->a, true); addKnown(c->b, true); }
  if (!val && c->op == OR && c->w == 1) { addKnown(c->a, false); addKnown(c->b, false); }
  if (c->op == XOR && c->w == 1 && c->b->op == CONST && c->b->cv == 1 && !g_known.count(c->a->id)) addKnown(c->a, !val);
}
static void addPC(Expr *c) { if (c->op == AND && c->w == 1) { addPC(c->a); addPC(c->b); g_known[c->id] = 1; return; } PC.push_back(c); }
static void assumeExpr(Val v) { // adds to PC without checks (caller knows it is sat)
  v = vNorm(v); if (!v.s) return; Expr *c = v.s; addPC(c); addKnown(c, true);
}
static std::vector<pid_t> kids; static bool isRoot = true; static double startT;
static void waitKids() { for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { sh->crashed++; } } kids.clear(); }
static void stopCheck() { if (sh->stop) endPath(3); if (deadline && now() > deadline) { sh->timeouts++; sh->stop = 1; endPath(5); } }
// returns true in the child
static bool forkPath() {
  stopCheck();
  sh->forks++; fflush(stdout); fflush(stderr);
  int t = sh->tokens.fetch_sub(1); bool async = t > 0; if (!async) sh->tokens++;
  pid_t p = fork();
  if (p < 0) { note("fork failed: path dropped"); sh->trunc++; if (async) sh->tokens++; return false; }
  if (p == 0) { isRoot = false; kids.clear(); sh->procs++; return true; }
  if (async) { kids.push_back(p); return false; }
  // the child uses our token while we wait; continue early if another token frees up
  int us = 200;
  for (;;) {
    int st; pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) sh->crashed++;
      sh->tokens--; break; } // child returned its token at exit; take it back
    if (sh->tokens > 0) { int t2 = sh->tokens.fetch_sub(1); if (t2 > 0) { kids.push_back(p); break; } sh->tokens++; }
    usleep(us); if (us < 4000) us *= 2;
  }
  return false;
}
// decide a symbolic i1: returns the side this process follows
static bool branchOn(Expr *c) {
  auto itk = g_known.find(c->id); if (itk != g_known.end()) return itk->second;
  EvalRes r = evalExpr(c, g_model); bool t;
  if (r.ok) t = r.c & 1;
  else {
    Model m = g_model; SatRes s = query(c, &m);
    if (s == UNSAT) { addKnown(c, false); return false; }
    if (s == SAT) { g_model = m; t = true; }
    else { Val nc = vNot(Val{0, c}); Model m2 = g_model; SatRes s2 = query(nc.s, &m2); if (s2 == UNSAT) { addKnown(c, true); return true; } sh->trunc++; note("solver unknown at a branch: one side only: " + exprStr(c, 4)); if (s2 == SAT) { g_model = m2; addPC(nc.s); addKnown(c, false); return false; } addPC(c); addKnown(c, true); return true; }
  }
  Val nc = vNot(Val{0, c}); Expr *other = t ? nc.s : c, *mine = t ? c : nc.s;
  Model m2 = g_model; SatRes o = query(other, &m2);
  if (o == UNSAT) { addKnown(c, t); return t; }
  if (o == UNKNOWN) { sh->trunc++; note("solver unknown at a branch: " + exprStr(c, 4)); addPC(mine); addKnown(c, t); return t; }
  bool child = forkPath();
  if (child) { g_model = m2; addPC(other); addKnown(c, !t); return !t; }
  addPC(mine); addKnown(c, t); return t;
}
// -1 undecided, 0/1 when the path condition entails the value
static int entailed(Expr *c) {
  auto itk = g_known.find(c->id); if (itk != g_known.end()) return itk->second & 1;
  EvalRes r = evalExpr(c, g_model); Val nc = vNot(Val{0, c});
  if (r.ok) { bool t = r.c & 1; SatRes o = query(t ? nc.s : c, nullptr); if (o == UNSAT) { addKnown(c, t); return t; } return -1; }
  if (query(c, nullptr) == UNSAT) { addKnown(c, false); return 0; } if (query(nc.s, nullptr) == UNSAT) { addKnown(c, true); return 1; } return -1;
}
static bool optIntVar = false; static int optSel = 0; // FP selects: 0 ite, 1 prune entailed sides, 2 fork
static bool decide(Val v) { v = vNorm(v); if (!v.s) return v.c & 1; return branchOn(v.s); }
static u64 concretize(Val v, u32 w) {
  v = vNorm(v);
  while (v.s) {
    EvalRes r = evalExpr(v.s, g_model);
    if (!r.ok) { Model m = g_model; Val t = vCmp(EQ, v, v, w); (void)t; Val any = vCmp(ULE, cv(0), v, w); (void)any; // obtain a model covering the variables
      std::vector<Expr *> cs; Expr *e = v.s; std::vector<Expr *> sl; sliceFor(e, sl); SatRes s = solveConj(sl, &m, false); if (s != SAT) { sh->trunc++; note("cannot concretize"); endPath(4); } g_model = m; r = evalExpr(v.s, g_model); if (!r.ok) { sh->unsupported++; note("cannot evaluate for concretization: " + exprStr(v.s, 6)); endPath(4); } }
    Val eq = vCmp(EQ, v, cv(r.c), w);
    if (decide(eq)) return r.c;
    v = vNorm(v);
  }
  return v.c;
}

// ------------------------------------------------------------------ module decoding
static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout *DL;
enum LK : u8 { L_INT, L_FP, L_PTR, L_FP80 };
struct Leaf { u32 off; u32 bits; u32 bytes; u8 kind; };
struct TypeLay { std::vector<Leaf> leaves; u64 size; };
static std::map<Type *, TypeLay *> layCache;
static void flatten(Type *t, u64 off, std::vector<Leaf> &o) {
  if (t->isIntegerTy()) { u32 b = t->getIntegerBitWidth(); o.push_back({(u32)off, b, (b + 7) / 8, L_INT}); }
  else if (t->isPointerTy()) o.push_back({(u32)off, 64, 8, L_PTR});
  else if (t->isDoubleTy()) o.push_back({(u32)off, 64, 8, L_FP});
  else if (t->isFloatTy()) o.push_back({(u32)off, 32, 4, L_FP});
  else if (t->isX86_FP80Ty()) o.push_back({(u32)off, 64, 10, L_FP80});
  else if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + sl->getElementOffset(i), o); }
  else if (auto *a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * es, o); }
  else if (auto *v = dyn_cast<FixedVectorType>(t)) {
    u32 eb = DL->getTypeSizeInBits(v->getElementType()); u64 es = (eb + 7) / 8; for (u64 i = 0; i < v->getNumElements(); i++) flatten(v->getElementType(), off + i * es, o); }
  else if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) {}
  else { std::string s; raw_string_ostream os(s); t->print(os); note("unsupported type " + os.str()); o.push_back({(u32)off, 64, 8, L_INT}); }
}
static TypeLay *lay(Type *t) { auto it = layCache.find(t); if (it != layCache.end()) return it->second; TypeLay *l = new TypeLay(); flatten(t, 0, l->leaves); l->size = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 0; layCache[t] = l; return l; }
static u32 lanes(Type *t) { return lay(t)->leaves.size(); }

enum DOp : u16 { D_BIN, D_ICMP, D_FBIN, D_FNEG, D_FCMP, D_SELECT, D_LOAD, D_LOADN, D_STORE, D_STOREN, D_ALLOCA, D_GEP, D_GEPV, D_TRUNC, D_ZEXT, D_SEXT, D_SITOFP, D_UITOFP, D_FPTOSI, D_FPTOUI, D_FPCAST, D_BITCAST, D_COPY, D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_UNREACH, D_EXTRACTV, D_INSERTV, D_EXTRACTE, D_INSERTE, D_SHUFFLE, D_LANDING, D_RESUME, D_RMW, D_CMPXCHG, D_NOP, D_UNSUP };
struct PhiCp { int d, s, n; };
struct Edge { int target = -1; std::vector<PhiCp> cps; };
struct Arg { int op; u32 n; Leaf *lv; u64 byval; };
struct DFunc; struct Frame;
typedef void (*Builtin)(struct CallCtx &);
struct DCall { Function *callee = nullptr; int calleeOp = 0; std::vector<Arg> args; int dst = -1; TypeLay *ret = nullptr; Edge *norm = nullptr, *unw = nullptr; Builtin bi = nullptr; DFunc *df = nullptr; void *native = nullptr; u32 iid = 0; CallBase *cb = nullptr; bool resolved = false; };
struct GepT { int op; u64 scale; u32 w; };
struct DGep { i64 off; std::vector<GepT> idx; u32 nl; int base; u32 baseN; std::vector<u32> idxN; };
struct DSwitch { Edge *def; std::vector<std::pair<u64, Edge *>> cases; u32 w; };
struct DShuf { std::vector<int> m; u32 n1; };
struct DLand { std::vector<std::pair<int, int>> clauses; bool cleanup; }; // (kind 0 catch / 1 filter, operand)
struct DI { u16 op; u16 sub; u32 n; u32 w; int d, a, b, c; void *p; Instruction *I; };
struct DFunc { Function *F; u32 idx; u32 nregs = 0; std::vector<DI> code; std::vector<std::pair<Constant *, u32>> consts; u32 npool = 0; std::vector<Val *> pool; std::vector<u32> argReg; bool decoded = false; Builtin override_ = nullptr; };
static std::vector<DFunc *> funcs; static std::unordered_map<Function *, DFunc *> fmap; static std::unordered_map<u64, DFunc *> faddr;
static const u64 FBASE = 0x200000000000ull;
static std::unordered_map<const GlobalVariable *, u64> goff; static u64 gtotal = 0; static std::vector<u64> gbase; static std::unordered_map<const GlobalVariable *, u64> gshared;
static std::string fname(Function *f) { return f->getName().str(); }
static u64 funcAddr(Function *f) {
  auto it = fmap.find(f); if (it != fmap.end()) return FBASE + (u64)it->second->idx * 16;
  return 0;
}
static std::unordered_map<std::string, Builtin> builtins;
static u64 globalAddr(const GlobalValue *gv, int rank) {
  if (auto *f = dyn_cast<Function>(gv)) { if (f->isDeclaration() && !builtins.count(f->getName().str())) { void *p = dlsym(RTLD_DEFAULT, f->getName().str().c_str()); if (p) return (u64)p; } return funcAddr(const_cast<Function *>(f)); }
  if (auto *al = dyn_cast<GlobalAlias>(gv)) return globalAddr(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()), rank);
  auto *g = cast<GlobalVariable>(gv);
  auto s = gshared.find(g); if (s != gshared.end()) return s->second;
  return gbase[rank] + goff[g];
}
static void evalConst(const Constant *c, int rank, Val *out); // writes lanes(type) values
static Val evalC1(const Constant *c, int rank) { Val v[64]; evalConst(c, rank, v); return v[0]; }
static void evalConst(const Constant *c, int rank, Val *out) {
  Type *t = c->getType(); u32 n = lanes(t);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { for (u32 i = 0; i < n; i++) out[i] = cv(0); return; }
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) out[0] = cv(ci->getValue().extractBitsAsZExtValue(64, 0)); else out[0] = cv(ci->getZExtValue()); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { if (t->isX86_FP80Ty()) { APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); out[0] = cv(f.bitcastToAPInt().getZExtValue()); } else out[0] = cv(cf->getValueAPF().bitcastToAPInt().getZExtValue()); return; }
  if (auto *gv = dyn_cast<GlobalValue>(c)) { out[0] = cv(globalAddr(gv, rank)); return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { u32 k = 0; for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto *e = ca->getOperand(i); evalConst(e, rank, out + k); k += lanes(e->getType()); } return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), rank, out + i); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); Val b = evalC1(cast<Constant>(ce->getOperand(0)), rank); out[0] = cv(b.c + off.getSExtValue()); return; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val b = evalC1(ce->getOperand(0), rank); if (t->isIntegerTy()) b.c &= maskw(t->getIntegerBitWidth()); out[0] = b; return; }
    case Instruction::Trunc: { Val b = evalC1(ce->getOperand(0), rank); out[0] = cv(b.c & maskw(t->getIntegerBitWidth())); return; }
    case Instruction::Sub: { Val x = evalC1(ce->getOperand(0), rank), y = evalC1(ce->getOperand(1), rank); out[0] = cv((x.c - y.c) & maskw(t->getIntegerBitWidth())); return; }
    case Instruction::Add: { Val x = evalC1(ce->getOperand(0), rank), y = evalC1(ce->getOperand(1), rank); out[0] = cv((x.c + y.c) & maskw(t->getIntegerBitWidth())); return; }
    case Instruction::ICmp: { Val x = evalC1(ce->getOperand(0), rank), y = evalC1(ce->getOperand(1), rank); auto p = ce->getPredicate(); out[0] = cv(p == CmpInst::ICMP_EQ ? x.c == y.c : p == CmpInst::ICMP_NE ? x.c != y.c : p == CmpInst::ICMP_ULT ? x.c < y.c : x.c > y.c); return; }
    default: break;
    }
  }
  if (auto *d = dyn_cast<DSOLocalEquivalent>(c)) { out[0] = cv(globalAddr(d->getGlobalValue(), rank)); return; }
  if (auto *d = dyn_cast<NoCFIValue>(c)) { out[0] = cv(globalAddr(d->getGlobalValue(), rank)); return; }
  std::string s; raw_string_ostream os(s); c->print(os); note("unsupported constant " + os.str()); for (u32 i = 0; i < n; i++) out[i] = cv(0);
}
static void writeConst(const Constant *c, int rank, u64 addr) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void *)addr, r.data(), r.size()); return; }
  Type *t = c->getType();
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(ca->getOperand(i), rank, addr + i * es); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(cs->getOperand(i), rank, addr + sl->getElementOffset(i)); return; }
  TypeLay *l = lay(t); std::vector<Val> v(l->leaves.size() + 1); evalConst(c, rank, v.data());
  for (size_t i = 0; i < l->leaves.size(); i++) { Leaf &f = l->leaves[i]; if (f.kind == L_FP80) { long double d = asD(v[i].c); memcpy((void *)(addr + f.off), &d, 10); } else memcpy((void *)(addr + f.off), &v[i].c, std::min(8u, f.bytes)); }
}
static Val *poolFor(DFunc *f, int rank) {
  if ((int)f->pool.size() <= rank) f->pool.resize(rank + 1, nullptr);
  if (!f->pool[rank]) { Val *p = (Val *)calloc(f->npool + 1, sizeof(Val)); u32 k = 0; for (auto &c : f->consts) { evalConst(c.first, rank, p + k); k += c.second; } f->pool[rank] = p; }
  return f->pool[rank];
}
static void decode(DFunc *df) {
  df->decoded = true; Function *F = df->F; std::unordered_map<Value *, int> reg; std::unordered_map<Constant *, int> cpos; u32 nr = 0;
  for (auto &a : F->args()) { reg[&a] = nr; df->argReg.push_back(nr); nr += lanes(a.getType()); }
  for (auto &bb : *F) for (auto &I : bb) { u32 n = lanes(I.getType()); if (n) { reg[&I] = nr; nr += n; } }
  df->nregs = nr;
  auto OPN = [&](Value *v) -> int {
    if (auto *c = dyn_cast<Constant>(v)) { auto it = cpos.find(c); if (it != cpos.end()) return ~it->second; u32 n = lanes(c->getType()); int p = df->npool; df->consts.push_back({c, n}); df->npool += n; cpos[c] = p; return ~p; }
    return reg[v]; };
  std::unordered_map<BasicBlock *, int> bpos; std::vector<std::pair<Edge *, std::pair<BasicBlock *, BasicBlock *>>> edges;
  auto mkEdge = [&](BasicBlock *from, BasicBlock *to) { Edge *e = new Edge(); edges.push_back({e, {from, to}}); return e; };
  for (auto &bb : *F) {
    bpos[&bb] = df->code.size();
    for (auto &I : bb) {
      if (isa<PHINode>(I)) continue;
      DI d; memset(&d, 0, sizeof d); d.I = &I; d.d = lanes(I.getType()) ? reg[&I] : -1; d.n = lanes(I.getType());
      Type *t = I.getType(); Type *st = t->getScalarType(); d.w = st->isIntegerTy() ? st->getIntegerBitWidth() : st->isFloatTy() ? 32 : 64;
      switch (I.getOpcode()) {
#define BB(LL, OPX) case Instruction::LL: d.op = D_BIN; d.sub = OPX; d.a = OPN(I.getOperand(0)); d.b = OPN(I.getOperand(1)); break;
      BB(Add, ADD) BB(Sub, SUB) BB(Mul, MUL) BB(UDiv, UDIV) BB(SDiv, SDIV) BB(URem, UREM) BB(SRem, SREM) BB(Shl, SHL) BB(LShr, LSHR) BB(AShr, ASHR) BB(And, AND) BB(Or, OR) BB(Xor, XOR)
#define FB_(LL, OPX) case Instruction::LL: d.op = D_FBIN; d.sub = OPX; d.a = OPN(I.getOperand(0)); d.b = OPN(I.getOperand(1)); break;
      FB_(FAdd, FADD) FB_(FSub, FSUB) FB_(FMul, FMUL) FB_(FDiv, FDIV)
      case Instruction::FNeg: d.op = D_FNEG; d.a = OPN(I.getOperand(0)); break;
      case Instruction::ICmp: { d.op = D_ICMP; d.sub = cast<ICmpInst>(I).getPredicate(); Type *ot = I.getOperand(0)->getType()->getScalarType(); d.w = ot->isIntegerTy() ? ot->getIntegerBitWidth() : 64; d.a = OPN(I.getOperand(0)); d.b = OPN(I.getOperand(1)); break; }
      case Instruction::FCmp: { d.op = D_FCMP; d.sub = cast<FCmpInst>(I).getPredicate(); d.w = I.getOperand(0)->getType()->getScalarType()->isFloatTy() ? 32 : 64; d.a = OPN(I.getOperand(0)); d.b = OPN(I.getOperand(1)); break; }
      case Instruction::Select: d.op = D_SELECT; d.a = OPN(I.getOperand(0)); d.b = OPN(I.getOperand(1)); d.c = OPN(I.getOperand(2)); d.sub = lanes(I.getOperand(0)->getType()) > 1; d.p = lay(t); break;
      case Instruction::Freeze: d.op = D_COPY; d.a = OPN(I.getOperand(0)); break;
      case Instruction::Load: d.a = OPN(I.getOperand(0)); d.p = lay(t); d.op = (d.n == 1) ? D_LOAD : D_LOADN; break;
      case Instruction::Store: d.a = OPN(I.getOperand(0)); d.b = OPN(I.getOperand(1)); d.p = lay(I.getOperand(0)->getType()); d.n = lanes(I.getOperand(0)->getType()); d.op = d.n == 1 ? D_STORE : D_STOREN; break;
      case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); d.op = D_ALLOCA; d.a = OPN(A.getArraySize()); d.p = (void *)(u64)DL->getTypeAllocSize(A.getAllocatedType()); d.b = A.getAlign().value(); break; }
      case Instruction::GetElementPtr: {
        DGep *g = new DGep(); g->off = 0; g->base = OPN(I.getOperand(0)); g->nl = lanes(t); g->baseN = lanes(I.getOperand(0)->getType());
        for (auto gi = gep_type_begin(&I), ge = gep_type_end(&I); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *stt = gi.getStructTypeOrNull()) { unsigned fi = cast<ConstantInt>(ix->getType()->isVectorTy() ? cast<Constant>(ix)->getSplatValue() : ix)->getZExtValue(); g->off += DL->getStructLayout(stt)->getElementOffset(fi); }
          else { u64 s = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) g->off += (i64)s * ci->getSExtValue(); else { g->idx.push_back({OPN(ix), s, ix->getType()->getScalarType()->getIntegerBitWidth()}); g->idxN.push_back(lanes(ix->getType())); } }
        }
        d.op = g->nl > 1 ? D_GEPV : D_GEP; d.p = g; break; }
      case Instruction::Trunc: d.op = D_TRUNC; d.a = OPN(I.getOperand(0)); d.sub = I.getOperand(0)->getType()->getScalarType()->getIntegerBitWidth(); break;
      case Instruction::ZExt: d.op = D_ZEXT; d.a = OPN(I.getOperand(0)); d.sub = I.getOperand(0)->getType()->getScalarType()->getIntegerBitWidth(); break;
      case Instruction::SExt: d.op = D_SEXT; d.a = OPN(I.getOperand(0)); d.sub = I.getOperand(0)->getType()->getScalarType()->getIntegerBitWidth(); break;
      case Instruction::SIToFP: d.op = D_SITOFP; d.a = OPN(I.getOperand(0)); d.sub = I.getOperand(0)->getType()->getScalarType()->getIntegerBitWidth(); break;
      case Instruction::UIToFP: d.op = D_UITOFP; d.a = OPN(I.getOperand(0)); d.sub = I.getOperand(0)->getType()->getScalarType()->getIntegerBitWidth(); break;
      case Instruction::FPToSI: d.op = D_FPTOSI; d.a = OPN(I.getOperand(0)); d.sub = I.getOperand(0)->getType()->getScalarType()->isFloatTy() ? 32 : 64; break;
      case Instruction::FPToUI: d.op = D_FPTOUI; d.a = OPN(I.getOperand(0)); d.sub = I.getOperand(0)->getType()->getScalarType()->isFloatTy() ? 32 : 64; break;
      case Instruction::FPExt: case Instruction::FPTrunc: d.op = D_FPCAST; d.a = OPN(I.getOperand(0)); d.sub = I.getOperand(0)->getType()->getScalarType()->isFloatTy() ? 32 : 64; break;
      case Instruction::PtrToInt: d.op = D_TRUNC; d.sub = 64; d.a = OPN(I.getOperand(0)); break;
      case Instruction::IntToPtr: d.op = D_ZEXT; d.sub = I.getOperand(0)->getType()->getScalarType()->getIntegerBitWidth(); d.a = OPN(I.getOperand(0)); break;
      case Instruction::BitCast: d.op = D_BITCAST; d.a = OPN(I.getOperand(0)); d.p = lay(I.getOperand(0)->getType()); break;
      case Instruction::AddrSpaceCast: d.op = D_COPY; d.a = OPN(I.getOperand(0)); break;
      case Instruction::Br: { auto &B = cast<BranchInst>(I); if (B.isConditional()) { d.op = D_CBR; d.a = OPN(B.getCondition()); Edge **e = new Edge *[2]; e[0] = mkEdge(&bb, B.getSuccessor(0)); e[1] = mkEdge(&bb, B.getSuccessor(1)); d.p = e; } else { d.op = D_BR; d.p = mkEdge(&bb, B.getSuccessor(0)); } break; }
      case Instruction::Switch: { auto &S = cast<SwitchInst>(I); DSwitch *s = new DSwitch(); s->w = S.getCondition()->getType()->getIntegerBitWidth(); d.op = D_SWITCH; d.a = OPN(S.getCondition()); s->def = mkEdge(&bb, S.getDefaultDest()); for (auto &c : S.cases()) s->cases.push_back({c.getCaseValue()->getZExtValue(), mkEdge(&bb, c.getCaseSuccessor())}); d.p = s; break; }
      case Instruction::Ret: { auto &Rr = cast<ReturnInst>(I); d.op = D_RET; if (Rr.getReturnValue()) { d.a = OPN(Rr.getReturnValue()); d.n = lanes(Rr.getReturnValue()->getType()); } else d.n = 0; break; }
      case Instruction::Unreachable: d.op = D_UNREACH; break;
      case Instruction::ExtractValue: { auto &X = cast<ExtractValueInst>(I); d.op = D_COPY; Type *ct = X.getAggregateOperand()->getType(); u32 k = 0; for (unsigned ix : X.indices()) { if (auto *s = dyn_cast<StructType>(ct)) { for (unsigned q = 0; q < ix; q++) k += lanes(s->getElementType(q)); ct = s->getElementType(ix); } else { auto *a = cast<ArrayType>(ct); k += ix * lanes(a->getElementType()); ct = a->getElementType(); } } int o = OPN(X.getAggregateOperand()); d.a = o >= 0 ? o + (int)k : ~(~o + (int)k); break; }
      case Instruction::InsertValue: { auto &X = cast<InsertValueInst>(I); d.op = D_INSERTV; Type *ct = X.getAggregateOperand()->getType(); u32 k = 0; for (unsigned ix : X.indices()) { if (auto *s = dyn_cast<StructType>(ct)) { for (unsigned q = 0; q < ix; q++) k += lanes(s->getElementType(q)); ct = s->getElementType(ix); } else { auto *a = cast<ArrayType>(ct); k += ix * lanes(a->getElementType()); ct = a->getElementType(); } } d.a = OPN(X.getAggregateOperand()); d.b = OPN(X.getInsertedValueOperand()); d.c = k; d.sub = lanes(X.getInsertedValueOperand()->getType()); break; }
      case Instruction::ExtractElement: d.op = D_EXTRACTE; d.a = OPN(I.getOperand(0)); d.b = OPN(I.getOperand(1)); d.sub = lanes(I.getOperand(0)->getType()); break;
      case Instruction::InsertElement: d.op = D_INSERTE; d.a = OPN(I.getOperand(0)); d.b = OPN(I.getOperand(1)); d.c = OPN(I.getOperand(2)); break;
      case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); DShuf *s = new DShuf(); for (int m : S.getShuffleMask()) s->m.push_back(m); s->n1 = lanes(I.getOperand(0)->getType()); d.op = D_SHUFFLE; d.a = OPN(I.getOperand(0)); d.b = OPN(I.getOperand(1)); d.p = s; break; }
      case Instruction::LandingPad: { auto &L = cast<LandingPadInst>(I); DLand *l = new DLand(); l->cleanup = L.isCleanup(); for (unsigned i = 0; i < L.getNumClauses(); i++) l->clauses.push_back({L.isCatch(i) ? 0 : 1, L.isCatch(i) ? OPN(L.getClause(i)) : 0}); d.op = D_LANDING; d.p = l; break; }
      case Instruction::Resume: d.op = D_RESUME; d.a = OPN(I.getOperand(0)); break;
      case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); d.op = D_RMW; d.sub = A.getOperation(); d.a = OPN(A.getPointerOperand()); d.b = OPN(A.getValOperand()); d.p = lay(t); break; }
      case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); d.op = D_CMPXCHG; d.a = OPN(A.getPointerOperand()); d.b = OPN(A.getCompareOperand()); d.c = OPN(A.getNewValOperand()); d.p = lay(A.getNewValOperand()->getType()); break; }
      case Instruction::Fence: d.op = D_NOP; break;
      case Instruction::Call: case Instruction::Invoke: {
        auto &C = cast<CallBase>(I); DCall *c = new DCall(); c->cb = &C; d.op = D_CALL; d.p = c; c->dst = d.d; c->ret = lay(t);
        Value *cvl = C.getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cvl)) cvl = al->getAliasee()->stripPointerCasts();
        if (isa<InlineAsm>(C.getCalledOperand())) { d.op = D_NOP; for (u32 i = 0; i < d.n; i++) d.op = D_UNSUP; break; }
        if (auto *cf = dyn_cast<Function>(cvl)) { c->callee = cf; c->iid = cf->getIntrinsicID();
          switch (c->iid) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::x86_sse_sfence: case Intrinsic::x86_sse2_mfence: case Intrinsic::x86_sse2_pause: d.op = D_NOP; break; default: break; } }
        else c->calleeOp = OPN(C.getCalledOperand());
        if (d.op == D_NOP) break;
        for (unsigned i = 0; i < C.arg_size(); i++) { Value *v = C.getArgOperand(i); if (v->getType()->isMetadataTy()) { c->args.push_back({0, 0, nullptr, 0}); continue; } TypeLay *l = lay(v->getType()); u64 bv = C.isByValArgument(i) ? (u64)DL->getTypeAllocSize(C.getParamByValType(i)) : 0; c->args.push_back({OPN(v), (u32)l->leaves.size(), l->leaves.data(), bv}); }
        if (auto *inv = dyn_cast<InvokeInst>(&I)) { c->norm = mkEdge(&bb, inv->getNormalDest()); c->unw = mkEdge(&bb, inv->getUnwindDest()); }
        break; }
      default: d.op = D_UNSUP; break;
      }
      df->code.push_back(d);
    }
  }
  for (auto &e : edges) {
    e.first->target = bpos[e.second.second];
    for (auto &phi : e.second.second->phis()) { Value *v = phi.getIncomingValueForBlock(e.second.first); e.first->cps.push_back({reg[&phi], OPN(v), (int)lanes(phi.getType())}); }
  }
}

// ------------------------------------------------------------------ interpreter state
struct Frame { DFunc *f; u32 pc; u64 regOff; DCall *call; std::vector<u32> stk; u64 savedSp; std::vector<std::pair<Val, Leaf>> *va; };
struct Rank { int id; std::vector<Frame> fr; Val *regs0; u64 regTop; u64 sp, spEnd; int status; u64 blockedAt; Val excObj, excTi; int rdst; }; // status 0 ready 1 blocked 2 done
static std::vector<Rank *> ranks; static Rank *mainRank; static Rank *cur; static int curRankIdx = -1; static u64 epoch_ = 1; static int nactive = 0; static u64 instCount = 0;
static const u64 STACKBASE = ARENA + (8ull << 30);
static Rank *newRank(int id, int slot) { Rank *r = new Rank(); r->id = id; r->regs0 = (Val *)mmap(nullptr, 1ull << 29, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); r->regTop = 0; r->sp = STACKBASE + (u64)slot * (128ull << 20) + 4096; r->spEnd = r->sp + (127ull << 20); r->status = 0; r->blockedAt = 0; return r; }
static std::string backtrace_() {
  std::string s; int k = 0; for (int i = (int)cur->fr.size() - 1; i >= 0 && k < 14; i--, k++) { Frame &f = cur->fr[i]; s += "    at " + demangle(f.f->F->getName().str()); u32 pc = f.pc; if (pc < f.f->code.size()) if (auto *di = f.f->code[pc].I) if (auto &dl = di->getDebugLoc()) s += " (" + dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")"; s += "\n"; } return s;
}
static std::vector<std::pair<std::string, std::pair<Val, Leaf>>> observed;
static void dumpModel(FILE *f, const Model &m) {
  for (size_t i = 0; i < g_vars.size(); i++) { auto &v = g_vars[i]; if (v.kind) continue; ModelVal mv; if (i < m.v.size()) mv = m.v[i];
    if (v.fp) { double d = g_ieee ? fpval(mv.bv, v.w) : (mv.isq ? mv.q.get_d() : mv.approx); fprintf(f, "%s d %.17g\n", v.name.c_str(), d); }
    else fprintf(f, "%s i %llu\n", v.name.c_str(), (unsigned long long)mv.bv); }
}
static int violN = 0;
static void violation(const char *kind, const std::string &label, Expr *negated) {
  int k = sh->violations++; if (k >= optMaxViol) { sh->stop = 1; return; }
  Model m = g_model;
  std::vector<Expr *> cs; if (negated) { sliceFor(negated, cs); cs.push_back(negated); } else cs = PC;
  bool anyfp = false; for (Expr *e : PC) anyfp |= e->hasfp; if (negated) anyfp |= negated->hasfp;
  if (anyfp && !g_ieee) { Model m2 = m; std::vector<Expr *> all = PC; if (negated) all.push_back(negated); if (solveConj(all, &m2, true) == SAT) m = m2; else { Model m3 = m; if (negated && solveConj(cs, &m3, false) == SAT) m = m3; } }
  else if (negated) { Model m3 = m; if (solveConj(cs, &m3, false) == SAT) m = m3; }
  std::string fn = outdir + "/viol_" + std::to_string(k) + ".txt"; FILE *f = fopen(fn.c_str(), "w"); if (!f) return;
  fprintf(f, "# %s: %s\n", kind, label.c_str()); std::string bt = backtrace_(); for (size_t p = 0; p < bt.size();) { size_t q = bt.find('\n', p); fprintf(f, "# %s\n", bt.substr(p, q - p).c_str()); p = q + 1; }
  dumpModel(f, m); fclose(f); violN++;
  if (verbose) { fprintf(stderr, "[symx] VIOLATION %s: %s\n%s", kind, label.c_str(), bt.c_str()); if (negated) fprintf(stderr, "   %s\n", exprStr(negated, 7).c_str()); }
  if (sh->violations >= optMaxViol) sh->stop = 1;
}
static void finishProcess(int code) { sh->insts += instCount; sh->tokens++; waitKids(); fflush(stdout); fflush(stderr); }
static void rootReport();
static void endPath(int kind) {
  switch (kind) { case 0: sh->paths++; break; case 1: sh->rejected++; break; case 2: sh->assumed++; break; case 4: sh->trunc++; break; default: break; }
  if (kind == 0 && optMaxPaths >= 0 && sh->paths >= optMaxPaths) { sh->trunc++; sh->stop = 1; }
  if (kind == 0 && sh->traces < optTraces && !sh->stop) {
    int k = sh->traces++; if (k < optTraces) {
      Model m = g_model; bool anyfp = false; for (Expr *e : PC) anyfp |= e->hasfp; for (auto &v : g_vars) anyfp |= v.fp;
      bool ok = true;
      if (anyfp && !g_ieee) { Model m2 = m; std::vector<Expr *> all = PC; // prefer exactly representable values
        if (!PC.empty() && solveConj(all, &m2, true) == SAT) m = m2; }
      std::string fn = outdir + "/trace_" + std::to_string(k) + ".txt"; FILE *f = fopen(fn.c_str(), "w");
      if (f) { dumpModel(f, m); 
        for (auto &o : observed) { Val v = o.second.first; Leaf l = o.second.second; double d; u64 c = v.c; if (v.s) { EvalRes r = evalExpr(v.s, m); if (!r.ok) { fprintf(f, "!obs %s ?\n", o.first.c_str()); continue; } if (l.kind == L_FP && !g_ieee) { fprintf(f, "!obs %s %.12g\n", o.first.c_str(), r.q.get_d()); continue; } c = r.c; }
          if (l.kind == L_FP) { d = fpval(c, l.bits); fprintf(f, "!obs %s %.12g\n", o.first.c_str(), d); } else fprintf(f, "!obs %s %lld\n", o.first.c_str(), (long long)sx(c, l.bits)); }
        fclose(f); (void)ok; } } }
  finishProcess(0);
  if (isRoot) { rootReport(); }
  _exit(0);
}
[[noreturn]] static void unsupported(const std::string &why) { sh->unsupported++; note("unsupported: " + why + "\n" + (cur && !cur->fr.empty() ? backtrace_() : "")); endPath(4); }
static void memError(const char *what, u64 a, u64 sz) {
  char b[300]; Obj *o = nullptr; if (inArena(a)) { for (u64 p = a; p + 64 > a && p >= ARENA; p -= 16) { o = objAt(p); if (o || a - p > 256) break; } }
  snprintf(b, 300, "%s of %llu bytes at %s%llx%s", what, (unsigned long long)sz, "0x", (unsigned long long)a, o ? (o->alive ? " (near live object)" : " (freed object)") : "");
  if (verbose && o) fprintf(stderr, "  obj base %llx size %llu alive %d name %s\n", (unsigned long long)o->base, (unsigned long long)o->size, o->alive, o->name ? o->name : "");
  violation("memory error", b, nullptr); endPath(3);
}
static sigjmp_buf segvJmp; static bool inNative = false;
static inline void checkAccess(u64 a, u64 sz, bool write) {
  if (!inArena(a)) { if (a < 65536 || (a >= FBASE && a < FBASE + (1ull << 32))) memError(a < 65536 ? "null pointer access" : "access to code", a, sz); return; }
  u32 g = granOf(a); if (!g) memError(write ? "out of bounds write" : "out of bounds read", a, sz);
  Obj &o = objs[g]; if (!o.alive && o.kind == 3) unsupported(std::string("access to a global that is not part of the encoding: ") + (o.name ? o.name : "")); if (!o.alive) memError(write ? "write after free" : "read after free", a, sz);
  if (a < o.base || a + sz > o.base + o.size) memError(write ? "out of bounds write" : "out of bounds read", a, sz);
  if (write && o.ro) memError("write to constant", a, sz);
}
static inline bool symIn(u64 a, u64 sz) { if (!inArena(a)) return false; for (u64 p = a & ~7ull; p < a + sz; p += 8) if (SymCell *c = cellOf(p)) { for (u64 q = std::max(p, a); q < std::min(p + 8, a + sz); q++) if (c->e[q & 7]) return true; } return false; }
static Val readByte(u64 a) { if (inArena(a)) if (SymCell *c = cellOf(a)) if (Expr *e = c->e[a & 7]) { Val v{0, e}; if (e->fp) v = vBits(v, e->w); else v = vNorm(v); return vExtract(v, c->k[a & 7] * 8, std::min(8u, e->w - c->k[a & 7] * 8), e->w).s && e->w - c->k[a & 7] * 8 < 8 ? vZext(vExtract(v, c->k[a & 7] * 8, e->w - c->k[a & 7] * 8, e->w), e->w - c->k[a & 7] * 8, 8) : vExtract(v, c->k[a & 7] * 8, std::min(8u, e->w - c->k[a & 7] * 8), e->w); } return cv(*(u8 *)a); }
static Val rawRead(u64 a, const Leaf &l) {
  if (inArena(a) && objs[granOf(a)].hasSym && symIn(a, l.bytes)) {
    SymCell *c0 = cellOf(a); Expr *e = c0 ? c0->e[a & 7] : nullptr;
    if (e && c0->k[a & 7] == 0 && ((e->w + 7) / 8) == l.bytes) { bool all = true; for (u32 i = 1; i < l.bytes; i++) { SymCell *c = cellOf(a + i); if (!c || c->e[(a + i) & 7] != e || c->k[(a + i) & 7] != i) { all = false; break; } }
      if (all) { bool wantfp = l.kind == L_FP || l.kind == L_FP80; Val v = vNorm(Val{0, e}); if ((bool)e->fp == wantfp) { if (e->w == l.bits) return v; if (!wantfp) return e->w < l.bits ? vZext(v, e->w, l.bits) : vExtract(v, 0, l.bits, e->w); } else { return wantfp ? vFromBits(v, l.bits) : vBits(v, l.bits); } } }
    Val r = cv(0); u32 w = 0; bool any = false; u64 acc = 0;
    for (u32 i = 0; i < l.bytes && i < 8; i++) { Val b = readByte(a + i); if (b.s) any = true; if (!any) { acc |= b.c << (8 * i); r = cv(acc); } else r = w ? vConcat(b, 8, r, w) : b; w += 8; }
    if (l.bits < w) r = vExtract(r, 0, l.bits, w);
    if (l.kind == L_FP) r = vFromBits(r, l.bits);
    return r;
  }
  u64 v = 0;
  switch (l.bytes) { case 1: v = *(u8 *)a; break; case 2: v = *(uint16_t *)a; break; case 4: v = *(u32 *)a; break; case 8: v = *(u64 *)a; break;
  case 10: { long double d = 0; memcpy(&d, (void *)a, 10); v = dB((double)d); break; }
  default: if (l.bytes > 8) unsupported("wide integer load"); memcpy(&v, (void *)a, l.bytes); }
  return cv(v & maskw(l.bits));
}
static void rawWrite(u64 a, const Leaf &l, Val v) {
  bool ar = inArena(a);
  if (v.s) v = vNorm(v);
  if (v.s) {
    if (!ar) { note("symbolic value written to native memory: concretized"); sh->concretized++; v = v.s->fp ? (unsupported("symbolic double to native memory"), v) : cv(concretize(v, l.bits)); }
    else {
      if (l.bytes > 8) unsupported("symbolic wide store");
      objs[granOf(a)].hasSym = true;
      Expr *e = v.s;
      if (!e->fp && e->w < l.bytes * 8) { e = vZext(v, e->w, l.bytes * 8).s; }
      for (u32 i = 0; i < l.bytes; i++) { SymCell *&c = cellOf(a + i); if (!c) { c = (SymCell *)calloc(1, sizeof(SymCell)); } c->e[(a + i) & 7] = e; c->k[(a + i) & 7] = i; }
      return;
    }
  } else if (ar && objs[granOf(a)].hasSym) { for (u32 i = 0; i < l.bytes; i++) if (SymCell *c = cellOf(a + i)) c->e[(a + i) & 7] = nullptr; }
  switch (l.bytes) { case 1: *(u8 *)a = v.c; break; case 2: *(uint16_t *)a = v.c; break; case 4: *(u32 *)a = v.c; break; case 8: *(u64 *)a = v.c; break;
  case 10: { long double d = asD(v.c); memcpy((void *)a, &d, 10); break; }
  default: if (l.bytes > 8) unsupported("wide integer store"); memcpy((void *)a, &v.c, l.bytes); }
}
static void copyMem(u64 d, u64 s, u64 n) { // symbolic aware memmove, access already checked
  Obj *os = objAt(s), *od = objAt(d);
  bool ss = os && os->hasSym && symIn(s, n);
  if (ss && !inArena(d)) { sh->concretized++; note("symbolic bytes copied to native memory: concretized"); for (u64 i = 0; i < n; i++) { Val b = readByte(s + i); *(u8 *)(d + i) = b.s ? concretize(b, 8) : b.c; } return; }
  if (!ss) { memmove((void *)d, (void *)s, n); if (od && od->hasSym) for (u64 i = 0; i < n; i++) if (SymCell *c = cellOf(d + i)) c->e[(d + i) & 7] = nullptr; return; }
  std::vector<std::pair<Expr *, u8>> tmp(n); for (u64 i = 0; i < n; i++) { SymCell *c = cellOf(s + i); tmp[i] = c ? std::make_pair(c->e[(s + i) & 7], c->k[(s + i) & 7]) : std::make_pair((Expr *)nullptr, (u8)0); }
  memmove((void *)d, (void *)s, n); od->hasSym = true;
  for (u64 i = 0; i < n; i++) { SymCell *&c = cellOf(d + i); if (tmp[i].first && !c) c = (SymCell *)calloc(1, sizeof(SymCell)); if (c) { c->e[(d + i) & 7] = tmp[i].first; c->k[(d + i) & 7] = tmp[i].second; } }
}
static u64 stackAlloc(Frame &f, u64 size, u64 align) {
  if (align < 16) align = 16; u64 b = (cur->sp + align - 1) & ~(align - 1); u64 n = (size + 15) & ~15ull; if (!n) n = 16;
  if (b + n + 32 > cur->spEnd) unsupported("stack overflow");
  cur->sp = b + n + 16; u32 id = newObj(b, size, 2, "stack", false); if (!size) granOf(b) = id; f.stk.push_back(id); memset((void *)b, 0xAA, n); return b;
}
static void popStack(Frame &f) {
  for (u32 id : f.stk) { Obj &o = objs[id]; if (o.hasSym) clearShadow(o.base, o.size); u64 n = std::max<u64>(1, (o.size + 15) / 16); u32 *g = &granOf(o.base); for (u64 i = 0; i < n; i++) g[i] = 0; o.alive = false; freeObjs.push_back(id); }
  cur->sp = f.savedSp;
}
// address with symbolic part: fork over feasible values
static u64 addrOf(Val v) { if (!v.s) return v.c; return concretize(v, 64); }
static Val loadAt(Val addr, const Leaf &l) {
  addr = vNorm(addr);
  if (addr.s && optIteLoads) {
    std::vector<u64> vals; Model m = g_model; bool ok = true; Val block = cv(1);
    std::vector<Expr *> sl; sliceFor(addr.s, sl);
    for (;;) { std::vector<Expr *> cs = sl; if (block.s) cs.push_back(block.s); else if (!block.c) break; double t0 = now(); SatRes r = solveConj(cs, &m, false); sh->queries++; sh->solver_us += (long)((now() - t0) * 1e6); if (r == UNSAT) break; if (r == UNKNOWN) { ok = false; break; } EvalRes e = evalExpr(addr.s, m); if (!e.ok) { ok = false; break; } vals.push_back(e.c); if (vals.size() > 64) { ok = false; break; } block = vBin(AND, block, vNot(vCmp(EQ, addr, cv(e.c), 64)), 1); }
    if (ok && !vals.empty()) { std::sort(vals.begin(), vals.end()); for (u64 a : vals) { bool good = inArena(a) && granOf(a) && objs[granOf(a)].alive && a + l.bytes <= objs[granOf(a)].base + objs[granOf(a)].size; if (!good && inArena(a)) ok = false; if (a < 65536) ok = false; }
      if (ok) { Val r = rawRead(vals[0], l); bool fpk = l.kind == L_FP; for (size_t i = 1; i < vals.size(); i++) { Val x = rawRead(vals[i], l); r = vIte(vCmp(EQ, addr, cv(vals[i]), 64), x, r, l.bits, fpk); } return r; } }
  }
  u64 a = addrOf(addr); checkAccess(a, l.bytes, false); return rawRead(a, l);
}

// ------------------------------------------------------------------ calls
struct CallCtx { DCall *c; Frame *f; Val *regs; Val *pool; std::vector<Val> a; Val ret[8]; bool handled; };
static inline Val opv(Val *regs, Val *pool, int o) { return o >= 0 ? regs[o] : pool[~o]; }
static Leaf LI8{0, 8, 1, L_INT}, LI32{0, 32, 4, L_INT}, LI64{0, 64, 8, L_INT}, LD{0, 64, 8, L_FP};
static std::string cstr(u64 a) { std::string s; for (;; a++) { if (inArena(a)) checkAccess(a, 1, false); Val b = readByte(a); u64 c = b.s ? concretize(b, 8) : b.c; if (!c) break; s += (char)c; if (s.size() > 100000) break; } return s; }
static void doThrow(Val obj, Val ti);
static bool g_throwing = false;
static int evalReachSlot(const std::string &n) { int k = sh->nreach; for (int i = 0; i < k; i++) if (n == sh->reachname[i]) return i; int i = sh->nreach++; if (i < 256) { strncpy(sh->reachname[i], n.c_str(), 63); return i; } return 255; }
static void bi_ret(CallCtx &x, u64 c) { x.ret[0] = cv(c); }
static std::string uniq(const std::string &s) { return s; }
static void doAssert(Val c, const std::string &label) {
  sh->asserts++; c = vNorm(c);
  if (!c.s) { if (!(c.c & 1)) { violation("assertion failed", label, nullptr); endPath(3); } return; }
  sh->asserts_solver++;
  Val n = vNot(c);
  EvalRes r = evalExpr(n.s, g_model);
  if (r.ok && r.c) { violation("assertion failed", label, n.s); }
  else { Model m = g_model; SatRes s = query(n.s, &m); if (s == SAT) violation("assertion failed", label, n.s); else if (s == UNKNOWN) { sh->trunc++; note("solver unknown on assertion " + label); } else { addKnown(c.s, true); return; } }
  // continue on the side where it holds, if any
  Model m = g_model; if (query(c.s, &m) != SAT) endPath(3); g_model = m; assumeExpr(c);
}
static void doAssume(Val c) {
  c = vNorm(c); if (!c.s) { if (!(c.c & 1)) endPath(2); return; }
  EvalRes r = evalExpr(c.s, g_model);
  if (!(r.ok && r.c)) { Model m = g_model; SatRes s = query(c.s, &m); if (s == UNSAT) endPath(2); if (s == UNKNOWN) { sh->trunc++; note("solver unknown on assumption"); endPath(2); } g_model = m; }
  assumeExpr(c);
}
static Val freshReal(const char *n, u32 w) { Expr *e = mkVar(n, w, true); g_vars[e->aux].kind = 1; g_model.v[e->aux].known = false; return Val{0, e}; }
static Val freshBV(const char *n, u32 w) { Expr *e = mkVar(n, w, false); g_vars[e->aux].kind = 1; g_model.v[e->aux].known = false; return Val{0, e}; }
static Val doSqrt(Val a, u32 w) {
  a = vNorm(a); if (!a.s) return cv(fpbits(w == 32 ? std::sqrt(asF(a.c)) : std::sqrt(asD(a.c)), w));
  if (g_ieee) { unsupported("symbolic sqrt in ieee mode"); }
  static std::unordered_map<u32, Val> memo; auto it = memo.find(a.s->id); if (it != memo.end()) return it->second;
  if (decide(vFCmp(FLT, a, cv(0), w))) return cv(fpbits(NAN, w));
  Val s = freshReal("$sqrt", w); Expr *c1 = vFCmp(FLE, cv(0), s, w).s, *c2 = vFCmp(FEQ, vFBin(FMUL, s, s, w), a, w).s; PC.push_back(c1); PC.push_back(c2); addKnown(c1, true); memo[a.s->id] = s; return s;
}
static Val fptoint(Val a, u32 fw, u32 w, bool sgn, bool floorMode) { // truncation toward zero (or floor) of a symbolic real
  // n integer with n <= a < n+1 (a>=0) ; n-1 < a <= n (a<0, trunc)
  if (!optIntVar) { // fork over the integer values (pure linear real constraints)
    bool fl = floorMode || decide(vFCmp(FLE, cv(0), a, fw));
    for (;;) {
      a = vNorm(a); if (!a.s) { double x = fpval(a.c, fw); return cv((u64)(i64)(fl ? std::floor(x) : std::trunc(x)) & maskw(w)); }
      EvalRes r = evalExpr(a.s, g_model);
      if (!r.ok) { Val t = vFCmp(FLE, cv(0), a, fw); if (t.s) { Model m = g_model; SatRes q = query(t.s, &m); if (q != SAT) { Val nt = vNot(t); q = query(nt.s, &m); } if (q != SAT) unsupported("no model for a real to integer conversion"); g_model = m; } r = evalExpr(a.s, g_model); if (!r.ok) unsupported("cannot evaluate a real to integer conversion"); }
      mpz_class z; if (fl) mpz_fdiv_q(z.get_mpz_t(), r.q.get_num_mpz_t(), r.q.get_den_mpz_t()); else mpz_cdiv_q(z.get_mpz_t(), r.q.get_num_mpz_t(), r.q.get_den_mpz_t());
      if (!z.fits_slong_p()) unsupported("real to integer conversion out of range");
      double k = (double)z.get_si(); Val c1, c2;
      if (fl) { c1 = vFCmp(FLE, cv(fpbits(k, fw)), a, fw); c2 = vFCmp(FLT, a, cv(fpbits(k + 1, fw)), fw); } else { c1 = vFCmp(FLE, a, cv(fpbits(k, fw)), fw); c2 = vFCmp(FLT, cv(fpbits(k - 1, fw)), a, fw); }
      if (decide(vBin(AND, c1, c2, 1))) return cv((u64)z.get_si() & maskw(w));
    }
  }
  Val n = freshBV("$int", w > 32 ? 32 : w); u32 iw = w > 32 ? 32 : w;
  Val nf = vI2F(n, iw, fw, true); Val one = cv(fpbits(1, fw));
  bool nonneg = floorMode ? true : decide(vFCmp(FLE, cv(0), a, fw));
  // the value must be in range
  Expr *c1, *c2;
  if (nonneg) { c1 = vFCmp(FLE, nf, a, fw).s; c2 = vFCmp(FLT, a, vFBin(FADD, nf, one, fw), fw).s; }
  else { c1 = vFCmp(FLE, a, nf, fw).s; c2 = vFCmp(FLT, vFBin(FSUB, nf, one, fw), a, fw).s; }
  doAssume(Val{0, c1}); doAssume(Val{0, c2});
  return w > iw ? (sgn ? vSext(n, iw, w) : vZext(n, iw, w)) : n;
}
static u64 nativeCall(void *fn, std::vector<Val> &flat, std::vector<Leaf> &lv, TypeLay *ret, Val *out) {
  u64 iv[14] = {0}; double dv[8] = {0}; int ni = 0, nd = 0;
  for (size_t i = 0; i < flat.size(); i++) { if (lv[i].kind == L_FP) { if (nd >= 8) unsupported("native call with too many fp args"); u64 b = flat[i].c; memcpy(&dv[nd++], &b, 8); } else { if (ni >= 14) unsupported("native call with too many args"); u64 v = flat[i].c; if (lv[i].kind == L_INT && lv[i].bits == 32) v = (u64)(i64)(int32_t)v; iv[ni++] = v; } }
  struct II { u64 a, b; }; struct DD { double a, b; }; struct ID { u64 a; double b; }; struct DI_ { double a; u64 b; };
#define ARGS iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], dv[0], dv[1], dv[2], dv[3], dv[4], dv[5], dv[6], dv[7], iv[6], iv[7], iv[8], iv[9], iv[10], iv[11], iv[12], iv[13]
  try {
    size_t n = ret->leaves.size();
    if (n == 0) { ((void (*)(u64, ...))fn)(ARGS); return 0; }
    bool f0 = ret->leaves[0].kind == L_FP, f1 = n > 1 && ret->leaves[1].kind == L_FP;
    if (n == 1) { if (f0) { double r = ((double (*)(u64, ...))fn)(ARGS); memcpy(&out[0].c, &r, 8); if (ret->leaves[0].bits == 32) out[0].c &= 0xffffffff; } else { u64 r = ((u64(*)(u64, ...))fn)(ARGS); out[0].c = r & maskw(ret->leaves[0].bits); } out[0].s = nullptr; return 0; }
    if (n == 2) {
      if (f0 && f1) { DD r = ((DD(*)(u64, ...))fn)(ARGS); out[0] = cv(dB(r.a)); out[1] = cv(dB(r.b)); }
      else if (!f0 && !f1) { II r = ((II(*)(u64, ...))fn)(ARGS); out[0] = cv(r.a & maskw(ret->leaves[0].bits)); out[1] = cv(r.b & maskw(ret->leaves[1].bits)); }
      else if (f0) { DI_ r = ((DI_(*)(u64, ...))fn)(ARGS); out[0] = cv(dB(r.a)); out[1] = cv(r.b); }
      else { ID r = ((ID(*)(u64, ...))fn)(ARGS); out[0] = cv(r.a); out[1] = cv(dB(r.b)); }
      return 0;
    }
  } catch (...) { unsupported("exception thrown inside native code"); }
  unsupported("native call returning a large aggregate");
}
#include "builtins.inc"

static void pushFrame(DFunc *f, DCall *call, const Val *args, size_t nargs, std::vector<std::pair<Val, Leaf>> *va) {
  if (!f->decoded) decode(f);
  funcHit[f->idx] = 1;
  if (cur->fr.size() > 20000) unsupported("recursion too deep");
  u64 off = cur->regTop; cur->regTop += f->nregs + 1; if (cur->regTop * sizeof(Val) > (1ull << 29)) unsupported("register stack overflow");
  cur->fr.push_back(Frame{f, 0, off, call, {}, cur->sp, va}); poolFor(f, cur->id < 0 ? 0 : cur->id);
  Val *r = cur->regs0 + off; for (size_t i = 0; i < nargs && i < f->nregs; i++) r[i] = args[i];
}
static void takeEdge(Frame &f, Val *regs, Val *pool, Edge *e) {
  if (!e->cps.empty()) { Val tmp[256]; int k = 0; bool big = false; for (auto &c : e->cps) { if (k + c.n > 256) { big = true; break; } for (int i = 0; i < c.n; i++) tmp[k++] = c.s >= 0 ? regs[c.s + i] : pool[~c.s + i]; }
    if (big) unsupported("huge phi"); k = 0; for (auto &c : e->cps) for (int i = 0; i < c.n; i++) regs[c.d + i] = tmp[k++]; }
  f.pc = e->target;
}
// return from the current frame with values
static bool popFrame(const Val *rv, u32 n) {
  Frame &f = cur->fr.back(); popStack(f); DCall *call = f.call; if (f.va) delete f.va; cur->regTop = f.regOff; cur->fr.pop_back();
  if (cur->fr.empty()) return false;
  Frame &c = cur->fr.back(); Val *regs = cur->regs0 + c.regOff;
  if (call) { if (call->dst >= 0) for (u32 i = 0; i < n; i++) regs[call->dst + i] = rv[i]; if (call->norm) takeEdge(c, regs, poolFor(c.f, cur->id < 0 ? 0 : cur->id), call->norm); else c.pc++; }
  return true;
}
static bool tiMatch(u64 thrown, u64 want);
static void doThrow(Val obj, Val ti) { // unwinds cur
  cur->excObj = obj; cur->excTi = ti;
  for (;;) {
    if (cur->fr.empty()) { violation("uncaught exception", "exception escaped", nullptr); endPath(3); }
    Frame &f = cur->fr.back(); DI &d = f.f->code[f.pc]; DCall *c = d.op == D_CALL ? (DCall *)d.p : nullptr;
    if (c && c->unw) { takeEdge(f, cur->regs0 + f.regOff, poolFor(f.f, cur->id < 0 ? 0 : cur->id), c->unw); return; }
    popStack(f); if (f.va) delete f.va; cur->regTop = f.regOff; cur->fr.pop_back();
    if (cur->fr.empty()) { // no handler: std::terminate
      violation("uncaught exception", "exception escaped the entry point", nullptr); endPath(3); }
  }
}
static std::string tiName(u64 ti) { u64 n = *(u64 *)(ti + 8); return std::string((const char *)n); }
static bool tiMatch(u64 thrown, u64 want) {
  if (thrown == want) return true; if (tiName(thrown) == tiName(want)) return true;
  u64 vp = *(u64 *)thrown; static u64 si = 0, vmi = 0; if (!si) { si = (u64)dlsym(RTLD_DEFAULT, "_ZTVN10__cxxabiv120__si_class_type_infoE") + 16; vmi = (u64)dlsym(RTLD_DEFAULT, "_ZTVN10__cxxabiv121__vmi_class_type_infoE") + 16; }
  if (vp == si) return tiMatch(*(u64 *)(thrown + 16), want);
  if (vp == vmi) { u32 n = *(u32 *)(thrown + 20); for (u32 i = 0; i < n; i++) if (tiMatch(*(u64 *)(thrown + 24 + 16 * i), want)) return true; }
  return false;
}
static bool switchRank() { // choose the next runnable rank, false if none
  int n = nactive; for (int k = 1; k <= n; k++) { int i = (curRankIdx + k) % n; Rank *r = ranks[i]; if (r->status == 0 || (r->status == 1 && r->blockedAt != epoch_)) { r->status = 0; curRankIdx = i; cur = r; return true; } }
  return false;
}
static void rankDone() {
  cur->status = 2; epoch_++; bool all = true; for (int i = 0; i < nactive; i++) if (ranks[i]->status != 2) all = false;
  if (all) { nactive = 0; curRankIdx = -1; cur = mainRank; Frame &f = cur->fr.back(); f.pc++; return; }
  if (!switchRank()) { violation("deadlock", "all processes wait", nullptr); endPath(3); }
}
static void execCall(DI &d, Frame &f, Val *regs, Val *pool);
static void intrinsic(DI &d, DCall *c, Frame &f, Val *regs, Val *pool);

static void run() {
  for (;;) {
    Frame &f = cur->fr.back(); Val *regs = cur->regs0 + f.regOff; Val *pool = f.f->pool[cur->id < 0 ? 0 : cur->id]; DI *code = f.f->code.data();
#define OP(o) ((o) >= 0 ? regs[o] : pool[~(o)])
#define OPI(o, i) ((o) >= 0 ? regs[(o) + (i)] : pool[~(o) + (i)])
    for (;;) {
      DI &d = code[f.pc];
      if ((++instCount & 0xfffff) == 0) { stopCheck(); if (optMaxInst && instCount > optMaxInst) { note("instruction limit\n" + backtrace_()); violation("no termination", "instruction limit exceeded", nullptr); endPath(4); } }
      switch (d.op) {
      case D_BIN: {
        for (u32 i = 0; i < d.n; i++) {
          Val a = OPI(d.a, i), b = OPI(d.b, i);
          if (!a.s && !b.s) { u64 m = maskw(d.w); u64 r;
            switch (d.sub) { case ADD: r = a.c + b.c; break; case SUB: r = a.c - b.c; break; case MUL: r = a.c * b.c; break; case AND: r = a.c & b.c; break; case OR: r = a.c | b.c; break; case XOR: r = a.c ^ b.c; break; case SHL: r = b.c >= d.w ? 0 : a.c << b.c; break; case LSHR: r = b.c >= d.w ? 0 : a.c >> b.c; break; case ASHR: r = (u64)(sx(a.c, d.w) >> (b.c >= d.w ? d.w - 1 : b.c)); break;
            default: if (b.c == 0) { violation("division by zero", "integer division by zero", nullptr); endPath(3); }
              switch (d.sub) { case UDIV: r = a.c / b.c; break; case UREM: r = a.c % b.c; break;
              case SDIV: { i64 y = sx(b.c, d.w); r = y == -1 ? 0 - a.c : (u64)(sx(a.c, d.w) / y); break; } default: { i64 y = sx(b.c, d.w); r = y == -1 ? 0 : (u64)(sx(a.c, d.w) % y); } } }
            if (d.w > 64) unsupported("wide integer arithmetic");
            regs[d.d + i] = cv(r & m); }
          else {
            if (d.w > 64) unsupported("wide integer arithmetic");
            if ((d.sub == UDIV || d.sub == SDIV || d.sub == UREM || d.sub == SREM) && b.s) { if (decide(vCmp(EQ, b, cv(0), d.w))) { violation("division by zero", "integer division by zero", nullptr); endPath(3); } regs = cur->regs0 + f.regOff; }
            regs[d.d + i] = vBin((Op)d.sub, a, b, d.w); }
        }
        f.pc++; break; }
      case D_ICMP: {
        for (u32 i = 0; i < d.n; i++) {
          Val a = OPI(d.a, i), b = OPI(d.b, i);
          if (!a.s && !b.s) { bool r; i64 x = sx(a.c, d.w), y = sx(b.c, d.w);
            switch (d.sub) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_SGT: r = x > y; break; case CmpInst::ICMP_SGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = x < y; break; default: r = x <= y; }
            regs[d.d + i] = cv(r); }
          else { Val r; switch (d.sub) { case CmpInst::ICMP_EQ: r = vCmp(EQ, a, b, d.w); break; case CmpInst::ICMP_NE: r = vNot(vCmp(EQ, a, b, d.w)); break; case CmpInst::ICMP_UGT: r = vCmp(ULT, b, a, d.w); break; case CmpInst::ICMP_UGE: r = vCmp(ULE, b, a, d.w); break; case CmpInst::ICMP_ULT: r = vCmp(ULT, a, b, d.w); break; case CmpInst::ICMP_ULE: r = vCmp(ULE, a, b, d.w); break; case CmpInst::ICMP_SGT: r = vCmp(SLT, b, a, d.w); break; case CmpInst::ICMP_SGE: r = vCmp(SLE, b, a, d.w); break; case CmpInst::ICMP_SLT: r = vCmp(SLT, a, b, d.w); break; default: r = vCmp(SLE, a, b, d.w); } regs[d.d + i] = r; }
        }
        f.pc++; break; }
      case D_FBIN: for (u32 i = 0; i < d.n; i++) { Val a = OPI(d.a, i), b = OPI(d.b, i);
          if (d.sub == FDIV && b.s && !g_ieee) { b = vNorm(b); if (b.s && decide(vFCmp(FEQ, b, cv(0), d.w))) b = cv(0); }
          regs[d.d + i] = vFBin((Op)d.sub, a, b, d.w); } f.pc++; break;
      case D_FNEG: for (u32 i = 0; i < d.n; i++) regs[d.d + i] = vFNeg(OPI(d.a, i), d.w); f.pc++; break;
      case D_FCMP: for (u32 i = 0; i < d.n; i++) {
          Val a = OPI(d.a, i), b = OPI(d.b, i), r; u32 w = d.w; 
          auto uno = [&]() -> Val { if (g_ieee) { Val x = a.s ? vNot(vFCmp(FEQ, a, a, w)) : cv(std::isnan(fpval(a.c, w))), y = b.s ? vNot(vFCmp(FEQ, b, b, w)) : cv(std::isnan(fpval(b.c, w))); return vBin(OR, x, y, 1); } return cv((!a.s && std::isnan(fpval(a.c, w))) || (!b.s && std::isnan(fpval(b.c, w)))); };
          switch (d.sub) { case CmpInst::FCMP_FALSE: r = cv(0); break; case CmpInst::FCMP_TRUE: r = cv(1); break; case CmpInst::FCMP_OEQ: r = vFCmp(FEQ, a, b, w); break; case CmpInst::FCMP_OGT: r = vFCmp(FLT, b, a, w); break; case CmpInst::FCMP_OGE: r = vFCmp(FLE, b, a, w); break; case CmpInst::FCMP_OLT: r = vFCmp(FLT, a, b, w); break; case CmpInst::FCMP_OLE: r = vFCmp(FLE, a, b, w); break;
          case CmpInst::FCMP_ONE: r = vBin(AND, vNot(vFCmp(FEQ, a, b, w)), vNot(uno()), 1); break; case CmpInst::FCMP_ORD: r = vNot(uno()); break; case CmpInst::FCMP_UNO: r = uno(); break; case CmpInst::FCMP_UEQ: r = vBin(OR, vFCmp(FEQ, a, b, w), uno(), 1); break;
          case CmpInst::FCMP_UGT: r = vBin(OR, vFCmp(FLT, b, a, w), uno(), 1); break; case CmpInst::FCMP_UGE: r = vBin(OR, vFCmp(FLE, b, a, w), uno(), 1); break; case CmpInst::FCMP_ULT: r = vBin(OR, vFCmp(FLT, a, b, w), uno(), 1); break; case CmpInst::FCMP_ULE: r = vBin(OR, vFCmp(FLE, a, b, w), uno(), 1); break; default: r = vNot(vFCmp(FEQ, a, b, w)); /* UNE */ }
          regs[d.d + i] = r; } f.pc++; break;
      case D_SELECT: { TypeLay *l = (TypeLay *)d.p;
        for (u32 i = 0; i < d.n; i++) { Val c = OPI(d.a, d.sub ? i : 0), a = OPI(d.b, i), b = OPI(d.c, i);
          if (!c.s) regs[d.d + i] = (c.c & 1) ? a : b;
          else { bool fp = l->leaves[i].kind == L_FP; u32 w = l->leaves[i].bits; bool bad = fp && !g_ieee && ((!a.s && !std::isfinite(fpval(a.c, w))) || (!b.s && !std::isfinite(fpval(b.c, w))));
            if (!bad && fp && optSel == 1 && !(a.s == b.s && a.c == b.c)) { c = vNorm(c); int q = c.s ? entailed(c.s) : (int)(c.c & 1); if (q >= 0) { regs[d.d + i] = q ? a : b; continue; } }
            if (bad || l->leaves[i].kind == L_PTR || (fp && optSel == 2)) { regs[d.d + i] = decide(c) ? a : b; } else regs[d.d + i] = vIte(c, a, b, w, fp); } }
        f.pc++; break; }
      case D_LOAD: { TypeLay *l = (TypeLay *)d.p; Val a = OP(d.a);
        if (!a.s) { checkAccess(a.c, l->leaves[0].bytes, false); regs[d.d] = rawRead(a.c, l->leaves[0]); } else regs[d.d] = loadAt(a, l->leaves[0]);
        f.pc++; break; }
      case D_LOADN: { TypeLay *l = (TypeLay *)d.p; u64 a = addrOf(OP(d.a)); checkAccess(a, l->leaves.back().off + l->leaves.back().bytes, false); for (u32 i = 0; i < d.n; i++) regs[d.d + i] = rawRead(a + l->leaves[i].off, l->leaves[i]); f.pc++; break; }
      case D_STORE: { TypeLay *l = (TypeLay *)d.p; u64 a = addrOf(OP(d.b)); checkAccess(a, l->leaves[0].bytes, true); rawWrite(a, l->leaves[0], OP(d.a)); f.pc++; break; }
      case D_STOREN: { TypeLay *l = (TypeLay *)d.p; if (d.n) { u64 a = addrOf(OP(d.b)); checkAccess(a, l->leaves.back().off + l->leaves.back().bytes, true); for (u32 i = 0; i < d.n; i++) rawWrite(a + l->leaves[i].off, l->leaves[i], OPI(d.a, i)); } f.pc++; break; }
      case D_ALLOCA: { Val n = OP(d.a); u64 k = n.s ? concretize(n, 64) : n.c; regs[d.d] = cv(stackAlloc(f, k * (u64)d.p, d.b)); f.pc++; break; }
      case D_GEP: { DGep *g = (DGep *)d.p; Val b = OP(g->base); u64 off = g->off; bool sym = b.s; 
        for (auto &ix : g->idx) { Val v = OP(ix.op); if (v.s) { sym = true; break; } off += (u64)sx(v.c, ix.w) * ix.scale; }
        if (!sym) { regs[d.d] = cv(b.c + off); }
        else { Val r = vBin(ADD, b, cv((u64)g->off), 64); for (auto &ix : g->idx) { Val v = vSext(OP(ix.op), ix.w, 64); r = vBin(ADD, r, vBin(MUL, v, cv(ix.scale), 64), 64); } regs[d.d] = r; }
        f.pc++; break; }
      case D_GEPV: { DGep *g = (DGep *)d.p; std::vector<Val> out(g->nl); for (u32 i = 0; i < g->nl; i++) { Val r = vBin(ADD, OPI(g->base, g->baseN > 1 ? i : 0), cv((u64)g->off), 64); for (size_t k = 0; k < g->idx.size(); k++) { auto &ix = g->idx[k]; Val v = vSext(OPI(ix.op, g->idxN[k] > 1 ? i : 0), ix.w, 64); r = vBin(ADD, r, vBin(MUL, v, cv(ix.scale), 64), 64); } out[i] = r; } for (u32 i = 0; i < g->nl; i++) regs[d.d + i] = out[i]; f.pc++; break; }
      case D_TRUNC: for (u32 i = 0; i < d.n; i++) { Val a = OPI(d.a, i); regs[d.d + i] = a.s ? vExtract(a, 0, d.w, d.sub) : cv(a.c & maskw(d.w)); } f.pc++; break;
      case D_ZEXT: if (d.w > 64) unsupported("wide zext"); for (u32 i = 0; i < d.n; i++) { Val a = OPI(d.a, i); regs[d.d + i] = a.s ? vZext(a, d.sub, d.w) : a; } f.pc++; break;
      case D_SEXT: if (d.w > 64) unsupported("wide sext"); for (u32 i = 0; i < d.n; i++) { Val a = OPI(d.a, i); regs[d.d + i] = vSext(a, d.sub, d.w); } f.pc++; break;
      case D_SITOFP: for (u32 i = 0; i < d.n; i++) regs[d.d + i] = vI2F(OPI(d.a, i), d.sub, d.w, true); f.pc++; break;
      case D_UITOFP: for (u32 i = 0; i < d.n; i++) regs[d.d + i] = vI2F(OPI(d.a, i), d.sub, d.w, false); f.pc++; break;
      case D_FPTOSI: case D_FPTOUI: for (u32 i = 0; i < d.n; i++) { Val a = vNorm(OPI(d.a, i)); if (!a.s) { double x = fpval(a.c, d.sub); u64 r = d.op == D_FPTOSI ? (x >= -9.3e18 && x <= 9.2e18 ? (u64)(i64)x : 0x8000000000000000ull) : (x >= 0 && x < 1.8e19 ? (u64)x : (u64)(i64)(x > -9e18 && x < 9e18 ? x : 0)); regs[d.d + i] = cv(r & maskw(d.w)); } else if (g_ieee) unsupported("fptosi in ieee mode"); else { Val r = fptoint(a, d.sub, d.w, d.op == D_FPTOSI, false); regs[d.d + i] = r; } } f.pc++; break;
      case D_FPCAST: for (u32 i = 0; i < d.n; i++) regs[d.d + i] = vFCast(OPI(d.a, i), d.sub, d.w); f.pc++; break;
      case D_COPY: for (u32 i = 0; i < d.n; i++) regs[d.d + i] = OPI(d.a, i); f.pc++; break;
      case D_BITCAST: { TypeLay *fl = (TypeLay *)d.p, *tl = lay(d.I->getType());
        if (fl->leaves.size() == tl->leaves.size()) for (u32 i = 0; i < d.n; i++) { Val a = OPI(d.a, i); bool ff = fl->leaves[i].kind == L_FP, tf = tl->leaves[i].kind == L_FP; regs[d.d + i] = ff == tf ? a : tf ? vFromBits(a, tl->leaves[i].bits) : vBits(a, fl->leaves[i].bits); }
        else { // through memory
          std::vector<Val> in(fl->leaves.size()); for (size_t i = 0; i < in.size(); i++) in[i] = OPI(d.a, i);
          u32 fb = fl->leaves[0].bits, tb = tl->leaves[0].bits;
          if (fb < 8 || tb < 8) { u64 acc = 0; bool s = false; for (size_t i = 0; i < in.size(); i++) { s |= in[i].s != nullptr; if (fb < 64) acc |= in[i].c << (fb * i); else acc = in[i].c; }
            if (!s) { for (u32 i = 0; i < d.n; i++) regs[d.d + i] = cv((acc >> (tb * i)) & maskw(tb)); }
            else { Val r = in[0]; u32 w = fb; for (size_t i = 1; i < in.size(); i++) { r = vConcat(in[i], fb, r, w); w += fb; } for (u32 i = 0; i < d.n; i++) regs[d.d + i] = vExtract(r, tb * i, tb, w); } }
          else { Frame tmp{f.f, 0, 0, nullptr, {}, cur->sp, nullptr}; u64 a = stackAlloc(tmp, 64, 16); for (size_t i = 0; i < in.size(); i++) rawWrite(a + fl->leaves[i].off, fl->leaves[i], in[i]); for (u32 i = 0; i < d.n; i++) regs[d.d + i] = rawRead(a + tl->leaves[i].off, tl->leaves[i]); popStack(tmp); } }
        f.pc++; break; }
      case D_BR: takeEdge(f, regs, pool, (Edge *)d.p); break;
      case D_CBR: { Val c = OP(d.a); bool t; if (!c.s) t = c.c & 1; else { t = decide(c); } takeEdge(f, regs, pool, ((Edge **)d.p)[t ? 0 : 1]); break; }
      case D_SWITCH: { DSwitch *s = (DSwitch *)d.p; Val v = vNorm(OP(d.a)); Edge *e = s->def;
        if (!v.s) { for (auto &c : s->cases) if (c.first == v.c) { e = c.second; break; } }
        else { // group the cases by target, one decision per target
          std::vector<Edge *> order; std::map<int, std::vector<u64>> vals; std::map<int, Edge *> rep;
          for (auto &c : s->cases) { int key = c.second->cps.empty() ? c.second->target : -(int)(&c - &s->cases[0]) - 2; if (!rep.count(key)) { rep[key] = c.second; order.push_back(c.second); } vals[key].push_back(c.first); }
          for (auto &kv : rep) { Val any = cv(0); for (u64 x : vals[kv.first]) any = vBin(OR, any, vCmp(EQ, v, cv(x), s->w), 1); if (decide(any)) { e = kv.second; break; } } }
        takeEdge(f, regs, pool, e); break; }
      case D_RET: { Val rv[64]; if (d.n > 64) unsupported("huge return"); for (u32 i = 0; i < d.n; i++) rv[i] = OPI(d.a, i); u32 n = d.n;
        if (!popFrame(rv, n)) { if (cur == mainRank) return; rankDone(); }
        goto reload; }
      case D_CALL: execCall(d, f, regs, pool); goto reload;
      case D_UNREACH: violation("unreachable code", "unreachable executed (missing return or undefined behaviour)", nullptr); endPath(3);
      case D_INSERTV: { std::vector<Val> t(d.n); for (u32 i = 0; i < d.n; i++) t[i] = OPI(d.a, i); for (u32 i = 0; i < d.sub; i++) t[d.c + i] = OPI(d.b, i); for (u32 i = 0; i < d.n; i++) regs[d.d + i] = t[i]; f.pc++; break; }
      case D_EXTRACTE: { u64 ix = concretize(OP(d.b), 64); regs[d.d] = ix < d.sub ? OPI(d.a, ix) : cv(0); f.pc++; break; }
      case D_INSERTE: { u64 ix = concretize(OP(d.c), 64); Val x = OP(d.b); std::vector<Val> t(d.n); for (u32 i = 0; i < d.n; i++) t[i] = OPI(d.a, i); if (ix < d.n) t[ix] = x; for (u32 i = 0; i < d.n; i++) regs[d.d + i] = t[i]; f.pc++; break; }
      case D_SHUFFLE: { DShuf *s = (DShuf *)d.p; std::vector<Val> t(d.n); for (u32 i = 0; i < d.n; i++) { int m = s->m[i]; t[i] = m < 0 ? cv(0) : (u32)m < s->n1 ? OPI(d.a, m) : OPI(d.b, m - s->n1); } for (u32 i = 0; i < d.n; i++) regs[d.d + i] = t[i]; f.pc++; break; }
      case D_LANDING: { DLand *l = (DLand *)d.p; int sel = 0; bool hit = false; for (auto &c : l->clauses) if (c.first == 0) { u64 w = OP(c.second).c; if (w == 0 || tiMatch(cur->excTi.c, w)) { sel = w == 0 ? 1 : (int)(w & 0x7fffffff); hit = true; break; } } else { hit = true; sel = -1; break; }
        if (!hit && !l->cleanup) { popStack(f); if (f.va) delete f.va; cur->regTop = f.regOff; cur->fr.pop_back(); doThrow(cur->excObj, cur->excTi); goto reload; }
        regs[d.d] = cur->excObj; regs[d.d + 1] = cv((u32)sel); f.pc++; break; }
      case D_RESUME: { popStack(f); if (f.va) delete f.va; cur->regTop = f.regOff; cur->fr.pop_back(); if (cur->fr.empty()) { violation("uncaught exception", "exception escaped", nullptr); endPath(3); } doThrow(cur->excObj, cur->excTi); goto reload; }
      case D_RMW: { TypeLay *l = (TypeLay *)d.p; u64 a = addrOf(OP(d.a)); checkAccess(a, l->leaves[0].bytes, true); Val o = rawRead(a, l->leaves[0]), v = OP(d.b), n; u32 w = l->leaves[0].bits;
        switch (d.sub) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = vBin(ADD, o, v, w); break; case AtomicRMWInst::Sub: n = vBin(SUB, o, v, w); break; case AtomicRMWInst::And: n = vBin(AND, o, v, w); break; case AtomicRMWInst::Or: n = vBin(OR, o, v, w); break; case AtomicRMWInst::Xor: n = vBin(XOR, o, v, w); break; case AtomicRMWInst::FAdd: n = vFBin(FADD, o, v, w); break; case AtomicRMWInst::Max: n = vIte(vCmp(SLT, o, v, w), v, o, w, false); break; case AtomicRMWInst::Min: n = vIte(vCmp(SLT, v, o, w), v, o, w, false); break; default: unsupported("atomicrmw"); }
        rawWrite(a, l->leaves[0], n); regs[d.d] = o; f.pc++; break; }
      case D_CMPXCHG: { TypeLay *l = (TypeLay *)d.p; u64 a = addrOf(OP(d.a)); checkAccess(a, l->leaves[0].bytes, true); Val o = rawRead(a, l->leaves[0]); Val eq = vCmp(EQ, o, OP(d.b), l->leaves[0].bits); bool e = decide(eq); if (e) rawWrite(a, l->leaves[0], OP(d.c)); regs[d.d] = o; regs[d.d + 1] = cv(e); f.pc++; break; }
      case D_NOP: f.pc++; break;
      default: { std::string s; raw_string_ostream os(s); d.I->print(os); unsupported("instruction " + os.str()); }
      }
      continue;
    reload:
      break;
    }
  }
}
static std::unordered_map<u64, std::string> missingCache;
static void execCall(DI &d, Frame &f, Val *regs, Val *pool) {
  DCall *c = (DCall *)d.p;
  if (c->iid) { intrinsic(d, c, f, regs, pool); if (c->norm) takeEdge(cur->fr.back(), regs, pool, c->norm); else cur->fr.back().pc++; return; }
  DFunc *df = c->df; Builtin bi = c->bi; void *nat = c->native; Function *callee = c->callee;
  if (!c->resolved || !callee) {
    df = nullptr; bi = nullptr; nat = nullptr;
    if (callee) {
      auto b = builtins.find(callee->getName().str());
      if (b != builtins.end()) bi = b->second;
      else if (!callee->isDeclaration()) df = fmap[callee];
      else { nat = dlsym(RTLD_DEFAULT, callee->getName().str().c_str()); if (!nat) { sh->unsupported++; note("call to missing function " + demangle(callee->getName().str()) + "\n" + backtrace_()); endPath(4); } }
      c->df = df; c->bi = bi; c->native = nat; c->resolved = true;
    } else {
      u64 a = addrOf(OP(c->calleeOp)); auto it = faddr.find(a);
      if (it != faddr.end()) { Function *tf = it->second->F; auto b = builtins.find(tf->getName().str()); if (b != builtins.end()) bi = b->second; else if (tf->isDeclaration()) { nat = dlsym(RTLD_DEFAULT, tf->getName().str().c_str()); if (!nat) { note("indirect call to missing function " + demangle(tf->getName().str())); sh->unsupported++; endPath(4); } } else df = it->second; }
      else if (a < 65536) { violation("memory error", a ? "call through invalid function pointer (pure virtual?)" : "call through null function pointer", nullptr); endPath(3); }
      else if (inArena(a)) { violation("memory error", "call through invalid function pointer", nullptr); endPath(3); }
      else { Dl_info di; if (!dladdr((void *)a, &di)) { violation("memory error", "call through invalid function pointer", nullptr); endPath(3); } nat = (void *)a; }
    }
  }
  if (df) {
    Val args[256]; u32 k = 0; Function *F = df->F; if (!df->decoded) decode(df); std::vector<std::pair<Val, Leaf>> *va = nullptr; u32 nfix = F->arg_size(); std::vector<u32> bvObjs; u64 sp0 = cur->sp;
    std::vector<std::pair<u64, u64>> bvs; Frame tmp{df, 0, 0, nullptr, {}, sp0, nullptr};
    for (u32 i = 0; i < c->args.size(); i++) { Arg &a = c->args[i];
      if (i < nfix) { if (k + a.n > 256) unsupported("too many args"); if (a.byval) { u64 s = addrOf(OP(a.op)); u64 m = stackAlloc(tmp, a.byval, 16); checkAccess(s, a.byval, false); copyMem(m, s, a.byval); args[k++] = cv(m); } else for (u32 j = 0; j < a.n; j++) args[k++] = OPI(a.op, j); }
      else { if (!va) va = new std::vector<std::pair<Val, Leaf>>(); for (u32 j = 0; j < a.n; j++) va->push_back({OPI(a.op, j), a.lv[j]}); } }
    if (F->isVarArg() && !va) va = new std::vector<std::pair<Val, Leaf>>();
    pushFrame(df, c, args, k, va); Frame &nf = cur->fr.back(); if (!tmp.stk.empty()) { nf.stk = tmp.stk; nf.savedSp = sp0; }
    return;
  }
  if (bi) {
    CallCtx x; x.c = c; x.f = &f; x.regs = regs; x.pool = pool; for (auto &a : c->args) for (u32 j = 0; j < a.n; j++) x.a.push_back(OPI(a.op, j));
    for (auto &r : x.ret) r = cv(0); x.handled = false;
    bi(x);
    if (x.handled) return; // control already transferred
    if (c->dst >= 0) for (u32 i = 0; i < c->ret->leaves.size() && i < 8; i++) regs[c->dst + i] = x.ret[i];
    if (c->norm) takeEdge(cur->fr.back(), regs, pool, c->norm); else cur->fr.back().pc++;
    return;
  }
  // native call: everything reachable directly must be concrete
  std::vector<Val> flat; std::vector<Leaf> lv;
  std::string nm = callee ? callee->getName().str() : "indirect";
  for (auto &a : c->args) for (u32 j = 0; j < a.n; j++) {
    Val v = vNorm(OPI(a.op, j));
    if (v.s) { if (a.lv[j].kind == L_FP) unsupported("symbolic double passed to native " + nm); note("symbolic argument of native " + demangle(nm) + " concretized by forking"); v = cv(concretize(v, a.lv[j].bits)); }
    if (a.lv[j].kind == L_PTR && inArena(v.c)) { Obj *o = objAt(v.c); if (o && o->hasSym && (nm == "__dynamic_cast" ? j == 0 && symIn(v.c, 8) : symIn(o->base, o->size))) unsupported("native call to " + demangle(nm) + " with symbolic memory"); }
    flat.push_back(v); lv.push_back(a.lv[j]); }
  Val out[8]; for (auto &r : out) r = cv(0);
  nativeCall(nat, flat, lv, c->ret, out);
  if (c->dst >= 0) for (u32 i = 0; i < c->ret->leaves.size() && i < 8; i++) regs[c->dst + i] = out[i];
  if (c->norm) takeEdge(cur->fr.back(), regs, pool, c->norm); else cur->fr.back().pc++;
}
static double natMath(const std::string &n, double x) { void *p = dlsym(RTLD_DEFAULT, n.c_str()); return ((double (*)(double))p)(x); }
static void intrinsic(DI &d, DCall *c, Frame &f, Val *regs, Val *pool) {
  auto A = [&](int i, u32 j = 0) -> Val { return vNorm(OPI(c->args[i].op, j)); };
  u32 n = c->ret->leaves.size(); u32 w = n ? c->ret->leaves[0].bits : 0; Val r[64]; for (u32 i = 0; i < n && i < 64; i++) r[i] = cv(0);
  switch (c->iid) {
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { u64 k = concretize(A(2), 64); if (k) { u64 dd = addrOf(A(0)), s = addrOf(A(1)); checkAccess(s, k, false); checkAccess(dd, k, true); copyMem(dd, s, k); } break; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { u64 k = concretize(A(2), 64); if (k) { u64 dd = addrOf(A(0)); checkAccess(dd, k, true); Val v = A(1); if (v.s) for (u64 i = 0; i < k; i++) rawWrite(dd + i, LI8, v); else { memset((void *)dd, v.c, k); Obj *o = objAt(dd); if (o && o->hasSym) for (u64 i = 0; i < k; i++) if (SymCell *cc = cellOf(dd + i)) cc->e[(dd + i) & 7] = nullptr; } } break; }
  case Intrinsic::umax: for (u32 i = 0; i < n; i++) r[i] = vIte(vCmp(ULT, A(0, i), A(1, i), w), A(1, i), A(0, i), w, false); break;
  case Intrinsic::umin: for (u32 i = 0; i < n; i++) r[i] = vIte(vCmp(ULT, A(0, i), A(1, i), w), A(0, i), A(1, i), w, false); break;
  case Intrinsic::smax: for (u32 i = 0; i < n; i++) r[i] = vIte(vCmp(SLT, A(0, i), A(1, i), w), A(1, i), A(0, i), w, false); break;
  case Intrinsic::smin: for (u32 i = 0; i < n; i++) r[i] = vIte(vCmp(SLT, A(0, i), A(1, i), w), A(0, i), A(1, i), w, false); break;
  case Intrinsic::abs: for (u32 i = 0; i < n; i++) r[i] = vIte(vCmp(SLT, A(0, i), cv(0), w), vBin(SUB, cv(0), A(0, i), w), A(0, i), w, false); break;
  case Intrinsic::uadd_sat: for (u32 i = 0; i < n; i++) { Val s = vBin(ADD, A(0, i), A(1, i), w); r[i] = vIte(vCmp(ULT, s, A(0, i), w), cv(maskw(w)), s, w, false); } break;
  case Intrinsic::usub_sat: for (u32 i = 0; i < n; i++) r[i] = vIte(vCmp(ULT, A(0, i), A(1, i), w), cv(0), vBin(SUB, A(0, i), A(1, i), w), w, false); break;
  case Intrinsic::uadd_with_overflow: { r[0] = vBin(ADD, A(0), A(1), w); r[1] = vCmp(ULT, r[0], A(0), w); break; }
  case Intrinsic::usub_with_overflow: { r[0] = vBin(SUB, A(0), A(1), w); r[1] = vCmp(ULT, A(0), A(1), w); break; }
  case Intrinsic::umul_with_overflow: { Val a = A(0), b = A(1); r[0] = vBin(MUL, a, b, w); if (!a.s && !b.s) r[1] = cv(((u128)a.c * b.c) >> w ? 1 : 0); else { Val k = a.s ? b : a, x = a.s ? a : b; if (k.s) unsupported("symbolic mul overflow"); r[1] = k.c ? vCmp(ULT, cv(maskw(w) / k.c), x, w) : cv(0); } break; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    Val a = A(0), b = A(1); if (a.s || b.s) { if (w <= 32 ) { Val x = vSext(a, w, 64), y = vSext(b, w, 64); Op o = c->iid == Intrinsic::sadd_with_overflow ? ADD : c->iid == Intrinsic::ssub_with_overflow ? SUB : MUL; Val z = vBin(o, x, y, 64); r[0] = vExtract(z, 0, w, 64); r[1] = vNot(vCmp(EQ, vSext(r[0], w, 64), z, 64)); } else unsupported("symbolic signed overflow intrinsic"); }
    else { __int128 x = sx(a.c, w), y = sx(b.c, w), z = c->iid == Intrinsic::sadd_with_overflow ? x + y : c->iid == Intrinsic::ssub_with_overflow ? x - y : x * y; u64 lo = (u64)z & maskw(w); r[0] = cv(lo); r[1] = cv((__int128)sx(lo, w) != z); } break; }
  case Intrinsic::ctpop: for (u32 i = 0; i < n; i++) { Val a = A(0, i); if (!a.s) r[i] = cv(__builtin_popcountll(a.c)); else { Val s = cv(0); for (u32 k = 0; k < w; k++) s = vBin(ADD, s, vZext(vExtract(a, k, 1, w), 1, w), w); r[i] = s; } } break;
  case Intrinsic::ctlz: for (u32 i = 0; i < n; i++) { Val a = A(0, i); if (!a.s) r[i] = cv(a.c ? __builtin_clzll(a.c) - (64 - w) : w); else { Val s = cv(w); for (u32 k = 0; k < w; k++) s = vIte(vExtract(a, k, 1, w), cv(w - 1 - k), s, w, false); r[i] = s; } } break;
  case Intrinsic::cttz: for (u32 i = 0; i < n; i++) { Val a = A(0, i); if (!a.s) r[i] = cv(a.c ? __builtin_ctzll(a.c) : w); else { Val s = cv(w); for (int k = w - 1; k >= 0; k--) s = vIte(vExtract(a, k, 1, w), cv(k), s, w, false); r[i] = s; } } break;
  case Intrinsic::bswap: for (u32 i = 0; i < n; i++) { Val a = A(0, i); Val s = vExtract(a, 0, 8, w); for (u32 k = 1; k < w / 8; k++) s = vConcat(s, 8 * k, vExtract(a, 8 * k, 8, w), 8); r[i] = s; } break;
  case Intrinsic::fshl: case Intrinsic::fshr: for (u32 i = 0; i < n; i++) { Val a = A(0, i), b = A(1, i); u64 s = concretize(A(2, i), w) % w; if (c->iid == Intrinsic::fshl) r[i] = s ? vBin(OR, vBin(SHL, a, cv(s), w), vBin(LSHR, b, cv(w - s), w), w) : a; else r[i] = s ? vBin(OR, vBin(SHL, a, cv(w - s), w), vBin(LSHR, b, cv(s), w), w) : b; } break;
  case Intrinsic::fabs: for (u32 i = 0; i < n; i++) r[i] = vFAbs(A(0, i), w); break;
  case Intrinsic::sqrt: for (u32 i = 0; i < n; i++) r[i] = doSqrt(A(0, i), w); break;
  case Intrinsic::fma: case Intrinsic::fmuladd: for (u32 i = 0; i < n; i++) { Val a = A(0, i), b = A(1, i), e = A(2, i); if (!a.s && !b.s && !e.s && c->iid == Intrinsic::fma) r[i] = cv(fpbits(std::fma(fpval(a.c, w), fpval(b.c, w), fpval(e.c, w)), w)); else r[i] = vFBin(FADD, vFBin(FMUL, a, b, w), e, w); } break;
  case Intrinsic::minnum: case Intrinsic::maxnum: for (u32 i = 0; i < n; i++) { Val a = A(0, i), b = A(1, i); Val lt = vFCmp(FLT, a, b, w); bool mn = c->iid == Intrinsic::minnum; if (!a.s && std::isnan(fpval(a.c, w))) r[i] = b; else if (!b.s && std::isnan(fpval(b.c, w))) r[i] = a; else r[i] = !lt.s ? ((lt.c != 0) == mn ? a : b) : vIte(lt, mn ? a : b, mn ? b : a, w, true); } break;
  case Intrinsic::copysign: for (u32 i = 0; i < n; i++) { Val a = A(0, i), b = A(1, i); if (!a.s && !b.s) r[i] = cv(fpbits(std::copysign(fpval(a.c, w), fpval(b.c, w)), w)); else { Val m = vFAbs(a, w); Val neg = b.s ? vFCmp(FLT, b, cv(0), w) : cv(std::signbit(fpval(b.c, w))); r[i] = vIte(neg, vFNeg(m, w), m, w, true); } } break;
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round:
    for (u32 i = 0; i < n; i++) { Val a = A(0, i); if (!a.s) { double x = fpval(a.c, w); r[i] = cv(fpbits(c->iid == Intrinsic::floor ? floor(x) : c->iid == Intrinsic::ceil ? ceil(x) : c->iid == Intrinsic::trunc ? trunc(x) : c->iid == Intrinsic::round ? round(x) : rint(x), w)); } else if (!g_ieee && c->iid == Intrinsic::floor) r[i] = vI2F(fptoint(a, w, 32, true, true), 32, w, true); else if (!g_ieee && c->iid == Intrinsic::ceil) r[i] = vFNeg(vI2F(fptoint(vFNeg(a, w), w, 32, true, true), 32, w, true), w); else if (!g_ieee && c->iid == Intrinsic::trunc) r[i] = vI2F(fptoint(a, w, 32, true, false), 32, w, true); else unsupported("symbolic rounding"); } break;
  case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::log2: case Intrinsic::exp2:
    for (u32 i = 0; i < n; i++) { Val a = A(0, i); if (a.s) { r[i] = symMath(Intrinsic::getBaseName(c->iid).str(), a, cv(0), w); continue; } std::string nm = Intrinsic::getBaseName(c->iid).str().substr(5); r[i] = cv(fpbits(natMath(nm, fpval(a.c, w)), w)); } break;
  case Intrinsic::pow: for (u32 i = 0; i < n; i++) { Val a = A(0, i), b = A(1, i); if (!a.s && !b.s) r[i] = cv(fpbits(std::pow(fpval(a.c, w), fpval(b.c, w)), w)); else r[i] = symMath("pow", a, b, w); } break;
  case Intrinsic::powi: for (u32 i = 0; i < n; i++) { Val a = A(0, i); int k = (int)sx(concretize(A(1), 32), 32); Val x = cv(fpbits(1, w)); for (int q = 0; q < std::abs(k); q++) x = vFBin(FMUL, x, a, w); r[i] = k < 0 ? vFBin(FDIV, cv(fpbits(1, w)), x, w) : x; } break;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: for (u32 i = 0; i < n; i++) r[i] = A(0, i); break;
  case Intrinsic::is_constant: r[0] = cv(0); break;
  case Intrinsic::objectsize: r[0] = cv(~0ull & maskw(w)); break;
  case Intrinsic::stacksave: r[0] = cv(0); break; case Intrinsic::stackrestore: break;
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violation("trap", "trap executed", nullptr); endPath(3);
  case Intrinsic::eh_typeid_for: r[0] = cv(A(0).c ? (A(0).c & 0x7fffffff) : 1); break;
  case Intrinsic::vastart: { // System V va_list with everything in the overflow area
    u64 ap = addrOf(A(0)); auto *va = f.va; u64 nn = va ? va->size() : 0; u64 buf = stackAlloc(f, nn * 8 + 16, 16);
    for (u64 i = 0; i < nn; i++) { Leaf l = (*va)[i].second; if (l.kind == L_FP) rawWrite(buf + 8 * i, l, (*va)[i].first); else { l.bits = 64; l.bytes = 8; Val v = (*va)[i].first; rawWrite(buf + 8 * i, l, v.s ? vZext(v, (*va)[i].second.bits, 64) : v); } }
    rawWrite(ap, LI32, cv(48)); rawWrite(ap + 4, LI32, cv(304)); rawWrite(ap + 8, LI64, cv(buf)); rawWrite(ap + 16, LI64, cv(0)); break; }
  case Intrinsic::vaend: break;
  case Intrinsic::vacopy: copyMem(addrOf(A(0)), addrOf(A(1)), 24); break;
  case Intrinsic::ptrmask: r[0] = vBin(AND, A(0), A(1), 64); break;
  case Intrinsic::vector_reduce_add: { r[0] = A(0, 0); for (u32 i = 1; i < c->args[0].n; i++) r[0] = vBin(ADD, r[0], A(0, i), w); break; }
  case Intrinsic::vector_reduce_or: { r[0] = A(0, 0); for (u32 i = 1; i < c->args[0].n; i++) r[0] = vBin(OR, r[0], A(0, i), w); break; }
  case Intrinsic::vector_reduce_and: { r[0] = A(0, 0); for (u32 i = 1; i < c->args[0].n; i++) r[0] = vBin(AND, r[0], A(0, i), w); break; }
  case Intrinsic::vector_reduce_fadd: { r[0] = A(0); for (u32 i = 0; i < c->args[1].n; i++) r[0] = vFBin(FADD, r[0], A(1, i), w); break; }
  case Intrinsic::is_fpclass: { Val a = A(0); u32 m = A(1).c; u32 fw = c->args[0].lv[0].bits; if (a.s && g_ieee) unsupported("is.fpclass"); if (a.s) { // finite real
      bool zero = m & 0x60, pos = m & 0x180, neg = m & 0x18; Val z = vFCmp(FEQ, a, cv(0), fw), lt = vFCmp(FLT, a, cv(0), fw); r[0] = vIte(z, cv(zero), vIte(lt, cv(neg), cv(pos), 1, false), 1, false); }
    else { double x = fpval(a.c, fw); bool t = false; if (std::isnan(x)) t = m & 3; else if (std::isinf(x)) t = m & (x < 0 ? 4 : 0x200); else if (x == 0) t = m & (std::signbit(x) ? 0x20 : 0x40); else if (std::fpclassify(x) == FP_SUBNORMAL) t = m & (x < 0 ? 0x10 : 0x80); else t = m & (x < 0 ? 8 : 0x100); r[0] = cv(t); } break; }
  case Intrinsic::lround: case Intrinsic::llround: case Intrinsic::lrint: case Intrinsic::llrint: { Val a = A(0); if (a.s) unsupported("symbolic lround"); double x = fpval(a.c, c->args[0].lv[0].bits); r[0] = cv((u64)(i64)(c->iid == Intrinsic::lround || c->iid == Intrinsic::llround ? round(x) : rint(x)) & maskw(w)); break; }
  case Intrinsic::x86_sse2_cvtsd2si: case Intrinsic::x86_sse2_cvttsd2si: { Val a = A(0); if (a.s) unsupported("cvtsd2si"); r[0] = cv((u64)(i64)asD(a.c) & maskw(w)); break; }
  case Intrinsic::x86_sse2_max_pd: for (u32 i = 0; i < n; i++) r[i] = vIte(vFCmp(FLT, A(1, i), A(0, i), w), A(0, i), A(1, i), w, true); break;
  case Intrinsic::x86_sse2_min_pd: for (u32 i = 0; i < n; i++) r[i] = vIte(vFCmp(FLT, A(0, i), A(1, i), w), A(0, i), A(1, i), w, true); break;
  case Intrinsic::x86_sse2_cmp_pd: { u64 p = A(2).c & 7; for (u32 i = 0; i < n; i++) { Val a = A(0, i), b = A(1, i), q; switch (p) { case 0: q = vFCmp(FEQ, a, b, w); break; case 1: q = vFCmp(FLT, a, b, w); break; case 2: q = vFCmp(FLE, a, b, w); break; case 4: q = vNot(vFCmp(FEQ, a, b, w)); break; case 5: q = vNot(vFCmp(FLT, a, b, w)); break; case 6: q = vNot(vFCmp(FLE, a, b, w)); break; default: unsupported("cmp_pd"); } if (q.s) q = cv(decide(q)); r[i] = cv(q.c ? ~0ull : 0); } break; }
  default: unsupported("intrinsic " + c->callee->getName().str());
  }
  if (c->dst >= 0) for (u32 i = 0; i < n && i < 64; i++) regs[c->dst + i] = r[i];
}
// ------------------------------------------------------------------ setup
static void layoutGlobals() {
  for (auto &g : M->globals()) {
    if (g.isDeclaration()) { void *p = dlsym(RTLD_DEFAULT, g.getName().str().c_str()); if (p) { gshared[&g] = (u64)p; continue; } if (g.getName() != "__dso_handle") note("missing global " + g.getName().str()); }
    if (g.getName().starts_with("llvm.")) { continue; }
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64; u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16);
    if (g.hasSection() && g.getSection() == "symshared") { u64 a = heapAlloc(sz, al, "shared global", 0); gshared[&g] = a; continue; }
    gtotal = (gtotal + al - 1) & ~(al - 1); goff[&g] = gtotal; gtotal += ((sz + 15) & ~15ull) + 32;
  }
  u64 block = (gtotal + 4095) & ~4095ull;
  for (int r = 0; r < optRanks; r++) { u64 b = (heapTop + 4095) & ~4095ull; gbase.push_back(b); heapTop = b + block + 4096; }
  for (int r = 0; r < optRanks; r++) for (auto &g : M->globals()) {
    if (gshared.count(&g)) { if (r == 0 && !g.isDeclaration() && g.hasInitializer()) writeConst(g.getInitializer(), 0, gshared[&g]); continue; }
    auto it = goff.find(&g); if (it == goff.end()) continue;
    u64 a = gbase[r] + it->second, sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64; u32 id = newObj(a, sz, 3, strdup(g.getName().str().c_str()), false); if (!sz) granOf(a) = id;
    if (g.hasInitializer()) writeConst(g.getInitializer(), r, a); if (g.isConstant()) objs[id].ro = true; if (g.isDeclaration()) objs[id].alive = false;
  }
}
static void runCtors(int rank) {
  GlobalVariable *g = M->getGlobalVariable("llvm.global_ctors"); if (!g) return; auto *ca = dyn_cast<ConstantArray>(g->getInitializer()); if (!ca) return;
  std::vector<std::pair<u64, Function *>> v; for (auto &o : ca->operands()) { auto *s = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), cast<Function>(s->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
  int sid = mainRank->id; mainRank->id = rank;
  for (auto &p : v) { cur = mainRank; pushFrame(fmap[p.second], nullptr, nullptr, 0, nullptr); poolFor(fmap[p.second], rank); run(); }
  mainRank->id = sid;
}
static std::string jsonEsc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static void rootReport() {
  FILE *f = fopen((outdir + "/report.json").c_str(), "w"); if (!f) return;
  fprintf(f, "{\n \"paths\": %ld, \"rejected\": %ld, \"assumed_away\": %ld, \"forks\": %ld, \"queries\": %ld, \"sat\": %ld, \"unsat\": %ld, \"unknown\": %ld, \"cached\": %ld, \"solver_s\": %.3f, \"asserts\": %ld, \"asserts_solver\": %ld, \"instructions\": %ld, \"unsupported\": %ld, \"concretized\": %ld, \"crashed\": %ld, \"timeouts\": %ld, \"truncated\": %ld, \"violations\": %d, \"traces\": %d, \"wall_s\": %.2f,\n", (long)sh->paths, (long)sh->rejected, (long)sh->assumed, (long)sh->forks, (long)sh->queries, (long)sh->qsat, (long)sh->qunsat, (long)sh->qunknown, (long)sh->qcached, sh->solver_us * 1e-6, (long)sh->asserts, (long)sh->asserts_solver, (long)sh->insts, (long)sh->unsupported, (long)sh->concretized, (long)sh->crashed, (long)sh->timeouts, (long)sh->trunc, (int)sh->violations, std::min((int)sh->traces, optTraces), now() - startT);
  fprintf(f, " \"reach\": {"); for (int i = 0; i < sh->nreach && i < 256; i++) fprintf(f, "%s\"%s\": %ld", i ? ", " : "", jsonEsc(sh->reachname[i]).c_str(), (long)sh->reach[i]); fprintf(f, "},\n");
  fprintf(f, " \"notes\": ["); for (int i = 0; i < std::min(64, (int)sh->nmsg); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jsonEsc(sh->msg[i]).c_str()); fprintf(f, "],\n \"functions\": [");
  bool first = true; for (auto *df : funcs) if (funcHit[df->idx]) { std::string n = demangle(df->F->getName().str()); if (n.find("espreso") == std::string::npos) continue; if (n.compare(0, 5, "std::") == 0 || n.find(" std::") != std::string::npos && n.find(" std::") < n.find("espreso")) continue; fprintf(f, "%s\"%s\"", first ? "" : ",\n  ", jsonEsc(n.substr(0, 300)).c_str()); first = false; }
  fprintf(f, "]\n}\n"); fclose(f);
}
static void onSegv(int, siginfo_t *si, void *) {
  u64 a = (u64)si->si_addr; static int once = 0; if (once++) _exit(9);
  char b[100]; snprintf(b, 100, "engine fault at %llx", (unsigned long long)a); 
  if (cur && !cur->fr.empty()) { note(std::string(b) + "\n" + backtrace_()); }
  violation("memory error", b, nullptr); finishProcess(0); if (isRoot) rootReport(); _exit(0);
}
static void onAlarm(int) { if (isRoot) { sh->timeouts++; sh->stop = 1; note("time limit"); rootReport(); signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); usleep(100000); } _exit(0); }
int main(int argc, char **argv) {
  setpgid(0, 0);
  startT = now(); std::string bc, entry = "harness"; double tlimit = 0;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") outdir = nx(); else if (a == "-e") entry = nx(); else if (a == "--ranks") optRanks = atoi(nx().c_str()); else if (a == "--time") tlimit = atof(nx().c_str()); else if (a == "--ieee") g_ieee = true; else if (a == "--tokens") optTokens = atoi(nx().c_str()); else if (a == "--traces") optTraces = atoi(nx().c_str()); else if (a == "--max-paths") optMaxPaths = atol(nx().c_str()); else if (a == "--max-inst") optMaxInst = atoll(nx().c_str()); else if (a == "--intvar") optIntVar = true; else if (a == "--sel") optSel = atoi(nx().c_str()); else if (a == "--ite") optIteLoads = true; else if (a == "--rlimit") g_rlimit = atoll(nx().c_str()); else if (a == "--max-viol") optMaxViol = atoi(nx().c_str()); else if (a == "-v") verbose = true; else if (a == "-a") optArgs.push_back(atol(nx().c_str())); else if (a == "--preload") { if (!dlopen(nx().c_str(), RTLD_NOW | RTLD_GLOBAL)) fprintf(stderr, "dlopen: %s\n", dlerror()); } else bc = a; }
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared(); sh->tokens = optTokens - 1;
  if (tlimit > 0) { deadline = startT + tlimit; struct sigaction al; memset(&al, 0, sizeof al); al.sa_handler = onAlarm; sigaction(SIGALRM, &al, nullptr); struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = (long)tlimit + 5; setitimer(ITIMER_REAL, &tv, nullptr); }
  initMem(); initZ3(); initBuiltins();
  SMDiagnostic err; M = parseIRFile(bc, err, Ctx); if (!M) { err.print("symx", errs()); return 2; }
  DL = &M->getDataLayout();
  for (auto &F : *M) { DFunc *d = new DFunc(); d->F = &F; d->idx = funcs.size(); funcs.push_back(d); fmap[&F] = d; faddr[FBASE + (u64)d->idx * 16] = d; }
  for (auto &A : M->aliases()) (void)A;
  funcHit = (u8 *)mmap(nullptr, funcs.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  layoutGlobals();
  mainRank = newRank(0, 0); cur = mainRank;
  static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
  for (int r = 0; r < optRanks; r++) runCtors(r);
  memset(funcHit, 0, funcs.size());
  Function *E = M->getFunction(entry); if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  cur = mainRank; pushFrame(fmap[E], nullptr, nullptr, 0, nullptr); run();
  endPath(0);
}
