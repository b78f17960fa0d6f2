#include "expr.h"
#include <cstdio>
#include <cstdlib>

bool g_ieee = false;
std::vector<VarInfo> g_vars;
std::unordered_map<u32, u64> g_known;
Model g_model;
Z3_context g_z3;

struct EHash { size_t operator()(const Expr *e) const {
  u64 h = e->op * 0x9E3779B97F4A7C15ull; h ^= (u64)e->w * 0x85ebca6b; h ^= (u64)e->aux * 0xc2b2ae3d27d4eb4full;
  auto mix = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
  mix((u64)e->a); mix((u64)e->b); mix((u64)e->c); mix(e->cv); mix(e->fp); return h; } };
struct EEq { bool operator()(const Expr *x, const Expr *y) const {
  return x->op == y->op && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->cv == y->cv && x->fp == y->fp; } };
static std::unordered_set<Expr *, EHash, EEq> table;
static u32 nextId = 1;
static std::vector<VarSet *> allvs;
static std::map<std::vector<u32>, VarSet *> vsIntern;
static VarSet *emptyVS() { static VarSet *e = new VarSet(); return e; }
static VarSet *internVS(std::vector<u32> &&v) { auto it = vsIntern.find(v); if (it != vsIntern.end()) return it->second; VarSet *s = new VarSet{v}; vsIntern[s->v] = s; return s; }
static std::map<std::pair<VarSet *, VarSet *>, VarSet *> unionCache;
static VarSet *unionVS(VarSet *a, VarSet *b) {
  if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
  if (a > b) std::swap(a, b);
  auto k = std::make_pair(a, b); auto it = unionCache.find(k); if (it != unionCache.end()) return it->second;
  std::vector<u32> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  VarSet *s = internVS(std::move(r)); unionCache[k] = s; return s;
}
VarSet *varsOf(Expr *e) { return e->vs; }

static Expr *mk(Op op, u32 w, bool fp, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, u32 aux = 0, u64 cvv = 0) {
  Expr t; memset(&t, 0, sizeof t); t.op = op; t.w = w; t.fp = fp; t.a = a; t.b = b; t.c = c; t.aux = aux; t.cv = cvv;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  Expr *e = (Expr *)malloc(sizeof(Expr)); *e = t; e->id = nextId++;
  VarSet *vs = emptyVS();
  if (op == VAR) vs = internVS({aux});
  if (a) vs = unionVS(vs, a->vs); if (b) vs = unionVS(vs, b->vs); if (c) vs = unionVS(vs, c->vs);
  e->vs = vs;
  e->nonlin = (a && a->nonlin) || (b && b->nonlin) || (c && c->nonlin) || op == FSQRT ||
    (op == FMUL && !a->isConst() && !b->isConst()) || (op == FDIV && !b->isConst());
  e->hasbv = (a && a->hasbv) || (b && b->hasbv) || (c && c->hasbv) || (!fp && w > 1 && !(op == CONST));
  e->hasfp = (a && a->hasfp) || (b && b->hasfp) || (c && c->hasfp) || fp;
  table.insert(e);
  return e;
}
static std::unordered_map<std::string, int> varCount;
Expr *mkVar(const std::string &name, u32 w, bool fp) {
  std::string n = name; int k = varCount[name]++; if (k) n += "#" + std::to_string(k);
  u32 idx = g_vars.size(); g_vars.push_back({n, w, fp, nullptr, 0});
  Expr *e = mk(VAR, w, fp, nullptr, nullptr, nullptr, idx); g_vars[idx].e = e;
  ModelVal mv; mv.known = true; mv.bv = 0; if (fp && !g_ieee) { mv.isq = true; mv.q = 0; }
  g_model.v.resize(g_vars.size()); g_model.v[idx] = mv;
  return e;
}
Expr *mkConst(u64 c, u32 w) { return mk(CONST, w, false, nullptr, nullptr, nullptr, 0, c & maskw(w)); }
Expr *mkFConst(u64 b, u32 w) { return mk(FCONST, w, true, nullptr, nullptr, nullptr, 0, b); }
static inline Expr *E(Val v, u32 w) { return v.s ? v.s : mkConst(v.c, w); }
static inline Expr *EF(Val v, u32 w) { return v.s ? v.s : mkFConst(v.c, w); }
static inline Val R(Expr *e) { if (e->isConst()) return cv(e->cv); if (!g_known.empty()) { auto it = g_known.find(e->id); if (it != g_known.end()) return cv(it->second); } return Val{0, e}; }

static u64 foldBin(Op op, u64 a, u64 b, u32 w) {
  u64 m = maskw(w);
  switch (op) {
  case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
  case UDIV: return b ? a / b : m; case UREM: return b ? a % b : a;
  case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
  case SREM: { i64 x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : (a >> b);
  case ASHR: { i64 x = sx(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
  case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
  case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b; case SLT: return sx(a, w) < sx(b, w); case SLE: return sx(a, w) <= sx(b, w);
  default: abort();
  }
}
Val vNot(Val a) {
  if (!a.s) return cv(!(a.c & 1));
  Expr *e = a.s;
  if (e->op == XOR && e->b->op == CONST && e->b->cv == 1) return R(e->a);
  // push negation into comparisons
  switch (e->op) {
  case ULT: return R(mk(ULE, 1, false, e->b, e->a));
  case ULE: return R(mk(ULT, 1, false, e->b, e->a));
  case SLT: return R(mk(SLE, 1, false, e->b, e->a));
  case SLE: return R(mk(SLT, 1, false, e->b, e->a));
  case FLT: if (!g_ieee) return R(mk(FLE, 1, false, e->b, e->a)); break;
  case FLE: if (!g_ieee) return R(mk(FLT, 1, false, e->b, e->a)); break;
  default: break;
  }
  return R(mk(XOR, 1, false, e, mkConst(1, 1)));
}
static bool isNotOf(Expr *a, Expr *b) { return (a->op == XOR && a->w == 1 && a->b->op == CONST && a->b->cv == 1 && a->a == b) || (b->op == XOR && b->w == 1 && b->b->op == CONST && b->b->cv == 1 && b->a == a); }

Val vBin(Op op, Val a, Val b, u32 w) {
  a = vNorm(a); b = vNorm(b);
  if (!a.s && !b.s) return cv(foldBin(op, a.c, b.c, w));
  u64 m = maskw(w);
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
  if (comm && !a.s) std::swap(a, b);
  if (op == SUB && !b.s) { op = ADD; b.c = (0 - b.c) & m; }
  if (!b.s) {
    u64 c = b.c;
    switch (op) {
    case ADD: if (c == 0) return a;
      if (a.s->op == ADD && a.s->b->op == CONST) return vBin(ADD, R(a.s->a), cv((a.s->b->cv + c) & m), w);
      if (w == 1) { op = XOR; return vBin(XOR, a, b, w); }
      break;
    case MUL: if (c == 0) return cv(0); if (c == 1) return a;
      if (a.s->op == MUL && a.s->b->op == CONST) return vBin(MUL, R(a.s->a), cv((a.s->b->cv * c) & m), w);
      if (a.s->op == ADD && a.s->b->op == CONST) return vBin(ADD, vBin(MUL, R(a.s->a), b, w), cv((a.s->b->cv * c) & m), w);
      break;
    case AND: if (c == 0) return cv(0); if (c == m) return a;
      if (a.s->op == AND && a.s->b->op == CONST) return vBin(AND, R(a.s->a), cv(a.s->b->cv & c), w);
      if (a.s->op == ZEXT) { u32 iw = a.s->a->w; u64 im = maskw(iw); if ((c & im) == im) return a; if ((c & im) == 0) return cv(0); return vZext(vBin(AND, R(a.s->a), cv(c & im), iw), iw, w); }
      break;
    case OR: if (c == 0) return a; if (c == m) return cv(m); break;
    case XOR: if (c == 0) return a; if (w == 1 && c == 1) return vNot(a);
      if (a.s->op == XOR && a.s->b->op == CONST) return vBin(XOR, R(a.s->a), cv(a.s->b->cv ^ c), w);
      break;
    case SHL: if (c == 0) return a; if (c >= w) return cv(0); return vBin(MUL, a, cv(1ull << c), w);
    case LSHR: if (c == 0) return a; if (c >= w) return cv(0);
      return vZext(vExtract(a, c, w - c, w), w - c, w);
    case ASHR: if (c == 0) return a; if (c >= w) c = w - 1; return vSext(vExtract(a, c, w - c, w), w - c, w);
    case UDIV: if (c == 1) return a; if (c && (c & (c - 1)) == 0) return vBin(LSHR, a, cv(__builtin_ctzll(c)), w);
      if (a.s->op == ZEXT && c && a.s->a->w < w) { u32 iw = a.s->a->w; if (c > maskw(iw)) return cv(0); return vZext(vBin(UDIV, R(a.s->a), b, iw), iw, w); }
      break;
    case UREM: if (c == 1) return cv(0); if (c && (c & (c - 1)) == 0) return vBin(AND, a, cv(c - 1), w);
      if (a.s->op == ZEXT && c && a.s->a->w < w) { u32 iw = a.s->a->w; if (c > maskw(iw)) return a; return vZext(vBin(UREM, R(a.s->a), b, iw), iw, w); }
      break;
    case SDIV: if (c == 1) return a; break;
    case SREM: if (c == 1) return cv(0); break;
    default: break;
    }
    // distribute over ITE of constants
    if (a.s->op == ITE && a.s->b->op == CONST && a.s->c->op == CONST)
      return vIte(Val{0, a.s->a}, cv(foldBin(op, a.s->b->cv, c, w)), cv(foldBin(op, a.s->c->cv, c, w)), w, false);
  } else if (!a.s) {
    u64 c = a.c;
    switch (op) {
    case SUB: break;
    case UDIV: case SDIV: case UREM: case SREM: case SHL: case LSHR: if (c == 0) return cv(0); break;
    default: break;
    }
    if (b.s->op == ITE && b.s->b->op == CONST && b.s->c->op == CONST)
      return vIte(Val{0, b.s->a}, cv(foldBin(op, c, b.s->b->cv, w)), cv(foldBin(op, c, b.s->c->cv, w)), w, false);
  } else {
    if (a.s == b.s) switch (op) { case SUB: case XOR: return cv(0); case AND: case OR: return a; default: break; }
    if (w == 1 && isNotOf(a.s, b.s)) switch (op) { case AND: return cv(0); case OR: case XOR: return cv(1); default: break; }
    if (op == SUB) {
      // (x + c) - x , x - (x + c)
      if (a.s->op == ADD && a.s->a == b.s) return R(a.s->b);
      if (a.s->op == ADD && a.s->b == b.s) return R(a.s->a);
      if (b.s->op == ADD && b.s->a == a.s) return vBin(SUB, cv(0), R(b.s->b), w);
      if (b.s->op == ADD && b.s->b->op == CONST) return vBin(ADD, vBin(SUB, a, R(b.s->a), w), cv((0 - b.s->b->cv) & m), w);
      if (a.s->op == ADD && a.s->b->op == CONST) return vBin(ADD, vBin(SUB, R(a.s->a), b, w), cv(a.s->b->cv), w);
    }
    if (op == ADD) {
      if (a.s->op == ADD && a.s->b->op == CONST) return vBin(ADD, vBin(ADD, R(a.s->a), b, w), cv(a.s->b->cv), w);
      if (b.s->op == ADD && b.s->b->op == CONST) return vBin(ADD, vBin(ADD, a, R(b.s->a), w), cv(b.s->b->cv), w);
      if (a.s->op == SUB && a.s->b == b.s) return R(a.s->a);
      if (b.s->op == SUB && b.s->b == a.s) return R(b.s->a);
    }
    if (comm && a.s->id > b.s->id) std::swap(a, b);
  }
  return R(mk(op, w, false, E(a, w), E(b, w)));
}
Val vCmp(Op op, Val a, Val b, u32 w) {
  a = vNorm(a); b = vNorm(b);
  if (!a.s && !b.s) return cv(foldBin(op, a.c, b.c, w));
  u64 m = maskw(w);
  if (a.s && b.s && a.s == b.s) return cv(op == EQ || op == ULE || op == SLE);
  if (op == EQ) {
    if (!a.s) std::swap(a, b);
    if (!b.s) {
      u64 c = b.c; Expr *e = a.s;
      if (w == 1) return c ? a : vNot(a);
      if (e->op == ZEXT) { if (c > maskw(e->a->w)) return cv(0); return vCmp(EQ, R(e->a), cv(c), e->a->w); }
      if (e->op == SEXT) { u32 iw = e->a->w; if (((u64)sx(c & maskw(iw), iw) & m) != c) return cv(0); return vCmp(EQ, R(e->a), cv(c & maskw(iw)), iw); }
      if (e->op == ADD && e->b->op == CONST) return vCmp(EQ, R(e->a), cv((c - e->b->cv) & m), w);
      if (e->op == ITE) {
        Expr *x = e->b, *y = e->c;
        if (x->op == CONST && y->op == CONST) { bool p = x->cv == c, q = y->cv == c; if (p && q) return cv(1); if (!p && !q) return cv(0); return p ? Val{0, e->a} : vNot(Val{0, e->a}); }
        if (x->op == CONST || y->op == CONST) return vIte(Val{0, e->a}, vCmp(EQ, R(x), cv(c), w), vCmp(EQ, R(y), cv(c), w), 1, false);
      }
      if (e->op == CONCAT) { u32 wl = e->b->w; return vBin(AND, vCmp(EQ, R(e->a), cv(c >> wl), e->a->w), vCmp(EQ, R(e->b), cv(c & maskw(wl)), wl), 1); }
    } else {
      if (a.s->op == ZEXT && b.s->op == ZEXT && a.s->a->w == b.s->a->w) return vCmp(EQ, R(a.s->a), R(b.s->a), a.s->a->w);
      if (a.s->op == SEXT && b.s->op == SEXT && a.s->a->w == b.s->a->w) return vCmp(EQ, R(a.s->a), R(b.s->a), a.s->a->w);
      if (a.s->op == ADD && a.s->b->op == CONST && b.s->op == ADD && b.s->b->op == CONST) return vCmp(EQ, R(a.s->a), vBin(ADD, R(b.s->a), cv((b.s->b->cv - a.s->b->cv) & m), w), w);
      if (a.s->id > b.s->id) std::swap(a, b);
    }
  } else {
    if (!b.s) {
      u64 c = b.c; Expr *e = a.s;
      if (op == ULT && c == 0) return cv(0);
      if (op == ULT && c == 1) return vCmp(EQ, a, cv(0), w);
      if (op == ULE && c == 0) return vCmp(EQ, a, cv(0), w);
      if (op == ULE && c == m) return cv(1);
      if (e->op == ZEXT) { u32 iw = e->a->w; u64 im = maskw(iw);
        if (op == ULT) return c > im ? cv(1) : vCmp(ULT, R(e->a), cv(c), iw);
        if (op == ULE) return c >= im ? cv(1) : vCmp(ULE, R(e->a), cv(c), iw);
        i64 sc = sx(c, w); if (sc < 0) return cv(0);
        if (op == SLT) return vCmp(ULT, a, b, w); if (op == SLE) return vCmp(ULE, a, b, w); }
      if (e->op == SEXT && (op == SLT || op == SLE)) { u32 iw = e->a->w; i64 sc = sx(c, w); i64 lo = sx(1ull << (iw - 1), iw), hi = -(lo + 1);
        if (sc > hi) return cv(1); if (sc < lo) return cv(0); return vCmp(op, R(e->a), cv((u64)sc & maskw(iw)), iw); }
      if (e->op == ITE && e->b->op == CONST && e->c->op == CONST) return vIte(Val{0, e->a}, cv(foldBin(op, e->b->cv, c, w)), cv(foldBin(op, e->c->cv, c, w)), 1, false);
    } else if (!a.s) {
      u64 c = a.c; Expr *e = b.s;
      if (op == ULT && c == m) return cv(0);
      if (op == ULE && c == 0) return cv(1);
      if (op == ULT && c == 0) return vNot(vCmp(EQ, b, cv(0), w));
      if (e->op == ZEXT) { u32 iw = e->a->w; u64 im = maskw(iw);
        if (op == ULT) return c >= im ? cv(0) : vCmp(ULT, cv(c), R(e->a), iw);
        if (op == ULE) return c > im ? cv(0) : vCmp(ULE, cv(c), R(e->a), iw);
        i64 sc = sx(c, w); if (sc < 0) return cv(1);
        if (op == SLT) return vCmp(ULT, a, b, w); if (op == SLE) return vCmp(ULE, a, b, w); }
      if (e->op == SEXT && (op == SLT || op == SLE)) { u32 iw = e->a->w; i64 sc = sx(c, w); i64 lo = sx(1ull << (iw - 1), iw), hi = -(lo + 1);
        if (sc > hi) return cv(0); if (sc < lo) return cv(1); return vCmp(op, cv((u64)sc & maskw(iw)), R(e->a), iw); }
      if (e->op == ITE && e->b->op == CONST && e->c->op == CONST) return vIte(Val{0, e->a}, cv(foldBin(op, c, e->b->cv, w)), cv(foldBin(op, c, e->c->cv, w)), 1, false);
    } else {
      if (a.s->op == ZEXT && b.s->op == ZEXT && a.s->a->w == b.s->a->w) return vCmp(op == SLT ? ULT : op == SLE ? ULE : op, R(a.s->a), R(b.s->a), a.s->a->w);
      if (a.s->op == SEXT && b.s->op == SEXT && a.s->a->w == b.s->a->w && (op == SLT || op == SLE)) return vCmp(op, R(a.s->a), R(b.s->a), a.s->a->w);
    }
  }
  return R(mk(op, 1, false, E(a, w), E(b, w)));
}
Val vIte(Val c, Val a, Val b, u32 w, bool fp) {
  c = vNorm(c); a = vNorm(a); b = vNorm(b);
  if (!c.s) return (c.c & 1) ? a : b;
  if (a.s == b.s && (a.s || a.c == b.c)) return a;
  if (fp && !g_ieee) { // NaN / inf cannot live inside real terms
    auto bad = [&](Val v) { return !v.s && !std::isfinite(fpval(v.c, w)); };
    if (bad(a) || bad(b)) return Val{2, nullptr}; // caller must fork (signalled by vIteNeedsFork)
  }
  if (!fp && w == 1) {
    if (!a.s && !b.s) return a.c ? c : vNot(c);
    if (!a.s) return a.c ? vBin(OR, c, b, 1) : vBin(AND, vNot(c), b, 1);
    if (!b.s) return b.c ? vBin(OR, vNot(c), a, 1) : vBin(AND, c, a, 1);
  }
  Expr *ce = c.s;
  if (ce->op == XOR && ce->w == 1 && ce->b->op == CONST) { std::swap(a, b); ce = ce->a; }
  return R(mk(fp ? FITE : ITE, w, fp, ce, fp ? EF(a, w) : E(a, w), fp ? EF(b, w) : E(b, w)));
}
Val vExtract(Val a, u32 lo, u32 w, u32 fromw) {
  a = vNorm(a);
  if (!a.s) return cv((a.c >> lo) & maskw(w));
  if (lo == 0 && w == fromw) return a;
  Expr *e = a.s;
  switch (e->op) {
  case EXTRACT: return vExtract(Val{0, e->a}, e->aux + lo, w, e->a->w);
  case ZEXT: { u32 iw = e->a->w; if (lo >= iw) return cv(0); if (lo + w <= iw) return vExtract(R(e->a), lo, w, iw); if (lo == 0) return vZext(R(e->a), iw, w); return vZext(vExtract(R(e->a), lo, iw - lo, iw), iw - lo, w); }
  case SEXT: { u32 iw = e->a->w; if (lo + w <= iw) return vExtract(R(e->a), lo, w, iw); if (lo == 0) return vSext(R(e->a), iw, w); break; }
  case CONCAT: { u32 wl = e->b->w; if (lo + w <= wl) return vExtract(R(e->b), lo, w, wl); if (lo >= wl) return vExtract(R(e->a), lo - wl, w, e->a->w);
    return vConcat(vExtract(R(e->a), 0, lo + w - wl, e->a->w), lo + w - wl, vExtract(R(e->b), lo, wl - lo, wl), wl - lo); }
  case ITE: if (e->b->op == CONST || e->c->op == CONST) return vIte(Val{0, e->a}, vExtract(R(e->b), lo, w, fromw), vExtract(R(e->c), lo, w, fromw), w, false); break;
  case ADD: case MUL: case SUB: if (lo == 0) return vBin(e->op, vExtract(R(e->a), 0, w, fromw), vExtract(R(e->b), 0, w, fromw), w); break;
  case AND: case OR: case XOR: return vBin(e->op, vExtract(R(e->a), lo, w, fromw), vExtract(R(e->b), lo, w, fromw), w);
  default: break;
  }
  return R(mk(EXTRACT, w, false, e, nullptr, nullptr, lo));
}
Val vConcat(Val hi, u32 wh, Val lo, u32 wl) {
  hi = vNorm(hi); lo = vNorm(lo);
  if (!hi.s && !lo.s) return cv((hi.c << wl) | lo.c);
  if (!hi.s && hi.c == 0) return vZext(lo, wl, wl + wh);
  if (hi.s && lo.s && hi.s->op == EXTRACT && lo.s->op == EXTRACT && hi.s->a == lo.s->a && hi.s->aux == lo.s->aux + wl) return vExtract(Val{0, hi.s->a}, lo.s->aux, wh + wl, hi.s->a->w);
  if (hi.s && lo.s && hi.s->op == EXTRACT && hi.s->a == lo.s && hi.s->aux == wl) return vExtract(Val{0, lo.s}, 0, wl, wl); // unreachable in practice
  return R(mk(CONCAT, wh + wl, false, E(hi, wh), E(lo, wl)));
}
Val vZext(Val a, u32 from, u32 to) {
  a = vNorm(a); if (from == to) return a;
  if (!a.s) return a;
  if (a.s->op == ZEXT) return R(mk(ZEXT, to, false, a.s->a));
  if (a.s->op == ITE && a.s->b->op == CONST && a.s->c->op == CONST) return vIte(Val{0, a.s->a}, cv(a.s->b->cv), cv(a.s->c->cv), to, false);
  return R(mk(ZEXT, to, false, a.s));
}
Val vSext(Val a, u32 from, u32 to) {
  a = vNorm(a); if (from == to) return a;
  if (!a.s) return cv((u64)sx(a.c, from) & maskw(to));
  if (a.s->op == ZEXT) return R(mk(ZEXT, to, false, a.s->a));
  if (a.s->op == SEXT) return R(mk(SEXT, to, false, a.s->a));
  if (a.s->op == ITE && a.s->b->op == CONST && a.s->c->op == CONST) return vIte(Val{0, a.s->a}, cv((u64)sx(a.s->b->cv, from) & maskw(to)), cv((u64)sx(a.s->c->cv, from) & maskw(to)), to, false);
  return R(mk(SEXT, to, false, a.s));
}
// ---------------- floating point
static const u64 NANB = 0x7ff8000000000000ull;
static Val fnan(u32 w) { return cv(w == 32 ? fB(NAN) : NANB); }
Val vFNeg(Val a, u32 w) {
  a = vNorm(a);
  if (!a.s) return cv(w == 32 ? a.c ^ 0x80000000u : a.c ^ 0x8000000000000000ull);
  if (a.s->op == FNEG) return R(a.s->a);
  if (!g_ieee && a.s->op == FSUB) return R(mk(FSUB, w, true, a.s->b, a.s->a));
  return R(mk(FNEG, w, true, a.s));
}
Val vFBin(Op op, Val a, Val b, u32 w) {
  a = vNorm(a); b = vNorm(b);
  if (!a.s && !b.s) {
    if (w == 32) { float x = asF(a.c), y = asF(b.c); return cv(fB(op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y)); }
    double x = asD(a.c), y = asD(b.c); return cv(dB(op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y));
  }
  if (!g_ieee) {
    // a non finite constant absorbs (reals are finite)
    for (int i = 0; i < 2; i++) { Val v = i ? b : a; if (!v.s) { double d = fpval(v.c, w);
      if (std::isnan(d)) return fnan(w);
      if (std::isinf(d)) { if (op == FADD) return v; if (op == FSUB) return i ? vFNeg(v, w) : v; if (op == FDIV && i) return cv(0); return fnan(w); } } }
    if (!b.s) { double d = fpval(b.c, w);
      if ((op == FADD || op == FSUB) && d == 0) return a;
      if (op == FMUL && d == 0) return cv(0); if ((op == FMUL || op == FDIV) && d == 1) return a;
      if ((op == FMUL || op == FDIV) && d == -1) return vFNeg(a, w);
      if (op == FDIV && d == 0) return fnan(w);
    }
    if (!a.s) { double d = fpval(a.c, w);
      if (op == FADD && d == 0) return b; if (op == FSUB && d == 0) return vFNeg(b, w);
      if (op == FMUL && d == 0) return cv(0); if (op == FMUL && d == 1) return b; if (op == FMUL && d == -1) return vFNeg(b, w); if (op == FDIV && d == 0) return cv(0);
    }
    if (a.s && b.s && a.s == b.s) { if (op == FSUB) return cv(0); if (op == FDIV) return cv(fpbits(1, w)); }
    if (op == FADD && b.s && b.s->op == FNEG) return vFBin(FSUB, a, R(b.s->a), w);
    if (op == FSUB && b.s && b.s->op == FNEG) return vFBin(FADD, a, R(b.s->a), w);
    if (op == FSUB && a.s && a.s->op == FADD && b.s) { if (a.s->a == b.s) return R(a.s->b); if (a.s->b == b.s) return R(a.s->a); }
    if (op == FADD && a.s && a.s->op == FSUB && b.s && a.s->b == b.s) return R(a.s->a);
  } else {
    if (!b.s && op == FMUL && fpval(b.c, w) == 1) return a;
    if (!a.s && op == FMUL && fpval(a.c, w) == 1) return b;
  }
  Expr *x = EF(a, w), *y = EF(b, w);
  if ((op == FADD || op == FMUL) && x->id > y->id) std::swap(x, y);
  return R(mk(op, w, true, x, y));
}
Val vFAbs(Val a, u32 w) {
  a = vNorm(a);
  if (!a.s) return cv(w == 32 ? a.c & 0x7fffffffu : a.c & 0x7fffffffffffffffull);
  if (a.s->op == FABS) return a;
  if (a.s->op == FNEG) return vFAbs(R(a.s->a), w);
  return R(mk(FABS, w, true, a.s));
}
Val vFCmp(Op op, Val a, Val b, u32 w) {
  a = vNorm(a); b = vNorm(b);
  if (!a.s && !b.s) { double x = fpval(a.c, w), y = fpval(b.c, w); return cv(op == FEQ ? x == y : op == FLT ? x < y : x <= y); }
  if (!g_ieee) {
    if (!a.s) { double x = fpval(a.c, w); if (std::isnan(x)) return cv(0); if (std::isinf(x)) return cv(op == FEQ ? 0 : x < 0); }
    if (!b.s) { double x = fpval(b.c, w); if (std::isnan(x)) return cv(0); if (std::isinf(x)) return cv(op == FEQ ? 0 : x > 0); }
    if (a.s && a.s == b.s) return cv(op != FLT);
    if (a.s && !b.s && a.s->op == FITE && a.s->b->op == FCONST && a.s->c->op == FCONST)
      return vIte(Val{0, a.s->a}, vFCmp(op, R(a.s->b), b, w), vFCmp(op, R(a.s->c), b, w), 1, false);
    if (a.s && !b.s && a.s->op == FABS && fpval(b.c, w) == 0) { if (op == FEQ || op == FLE) return vFCmp(FEQ, R(a.s->a), b, w); return cv(0); }
  }
  Expr *x = EF(a, w), *y = EF(b, w);
  if (op == FEQ && x->id > y->id) std::swap(x, y);
  return R(mk(op, 1, false, x, y));
}
Val vI2F(Val a, u32 from, u32 tow, bool sgn) {
  a = vNorm(a);
  if (!a.s) { if (sgn) { i64 v = sx(a.c, from); return cv(tow == 32 ? fB((float)v) : dB((double)v)); } return cv(tow == 32 ? fB((float)a.c) : dB((double)a.c)); }
  if (a.s->op == ZEXT) { return R(mk(UI2F, tow, true, a.s->a)); }
  if (a.s->op == SEXT && sgn) return R(mk(SI2F, tow, true, a.s->a));
  if (a.s->op == ITE && a.s->b->op == CONST && a.s->c->op == CONST) return vIte(Val{0, a.s->a}, vI2F(cv(a.s->b->cv), from, tow, sgn), vI2F(cv(a.s->c->cv), from, tow, sgn), tow, true);
  return R(mk(sgn ? SI2F : UI2F, tow, true, a.s));
}
Val vBits(Val a, u32 w) {
  a = vNorm(a); if (!a.s) return a;
  if (a.s->op == FROMBITS) return R(a.s->a);
  return R(mk(BITS, w, false, a.s));
}
Val vFromBits(Val a, u32 w) {
  a = vNorm(a); if (!a.s) return a;
  if (a.s->op == BITS) return R(a.s->a);
  if (a.s->op == ITE) { // conditional moves of doubles through integer registers
    Val x = vFromBits(R(a.s->b), w), y = vFromBits(R(a.s->c), w);
    if ((!x.s || x.s->op != FROMBITS) && (!y.s || y.s->op != FROMBITS) && (g_ieee || ((x.s || std::isfinite(fpval(x.c, w))) && (y.s || std::isfinite(fpval(y.c, w)))))) return vIte(Val{0, a.s->a}, x, y, w, true);
  }
  return R(mk(FROMBITS, w, true, a.s));
}
Val vFCast(Val a, u32 from, u32 to) {
  a = vNorm(a); if (from == to) return a;
  if (!a.s) return cv(to == 32 ? fB((float)asD(a.c)) : dB((double)asF(a.c)));
  return R(mk(FPCAST, to, true, a.s));
}

// ---------------- evaluation
struct EvMemo { u32 epoch; bool ok; u64 c; int qi; };
static std::vector<EvMemo> evm; static u32 evEpoch = 0; static std::vector<mpq_class> evq;
static mpq_class q_of(double d) { mpq_class q(d); return q; }
static int evrec(Expr *e, const Model &m);
static bool evl(Expr *e, const Model &m, u64 &c, mpq_class *&q) {
  evrec(e, m); EvMemo &r = evm[e->id]; c = r.c; q = r.qi >= 0 ? &evq[r.qi] : nullptr; return r.ok;
}
static double hostFBin(Op op, double x, double y) { return op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y; }
static int evrec(Expr *root, const Model &m) {
  if (evm.size() < nextId) evm.resize(nextId + 1024, EvMemo{0, false, 0, -1});
  std::vector<std::pair<Expr *, int>> st; st.push_back({root, 0});
  while (!st.empty()) {
    Expr *e = st.back().first; EvMemo &r = evm[e->id];
    if (r.epoch == evEpoch) { st.pop_back(); continue; }
    if (st.back().second == 0) {
      st.back().second = 1; bool push = false;
      for (Expr *k : {e->a, e->b, e->c}) if (k && evm[k->id].epoch != evEpoch) { st.push_back({k, 0}); push = true; }
      if (push) continue;
    }
    st.pop_back();
    bool ok = true; u64 c = 0; int qi = -1;
    auto K = [&](Expr *k) -> EvMemo & { return evm[k->id]; };
    auto newq = [&](const mpq_class &q) { evq.push_back(q); return (int)evq.size() - 1; };
    bool kidsOk = (!e->a || K(e->a).ok) && (!e->b || K(e->b).ok) && (!e->c || K(e->c).ok);
    bool real = !g_ieee;
    switch (e->op) {
    case CONST: c = e->cv; break;
    case FCONST: if (real) { double d = fpval(e->cv, e->w); if (!std::isfinite(d)) ok = false; else qi = newq(q_of(d)); } else c = e->cv; break;
    case VAR: { if (e->aux >= m.v.size()) { ok = false; break; } const ModelVal &v = m.v[e->aux]; ok = v.known; if (e->fp && real) { if (ok && v.isq) qi = newq(v.q); else ok = false; } else c = v.bv; break; }
    case ITE: case FITE:
      if (!K(e->a).ok) { ok = false; break; }
      { EvMemo &s = K(K(e->a).c ? e->b : e->c); ok = s.ok; c = s.c; qi = s.qi; } break;
    case AND: if (e->w == 1 && !kidsOk) { if ((K(e->a).ok && !K(e->a).c) || (K(e->b).ok && !K(e->b).c)) { c = 0; break; } ok = false; break; } // fallthrough
    case OR: if (e->op == OR && e->w == 1 && !kidsOk) { if ((K(e->a).ok && K(e->a).c) || (K(e->b).ok && K(e->b).c)) { c = 1; break; } ok = false; break; }
    default:
      if (!kidsOk) { ok = false; break; }
      switch (e->op) {
      case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case SHL: case LSHR: case ASHR: case AND: case OR: case XOR: c = foldBin(e->op, K(e->a).c, K(e->b).c, e->w); break;
      case EQ: case ULT: case ULE: case SLT: case SLE: c = foldBin(e->op, K(e->a).c, K(e->b).c, e->a->w); break;
      case CONCAT: c = (K(e->a).c << e->b->w) | K(e->b).c; break;
      case EXTRACT: c = (K(e->a).c >> e->aux) & maskw(e->w); break;
      case ZEXT: c = K(e->a).c; break;
      case SEXT: c = (u64)sx(K(e->a).c, e->a->w) & maskw(e->w); break;
      case FADD: case FSUB: case FMUL: case FDIV:
        if (real) { mpq_class &x = evq[K(e->a).qi], &y = evq[K(e->b).qi]; if (e->op == FDIV && y == 0) { ok = false; break; }
          mpq_class z = e->op == FADD ? mpq_class(x + y) : e->op == FSUB ? mpq_class(x - y) : e->op == FMUL ? mpq_class(x * y) : mpq_class(x / y); qi = newq(z); }
        else { double x = fpval(K(e->a).c, e->w), y = fpval(K(e->b).c, e->w); c = e->w == 32 ? fB((float)hostFBin(e->op, (float)x, (float)y)) : dB(hostFBin(e->op, x, y)); }
        break;
      case FNEG: if (real) qi = newq(-evq[K(e->a).qi]); else c = fpbits(-fpval(K(e->a).c, e->w), e->w); break;
      case FABS: if (real) qi = newq(abs(evq[K(e->a).qi])); else c = fpbits(std::fabs(fpval(K(e->a).c, e->w)), e->w); break;
      case FSQRT: if (real) ok = false; else c = fpbits(std::sqrt(fpval(K(e->a).c, e->w)), e->w); break;
      case FEQ: case FLT: case FLE:
        if (real) { int cmpv = cmp(evq[K(e->a).qi], evq[K(e->b).qi]); c = e->op == FEQ ? cmpv == 0 : e->op == FLT ? cmpv < 0 : cmpv <= 0; }
        else { double x = fpval(K(e->a).c, e->a->w), y = fpval(K(e->b).c, e->b->w); c = e->op == FEQ ? x == y : e->op == FLT ? x < y : x <= y; }
        break;
      case SI2F: case UI2F: { u64 v = K(e->a).c; if (real) { if (e->op == SI2F) { i64 s = sx(v, e->a->w); qi = newq(mpq_class(mpz_class((long)s))); } else qi = newq(mpq_class(mpz_class((unsigned long)v))); }
        else { double d = e->op == SI2F ? (double)sx(v, e->a->w) : (double)v; c = fpbits(d, e->w); } break; }
      case FPCAST: if (real) qi = K(e->a).qi; else c = fpbits(fpval(K(e->a).c, e->a->w), e->w); break;
      case BITS: if (real) ok = false; else c = K(e->a).c; break;
      case FROMBITS: if (real) { double d = fpval(K(e->a).c, e->w); if (!std::isfinite(d)) ok = false; else qi = newq(q_of(d)); } else c = K(e->a).c; break;
      default: ok = false;
      }
    }
    EvMemo &rr = evm[e->id]; rr.epoch = evEpoch; rr.ok = ok; rr.c = c; rr.qi = qi;
  }
  return 0;
}
EvalRes evalExpr(Expr *e, const Model &m) {
  evEpoch++; evq.clear();
  u64 c; mpq_class *q; EvalRes r; r.ok = evl(e, m, c, q); r.c = c; if (q) r.q = *q; return r;
}

// ---------------- printing
std::string exprStr(Expr *e, int d) {
  static const char *nm[] = {"var","const","fconst","+","-","*","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","=","ult","ule","slt","sle","ite","concat","extract","zext","sext","f+","f-","f*","f/","fneg","fabs","fsqrt","fite","f=","f<","f<=","si2f","ui2f","f2si","bits","frombits","fpcast","uf"};
  if (e->op == VAR) return g_vars[e->aux].name;
  if (e->op == CONST) return std::to_string(sx(e->cv, e->w)); if (e->op == FCONST) { char b[40]; snprintf(b, 40, "%g", fpval(e->cv, e->w)); return b; }
  if (d == 0) return "..";
  std::string s = std::string("(") + nm[e->op]; if (e->op == EXTRACT) s += "[" + std::to_string(e->aux) + "," + std::to_string(e->w) + "]";
  for (Expr *k : {e->a, e->b, e->c}) if (k) s += " " + exprStr(k, d - 1);
  return s + ")";
}

// ---------------- z3
static void z3err(Z3_context, Z3_error_code) {}
void initZ3() {
  Z3_config c = Z3_mk_config(); g_z3 = Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(g_z3, z3err);
}
static std::vector<Z3_ast> zcache;
static Z3_ast q2z(double d) { mpq_class q(d); std::string s = q.get_str(); return Z3_mk_numeral(g_z3, s.c_str(), Z3_mk_real_sort(g_z3)); }
// BV1 expressions are translated to z3 Bool
static Z3_ast boolToBV(Z3_ast b) { return Z3_mk_ite(g_z3, b, Z3_mk_unsigned_int64(g_z3, 1, Z3_mk_bv_sort(g_z3, 1)), Z3_mk_unsigned_int64(g_z3, 0, Z3_mk_bv_sort(g_z3, 1))); }
static Z3_ast asBV(Expr *e) { Z3_ast z = zcache[e->id]; if (e->w == 1 && !e->fp) return boolToBV(z); return z; }
static Z3_ast bvToBool(Z3_ast v) { return Z3_mk_eq(g_z3, v, Z3_mk_unsigned_int64(g_z3, 1, Z3_mk_bv_sort(g_z3, 1))); }
static Z3_sort fsort(u32 w) { return w == 32 ? Z3_mk_fpa_sort_32(g_z3) : Z3_mk_fpa_sort_64(g_z3); }
static Z3_ast bv2real(Z3_ast v, u32 w, bool sgn) {
  std::vector<Z3_ast> ts; Z3_sort rs = Z3_mk_real_sort(g_z3); Z3_ast zero = Z3_mk_int(g_z3, 0, rs);
  for (u32 i = 0; i < w; i++) {
    mpz_class p = 1; p <<= i; if (sgn && i == w - 1) p = -p; std::string s = p.get_str();
    Z3_ast bit = bvToBool(Z3_mk_extract(g_z3, i, i, v));
    ts.push_back(Z3_mk_ite(g_z3, bit, Z3_mk_numeral(g_z3, s.c_str(), rs), zero));
  }
  return Z3_mk_add(g_z3, ts.size(), ts.data());
}
Z3_ast toZ3(Expr *root) {
  if (zcache.size() < nextId) zcache.resize(nextId + 1024, nullptr);
  std::vector<std::pair<Expr *, int>> st; st.push_back({root, 0});
  Z3_context C = g_z3;
  while (!st.empty()) {
    Expr *e = st.back().first;
    if (zcache[e->id]) { st.pop_back(); continue; }
    if (st.back().second == 0) { st.back().second = 1; bool p = false; for (Expr *k : {e->a, e->b, e->c}) if (k && !zcache[k->id]) { st.push_back({k, 0}); p = true; } if (p) continue; }
    st.pop_back();
    Z3_ast z = nullptr; bool real = !g_ieee;
    auto A = [&]() { return zcache[e->a->id]; }; auto B = [&]() { return zcache[e->b->id]; };
    Z3_ast two[2];
    switch (e->op) {
    case VAR: { Z3_symbol s = Z3_mk_string_symbol(C, ("v" + std::to_string(e->aux)).c_str());
      if (e->fp) { if (real) z = Z3_mk_const(C, s, Z3_mk_real_sort(C)); else z = Z3_mk_fpa_to_fp_bv(C, Z3_mk_const(C, s, Z3_mk_bv_sort(C, e->w)), fsort(e->w)); }
      else if (e->w == 1) z = Z3_mk_const(C, s, Z3_mk_bool_sort(C)); else z = Z3_mk_const(C, s, Z3_mk_bv_sort(C, e->w)); break; }
    case CONST: z = e->w == 1 ? (e->cv ? Z3_mk_true(C) : Z3_mk_false(C)) : Z3_mk_unsigned_int64(C, e->cv, Z3_mk_bv_sort(C, e->w)); break;
    case FCONST: if (real) z = q2z(fpval(e->cv, e->w)); else z = e->w == 32 ? Z3_mk_fpa_numeral_float(C, asF(e->cv), fsort(32)) : Z3_mk_fpa_numeral_double(C, asD(e->cv), fsort(64)); break;
    case AND: if (e->w == 1) { two[0] = A(); two[1] = B(); z = Z3_mk_and(C, 2, two); } else z = Z3_mk_bvand(C, A(), B()); break;
    case OR: if (e->w == 1) { two[0] = A(); two[1] = B(); z = Z3_mk_or(C, 2, two); } else z = Z3_mk_bvor(C, A(), B()); break;
    case XOR: if (e->w == 1) { if (e->b->op == CONST) z = e->b->cv ? Z3_mk_not(C, A()) : A(); else z = Z3_mk_xor(C, A(), B()); } else z = Z3_mk_bvxor(C, A(), B()); break;
#define BVB(OPN, FN) case OPN: if (e->w == 1) z = bvToBool(FN(C, asBV(e->a), asBV(e->b))); else z = FN(C, A(), B()); break;
    BVB(ADD, Z3_mk_bvadd) BVB(SUB, Z3_mk_bvsub) BVB(MUL, Z3_mk_bvmul) BVB(UDIV, Z3_mk_bvudiv) BVB(SDIV, Z3_mk_bvsdiv) BVB(UREM, Z3_mk_bvurem) BVB(SREM, Z3_mk_bvsrem) BVB(SHL, Z3_mk_bvshl) BVB(LSHR, Z3_mk_bvlshr) BVB(ASHR, Z3_mk_bvashr)
    case EQ: z = Z3_mk_eq(C, A(), B()); break;
    case ULT: z = Z3_mk_bvult(C, asBV(e->a), asBV(e->b)); break;
    case ULE: z = Z3_mk_bvule(C, asBV(e->a), asBV(e->b)); break;
    case SLT: z = Z3_mk_bvslt(C, asBV(e->a), asBV(e->b)); break;
    case SLE: z = Z3_mk_bvsle(C, asBV(e->a), asBV(e->b)); break;
    case ITE: case FITE: z = Z3_mk_ite(C, A(), B(), zcache[e->c->id]); break;
    case CONCAT: z = Z3_mk_concat(C, asBV(e->a), asBV(e->b)); break;
    case EXTRACT: z = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, asBV(e->a)); if (e->w == 1) z = bvToBool(z); break;
    case ZEXT: z = Z3_mk_zero_ext(C, e->w - e->a->w, asBV(e->a)); break;
    case SEXT: z = Z3_mk_sign_ext(C, e->w - e->a->w, asBV(e->a)); break;
    case FADD: case FSUB: case FMUL: case FDIV:
      if (real) { two[0] = A(); two[1] = B(); z = e->op == FADD ? Z3_mk_add(C, 2, two) : e->op == FSUB ? Z3_mk_sub(C, 2, two) : e->op == FMUL ? Z3_mk_mul(C, 2, two) : Z3_mk_div(C, two[0], two[1]); }
      else { Z3_ast rm = Z3_mk_fpa_rne(C); z = e->op == FADD ? Z3_mk_fpa_add(C, rm, A(), B()) : e->op == FSUB ? Z3_mk_fpa_sub(C, rm, A(), B()) : e->op == FMUL ? Z3_mk_fpa_mul(C, rm, A(), B()) : Z3_mk_fpa_div(C, rm, A(), B()); }
      break;
    case FNEG: z = real ? Z3_mk_unary_minus(C, A()) : Z3_mk_fpa_neg(C, A()); break;
    case FABS: z = real ? Z3_mk_ite(C, Z3_mk_lt(C, A(), Z3_mk_int(C, 0, Z3_mk_real_sort(C))), Z3_mk_unary_minus(C, A()), A()) : Z3_mk_fpa_abs(C, A()); break;
    case FSQRT: z = real ? nullptr : Z3_mk_fpa_sqrt(C, Z3_mk_fpa_rne(C), A()); break;
    case FEQ: z = real ? Z3_mk_eq(C, A(), B()) : Z3_mk_fpa_eq(C, A(), B()); break;
    case FLT: z = real ? Z3_mk_lt(C, A(), B()) : Z3_mk_fpa_lt(C, A(), B()); break;
    case FLE: z = real ? Z3_mk_le(C, A(), B()) : Z3_mk_fpa_leq(C, A(), B()); break;
    case SI2F: z = real ? bv2real(asBV(e->a), e->a->w, true) : Z3_mk_fpa_to_fp_signed(C, Z3_mk_fpa_rne(C), asBV(e->a), fsort(e->w)); break;
    case UI2F: z = real ? bv2real(asBV(e->a), e->a->w, false) : Z3_mk_fpa_to_fp_unsigned(C, Z3_mk_fpa_rne(C), asBV(e->a), fsort(e->w)); break;
    case FPCAST: z = real ? A() : Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), A(), fsort(e->w)); break;
    case BITS: z = real ? nullptr : Z3_mk_fpa_to_ieee_bv(C, A()); break;
    case FROMBITS: z = real ? nullptr : Z3_mk_fpa_to_fp_bv(C, asBV(e->a), fsort(e->w)); break;
    default: z = nullptr;
    }
    if (!z) return nullptr;
    zcache[e->id] = z;
  }
  return zcache[root->id];
}
unsigned long g_rlimit = 40000000;
static Z3_string mkp(const char *) { return nullptr; }
SatRes solveConj(const std::vector<Expr *> &cs, Model *out, bool nice) {
  Z3_context C = g_z3; bool fp = false, bv = false, nl = false;
  std::vector<Z3_ast> zs; std::set<u32> vars;
  for (Expr *e : cs) { Z3_ast z = toZ3(e); if (!z) { if (getenv("SYMX_DBG")) fprintf(stderr, "untranslatable: %s\n", exprStr(e, 12).c_str()); return UNKNOWN; } zs.push_back(z); fp |= e->hasfp; bv |= e->hasbv; nl |= e->nonlin; for (u32 v : e->vs->v) vars.insert(v); }
  std::vector<Z3_ast> base = zs;
  if (nice) for (u32 v : vars) if (g_vars[v].fp && !g_ieee) { // small dyadic values reproduce exactly in double arithmetic
    Z3_sort rs = Z3_mk_real_sort(C); Z3_ast x = toZ3(g_vars[v].e);
    Z3_sort bs = Z3_mk_bv_sort(C, 8); Z3_ast n = Z3_mk_const(C, Z3_mk_string_symbol(C, ("nice" + std::to_string(v)).c_str()), bs);
    Z3_ast m[2] = {bv2real(n, 8, true), Z3_mk_real(C, 1, 4)}; (void)rs;
    zs.push_back(Z3_mk_eq(C, x, Z3_mk_mul(C, 2, m))); bv = true;
  }
  if (fp && !g_ieee && nl) { // polynomial identities fall to the sum-of-monomials rewriter
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_bool(C, p, Z3_mk_string_symbol(C, "som"), true);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "som_blowup"), 100000);
    Z3_params_set_bool(C, p, Z3_mk_string_symbol(C, "flat"), true);
    for (auto &z : zs) { z = Z3_simplify_ex(C, z, p); if (Z3_get_bool_value(C, z) == Z3_L_FALSE) { Z3_params_dec_ref(C, p); return UNSAT; } }
    Z3_params_dec_ref(C, p);
  }
  Z3_solver s; Z3_params p = nullptr; Z3_lbool r = Z3_L_UNDEF;
  for (int stage = (!fp ? 0 : 1); stage < 2 && r == Z3_L_UNDEF; stage++) {
    if (p) { Z3_params_dec_ref(C, p); Z3_solver_dec_ref(C, s); }
    if (!fp) s = stage == 0 ? Z3_mk_simple_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
    else if (g_ieee) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV"));
    else if (!bv && nl) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_NRA"));
    else if (!bv) s = Z3_mk_simple_solver(C);
    else s = Z3_mk_simple_solver(C);
    Z3_solver_inc_ref(C, s);
    p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    unsigned long rl = nice ? std::min(g_rlimit, 10000000ul) : g_rlimit; if (stage == 0) rl = std::min(rl, 4000000ul);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), rl);
    Z3_solver_set_params(C, s, p);
    for (auto z : zs) Z3_solver_assert(C, s, z);
    r = Z3_solver_check(C, s);
  }
  SatRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (res == SAT && out) {
    Z3_model m = Z3_solver_get_model(C, s); if (m) Z3_model_inc_ref(C, m);
    if (out->v.size() < g_vars.size()) out->v.resize(g_vars.size());
    for (u32 v : vars) {
      ModelVal mv; VarInfo &vi = g_vars[v]; Z3_ast val = nullptr; Z3_ast q = toZ3(vi.e);
      if (vi.fp && g_ieee) { Z3_ast b = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(v)).c_str()), Z3_mk_bv_sort(C, vi.w)); uint64_t u = 0; if (m && Z3_model_eval(C, m, b, true, &val) && Z3_get_numeral_uint64(C, val, &u)) { mv.known = true; mv.bv = u; } }
      else if (m && Z3_model_eval(C, m, q, true, &val)) {
        if (vi.fp) {
          if (Z3_get_ast_kind(C, val) == Z3_NUMERAL_AST) { mv.known = true; mv.isq = true; const char *s = Z3_get_numeral_string(C, val); mv.q = mpq_class(s); mv.q.canonicalize(); mv.approx = mv.q.get_d(); }
          else { const char *s = Z3_is_algebraic_number(C, val) ? Z3_get_numeral_decimal_string(C, val, 17) : nullptr; mv.known = false; mv.approx = s ? atof(s) : 0; }
        } else if (vi.w == 1) { mv.known = true; mv.bv = Z3_get_bool_value(C, val) == Z3_L_TRUE; }
        else { uint64_t u = 0; if (Z3_get_numeral_uint64(C, val, &u)) { mv.known = true; mv.bv = u; } }
      }
      out->v[v] = mv;
    }
    if (m) Z3_model_dec_ref(C, m);
  }
  Z3_params_dec_ref(C, p); Z3_solver_dec_ref(C, s);
  return res;
}
