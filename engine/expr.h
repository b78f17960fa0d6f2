// symx expression DAG, simplifier, evaluator and z3 translation.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <gmpxx.h>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint16_t u16; typedef uint32_t u32; typedef uint8_t u8;
typedef unsigned __int128 u128;

enum Op : u8 {
  VAR, CONST, FCONST,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
  EQ, ULT, ULE, SLT, SLE,
  ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FNEG, FABS, FSQRT, FITE, FEQ, FLT, FLE, SI2F, UI2F, F2SI, BITS, FROMBITS, FPCAST, UF
};
extern bool g_ieee;

struct VarSet { std::vector<u32> v; };

struct Expr {
  Op op; u8 fp; u8 nonlin; u8 hasbv; u8 hasfp; u32 w; u32 aux; u32 id;
  Expr *a, *b, *c; u64 cv;
  VarSet *vs;
  inline bool isConst() const { return op == CONST || op == FCONST; }
};

struct Val { u64 c; Expr *s; };
static inline u64 maskw(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, u32 w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)((v ^ m) - m); }
static inline double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline float asF(u64 b) { u32 x = (u32)b; float d; memcpy(&d, &x, 4); return d; }
static inline u64 dB(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline u64 fB(float d) { u32 b; memcpy(&b, &d, 4); return b; }
static inline double fpval(u64 c, u32 w) { return w == 32 ? (double)asF(c) : asD(c); }
static inline u64 fpbits(double d, u32 w) { return w == 32 ? fB((float)d) : dB(d); }
static inline Val cv(u64 c) { return Val{c, nullptr}; }

struct VarInfo { std::string name; u32 w; bool fp; Expr *e; int kind; };
extern std::vector<VarInfo> g_vars;

Expr *mkVar(const std::string &name, u32 w, bool fp);
Expr *mkConst(u64 c, u32 w);
Expr *mkFConst(u64 bits, u32 w);
Val vBin(Op op, Val a, Val b, u32 w);         // BV arithmetic
Val vCmp(Op op, Val a, Val b, u32 w);         // EQ ULT ULE SLT SLE -> i1
Val vNot(Val a);                              // i1
Val vIte(Val c, Val a, Val b, u32 w, bool fp);
Val vExtract(Val a, u32 lo, u32 w, u32 fromw);
Val vConcat(Val hi, u32 wh, Val lo, u32 wl);
Val vZext(Val a, u32 from, u32 to);
Val vSext(Val a, u32 from, u32 to);
Val vFBin(Op op, Val a, Val b, u32 w);
Val vFNeg(Val a, u32 w);
Val vFAbs(Val a, u32 w);
Val vFCmp(Op op, Val a, Val b, u32 w);        // FEQ/FLT/FLE ordered
Val vI2F(Val a, u32 from, u32 tow, bool sgn);
Val vBits(Val a, u32 w);                      // fp -> bv
Val vFromBits(Val a, u32 w);                  // bv -> fp
Val vFCast(Val a, u32 from, u32 to);
static inline Val ve(Expr *e) { if (e->isConst()) return Val{e->cv, nullptr}; return Val{0, e}; }
static inline Val vNorm(Val v);

// knowledge from the path condition: expr id -> constant
extern std::unordered_map<u32, u64> g_known;
static inline Val vNorm(Val v) { if (v.s) { auto it = g_known.find(v.s->id); if (it != g_known.end()) return cv(it->second); } return v; }

struct ModelVal { bool known = false; u64 bv = 0; bool isq = false; mpq_class q; double approx = 0; };
struct Model { std::vector<ModelVal> v; };
extern Model g_model;

struct EvalRes { bool ok; u64 c; mpq_class q; };
EvalRes evalExpr(Expr *e, const Model &m);

std::string exprStr(Expr *e, int depth = 6);
Z3_ast toZ3(Expr *e);
extern Z3_context g_z3;
void initZ3();

enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
// checks conj; on SAT fills model entries of the variables involved
SatRes solveConj(const std::vector<Expr *> &cs, Model *out, bool nice);
VarSet *varsOf(Expr *e);
extern std::vector<Expr *> g_side;   // axioms attached to fresh aux variables (always part of PC)
