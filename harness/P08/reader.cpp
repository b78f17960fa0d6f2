// reading of a configuration: every accepted text sets exactly the named parameters to the written values, everything else is reported
#include "es_env.h"
#include "config/reader/reader.h"
#include "config/configuration.hpp"
#include <vector>
#include <string>
#include <map>
using namespace espreso;
namespace espreso { namespace utils { void callusleep(int) {} } }
enum class Opt { ALFA, BETA, GAMMA }; enum class Flg { NO = 0, X1 = 1, X2 = 2, X3 = 4 };
static ECFMetaData md(ECFDataType t) { return ECFMetaData().setdescription({ "d" }).setdatatype({ t }); }
struct Leaf : public ECFDescription { int width; std::string note; Leaf() { width = -7; note = "none"; REGISTER(width, md(ECFDataType::INTEGER)); REGISTER(note, md(ECFDataType::STRING)); } };
struct Sub : public ECFDescription { int depth; Leaf leaf; std::map<std::string, std::string> names; std::map<size_t, Leaf> steps;
  Sub() { depth = -3; REGISTER(depth, md(ECFDataType::INTEGER)); REGISTER(leaf, ECFMetaData().setdescription({ "d" }));
    REGISTER(names, ECFMetaData().setdescription({ "d", "d" }).setdatatype({ ECFDataType::STRING, ECFDataType::STRING }).setpattern({ "a", "b" }));
    REGISTER(steps, ECFMetaData().setdescription({ "d", "d" }).setdatatype({ ECFDataType::LOAD_STEP }).setpattern({ "1" })); } };
struct Root : public ECFDescription { int iv; size_t nv; double dv; std::string sv; bool bv; Opt ov; Flg fv; Sub sub; std::vector<int> vec;
  Root() { iv = -1; nv = 99; dv = -0.5; sv = "dflt"; bv = false; ov = Opt::GAMMA; fv = Flg::X3;
    REGISTER(iv, md(ECFDataType::INTEGER)); REGISTER(nv, md(ECFDataType::NONNEGATIVE_INTEGER)); REGISTER(dv, md(ECFDataType::FLOAT)); REGISTER(sv, md(ECFDataType::STRING)); REGISTER(bv, md(ECFDataType::BOOL));
    auto o = [] (const char *n) { return ECFOption().setname(n).setdescription("d"); };
    REGISTER(ov, md(ECFDataType::OPTION).addoption(o("ALFA")).addoption(o("BETA")).addoption(o("GAMMA"))); REGISTER(fv, md(ECFDataType::ENUM_FLAGS).addoption(o("X1")).addoption(o("X2")).addoption(o("X3")));
    REGISTER(sub, ECFMetaData().setdescription({ "d" })); REGISTER(vec, md(ECFDataType::INTEGER)); } };
struct LM { int width = -7; std::string note = "none"; };
struct Model { int iv = -1; size_t nv = 99; double dv = -0.5; std::string sv = "dflt"; bool bv = false; Opt ov = Opt::GAMMA; Flg fv = Flg::X3; std::vector<int> vec; int depth = -3; LM leaf; std::map<std::string, std::string> names; std::map<size_t, LM> steps; };
static int cnt; static std::string nn(const char *b) { return nm(b, cnt++); }
static int SEP0; static std::string sp() { static const char *s[] = {" ", " = ", "\t/* c; */ ", " // d;\n "}; return s[SEP0 ? sym_choose(nn("sep").c_str(), 0, SEP0) : 0]; }
static std::string low(const std::string &n) { std::string r = n; bool l = sym_choose(nn("case").c_str(), 0, 1); for (auto &c : r) if (l && c >= 'A' && c <= 'Z') c += 32; return r; }
static std::string digits(int n, long &v) { std::string s; v = 0; for (int i = 0; i < n; i++) { unsigned char d = sym_u8(nn("dig").c_str()); sym_assume(d >= '0' && d <= '9'); s += (char)d; v = v * 10 + (d - '0'); } return s; }
static std::string word(int n) { std::string s; for (int i = 0; i < n; i++) { unsigned char d = sym_u8(nn("ch").c_str()); sym_assume((d >= 'A' && d <= 'Z') || (d >= '0' && d <= '9') || (d >= 'a' && d <= 'z') || d == '.' || d == '-'); s += (char)d; } return s; }
static bool good; static Model M; static std::string T;
static void leafpar(LM &l, const std::string &ind) { long v; if (sym_choose(nn("lp").c_str(), 0, 1)) { std::string d = digits(1, v); T += ind + low("WIDTH") + sp() + d + ";\n"; l.width = v; } else { std::string w = word(1); T += ind + low("NOTE") + sp() + w + ";\n"; l.note = w; } }
static void statement(int kind) { long v;
  switch (kind) {
  case 0: { bool neg = sym_choose(nn("neg").c_str(), 0, 1); std::string d = digits(2, v); T += low("IV") + sp() + (neg ? "-" : "") + d + ";\n"; M.iv = neg ? -v : v; break; }
  case 1: { bool hex = sym_choose(nn("hex").c_str(), 0, 1); std::string d = digits(2, v); T += "NV" + sp() + (hex ? "0x" : "") + d + " ;"; M.nv = hex ? (v / 10) * 16 + v % 10 : v; break; }
  case 2: { int k = sym_choose(nn("real").c_str(), 0, 3); static const char *w[] = {"1.25", "-3e2", "0", ".5"}; static const double x[] = {1.25, -300, 0, .5}; T += low("DV") + sp() + w[k] + ";"; M.dv = x[k]; break; }
  case 3: { int k = sym_choose(nn("str").c_str(), 0, 2); std::string w = word(2); if (k == 0) { T += low("SV") + sp() + w + ";"; M.sv = w; } else if (k == 1) { T += "SV" + sp() + "\"" + w + ";{ x\" ;"; M.sv = w + ";{ x"; } else { T += "SV" + sp() + w + sp() + "mid , end ;"; M.sv = w + " mid , end"; } break; }
  case 4: { int k = sym_choose(nn("bool").c_str(), 0, 5); static const char *w[] = {"TRUE", "false", "1", "0", "", "True"}; T += low("BV") + sp() + w[k] + ";"; M.bv = k == 0 || k == 2 || k == 4 || k == 5; break; }
  case 5: { int k = sym_choose(nn("opt").c_str(), 0, 3); static const char *w[] = {"ALFA", "BETA", "GAMMA"}; if (k < 3) { T += "OV" + sp() + low(w[k]) + ";"; M.ov = (Opt)k; } else { std::string d = digits(1, v); T += "OV" + sp() + d + ";"; if (v > 2) good = false; else M.ov = (Opt)v; } break; }
  case 6: { int k = sym_choose(nn("flags").c_str(), 1, 7); std::string f; static const char *w[] = {"X1", "X2", "X3"}; for (int i = 0; i < 3; i++) if (k & (1 << i)) f += std::string(f.empty() ? "" : " | ") + w[i]; T += "FV" + sp() + low(f) + ";"; M.fv = (Flg)k; break; }
  case 7: { T += low("SUB") + " {\n"; long w; int k = sym_choose(nn("in").c_str(), 0, 2); if (k > 0) { std::string d = digits(1, w); T += low("DEPTH") + sp() + d + ";\n"; M.depth = w; } if (k > 1) { T += " LEAF {"; leafpar(M.leaf, " "); T += " }"; } T += "}\n"; break; }
  case 8: { std::string n = word(1), x = word(1); T += "SUB { NAMES { " + n + sp() + x + "; } }"; bool found = false; for (auto &p : M.names) if (StringCompare::caseInsensitiveEq(p.first, n)) { p.second = x; found = true; break; } if (!found) M.names[n] = x; break; }
  case 9: { std::string d = digits(1, v); T += "SUB { STEPS { " + d + " {"; LM &l = M.steps[v]; leafpar(l, ""); T += "} } }"; break; }
  case 10: { int n = sym_choose(nn("vn").c_str(), 1, 2); T += "VEC" + sp(); M.vec.clear(); for (int i = 0; i < n; i++) { std::string d = digits(1, v); T += (i ? ", " : "") + d; M.vec.push_back(v); } T += ";"; break; }
  // what has to be reported
  case 20: { std::string w = word(2); long q; T += w + " 1;"; for (const char *p : {"IV", "NV", "DV", "SV", "BV", "OV", "FV"}) sym_assume(!StringCompare::caseInsensitiveEq(w, p)); good = false; break; }
  case 21: { unsigned char c = sym_u8(nn("bad").c_str()); sym_assume((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '-' || c == '+'); int k = sym_choose(nn("wh").c_str(), 0, 5); static const char *w[] = {"IV", "NV", "DV", "BV", "OV", "FV"}; std::string d = digits(1, v); sym_assume(k != 2 || (c != 'e' && c != 'E')); T += w[k] + std::string(" ") + d + (char)c + ";"; good = false; break; }
  case 22: { std::string d = digits(1, v); sym_assume(v > 1); T += "BV " + d + ";"; good = false; break; }
  case 23: { unsigned char c = sym_u8(nn("bad").c_str()); sym_assume((c >= 'A' && c <= 'Z') || c == '-' || c == '.'); int k = sym_choose(nn("wh").c_str(), 0, 4); static const char *w[] = {"IV", "NV", "DV", "BV", "OV"}; T += w[k] + std::string(" ") + (char)c + ";"; good = false; break; }
  case 24: { static const char *w[] = {"SUB 1;", "IV { }", "}", "SUB {", "{ }", "SUB x { }", "OTHER { }", "SUB { STEPS { x { } } }", "SUB { DEPTH 1;", "FV X1 | Y;", "NV 1 2;"}; T += w[sym_choose(nn("wh").c_str(), 0, 10)]; good = false; break; }
  case 25: { static const char *w[] = {"[v1]", "IV [v1", "IV 1", "]"}; int k = sym_choose(nn("wh").c_str(), 0, 1); T += std::string(w[k]) + ";"; good = false; break; }
  // indirections
  case 30: { std::string d = digits(1, v); sym_file_put("inc.ecf", ("IV " + d + ";\n").data(), 6); T += "[inc.ecf]"; M.iv = v; break; }
  case 31: { T += "IV [ARG0];"; M.iv = 42; break; }
  case 32: { T += "SV [" + low("VAR1") + "];"; M.sv = "text"; break; }
  case 33: { T += "IV [r1];"; M.iv = 3; break; }
  }
}
static std::map<std::string, ECFRange> ranges;
static void run(int) {
  Root r; std::map<size_t, std::string> da; da[0] = "42"; std::map<std::string, std::string> vars; vars["var1"] = "text"; std::map<std::string, ECFRange> rg; rg["R1"].min = 3; rg["R1"].max = 9; rg["R1"].step = 1;
  ECFReader::read(*r.ecfdescription, "conf.ecf", rg, da, vars);
  sym_assert(good, "a wrong configuration has to be reported");
  sym_assert(r.iv == M.iv, "int"); sym_assert(r.nv == M.nv, "size_t"); sym_assert_eq_d(r.dv, M.dv, "double"); sym_assert(r.sv == M.sv, "string"); sym_assert(r.bv == M.bv, "bool"); sym_assert(r.ov == M.ov, "option"); sym_assert(r.fv == M.fv, "flags"); sym_assert(r.vec == M.vec, "vector");
  sym_assert(r.sub.depth == M.depth, "nested value"); sym_assert(r.sub.leaf.width == M.leaf.width && r.sub.leaf.note == M.leaf.note, "nested object"); sym_assert(r.sub.names == M.names, "map of values");
  sym_assert(r.sub.steps.size() == M.steps.size(), "size of a map of objects"); for (auto &p : M.steps) { auto it = r.sub.steps.find(p.first); sym_assert(it != r.sub.steps.end(), "member of a map of objects"); if (it != r.sub.steps.end()) sym_assert(it->second.width == p.second.width && it->second.note == p.second.note, "object in a map"); }
  // values that are printed can be read again
  auto again = [&] (const void *p) { ECFParameter *q = r.ecfdescription->getParameter(p); std::string s = q->getValue(); sym_assert(q->setValue(s), "the printed value is accepted"); };
  again(&r.iv); again(&r.nv); again(&r.sv); again(&r.bv); again(&r.ov); if ((int)r.fv) again(&r.fv);
  sym_assert(r.iv == M.iv && r.nv == M.nv && r.sv == M.sv && r.bv == M.bv && r.ov == M.ov && r.fv == M.fv, "the printed value is the same value");
  sym_observe_i("iv", r.iv); sym_observe_i("nv", r.nv); sym_observe_i("ov", (int)r.ov); sym_reach("end");
}
extern "C" void harness() {
  int ranks = sym_param(0, 1); SEP0 = sym_param(1, 0); good = true; es_mpi(); cnt = 0; M = Model(); T = "";
  for (int i = 2; i < 6; i++) { int k = sym_param(i, -1); if (k >= 0) statement(k); }
  sym_file_put("conf.ecf", T.data(), T.size()); sym_forbid_reject = good;
  run(0);
}
