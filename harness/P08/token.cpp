// tokenizer of configuration files against a specification, for every text over the special characters and arbitrary others
#include "es_env.h"
#include "config/reader/tokenizer.h"
#include <vector>
#include <string>
using namespace espreso;
namespace espreso { namespace utils { void callusleep(int) {} } }
typedef Tokenizer::Token T; struct Tok { T t; std::string v; size_t line; };
static bool isws(char c) { return c == ' ' || c == '\t' || c == '\r'; }
// the specification: returns false when the text is malformed
static bool spec(const std::string &s, std::vector<Tok> &out) {
  size_t p = 0, n = s.size(), line = 1; std::string b; auto flushtok = [&] () { if (!b.empty()) { out.push_back({T::STRING, b, line}); b.clear(); } };
  auto comment = [&] () { bool had = !b.empty(); std::string v = b; b.clear(); while (p < n && s[p] != '\n' && s[p] != '\r') p++; while (p < n && (s[p] == '\n' || s[p] == '\r')) { if (s[p] == '\n') line++; p++; } if (had) out.push_back({T::STRING, v, line}); };
  while (p < n) { char c = s[p];
    if (c == '#') { comment(); continue; }
    if (c == '/' && p + 1 < n && s[p + 1] == '/') { comment(); continue; }
    if (c == '/' && p + 1 < n && s[p + 1] == '*') { size_t e = s.find("*/", p + 2); if (e == std::string::npos) return false; for (size_t i = p; i < e; i++) if (s[i] == '\n') line++; p = e + 2; continue; } // a comment does not separate tokens
    if (isws(c)) { flushtok(); p++; continue; }
    if (c == '\n') { line++; flushtok(); out.push_back({T::LINE_END, "\n", line}); p++; continue; }
    T t = c == ',' ? T::DELIMITER : c == '=' ? T::ASSIGN : c == ';' ? T::EXPRESSION_END : c == '{' ? T::OBJECT_OPEN : c == '}' ? T::OBJECT_CLOSE : T::END;
    if (t != T::END) { flushtok(); out.push_back({t, std::string(1, c), line}); p++; continue; }
    if (c == '[') { flushtok(); std::string v; int d = 0; p++; for (;; p++) { if (p >= n) return false; if (s[p] == ']' && !d) break; if (s[p] == '[') d++; if (s[p] == ']') d--; v += s[p]; } p++; out.push_back({T::LINK, v, line}); continue; }
    if (c == '$') { p++; if (p >= n || s[p] != '{') return false; p++; for (;; p++) { if (p >= n || s[p] == '\n') return false; if (s[p] == '}') break; b += s[p]; } p++; out.push_back({T::ENV, b, line}); b.clear(); continue; }
    if (c == '"' || c == '\'') { size_t e = p + 1; while (e < n && s[e] != '"' && s[e] != '\'') e++; if (e >= n) return false; if (!b.empty()) b += s.substr(p, e - p + 1); else b += s.substr(p + 1, e - p - 1); out.push_back({T::STRING, b, line}); b.clear(); p = e + 1; continue; }
    b += c; p++; }
  flushtok(); return true; }
extern "C" void harness() {
  int N = sym_param(0, 3), tpl = sym_param(1, 0); es_mpi();
  static const char *pre[] = {"", "a/*", "\"", "b[", "${", "x #", "a //", "A 1;\nB {", "p/", "'a' \""}, *post[] = {"", "", "\n;", "", "", "\nz", "\n=", "}\n", "*", "\" c"}; static const char sp[] = " \n,=;{}[]$\"'#/*\r";
  std::string s = pre[tpl]; int K = sizeof(sp) - 1, n = sym_choose("n", 0, N);
  for (int i = 0; i < n; i++) { int c = sym_choose(nm("c", i).c_str(), 0, K); if (c < K) s += sp[c]; else { unsigned char u = sym_u8(nm("u", i).c_str()); for (int k = 0; k < K; k++) sym_assume(u != (unsigned char)sp[k]); sym_assume(u != '\t'); s += (char)u; } }
  s += post[tpl]; std::vector<Tok> want, got; bool ok = spec(s, want); sym_forbid_reject = ok; sym_file_put("text.ecf", s.data(), s.size());
  { Tokenizer t("text.ecf"); for (size_t i = 0; i <= s.size() + 1; i++) { T k = t.next(); if (k == T::END) break; got.push_back({k, t.value(), t.line()}); sym_assert(t.token() == k, "last token"); } }
  sym_assert(ok, "a malformed text has to be reported"); sym_assert(got.size() == want.size(), "number of tokens");
  for (size_t i = 0; i < want.size(); i++) { sym_assert(got[i].t == want[i].t, "kind of the token"); sym_assert(got[i].v == want[i].v, "value of the token"); }
  sym_observe_i("n", got.size()); sym_reach("end");
}
