// containers of per-element data: balancing, iteration, permutation, copies and moves keep every element's data
#include "sym.h"
#include "basis/containers/serializededata.h"
using namespace espreso;
typedef std::vector<int> V; typedef std::vector<V> VV; typedef serializededata<esint, int> S;
static V lens(const char *n, int parts, int total) { V v; int left = total; for (int i = 0; i + 1 < parts; i++) { int k = sym_choose(nm(n, i).c_str(), 0, left); v.push_back(k); left -= k; } v.push_back(left); return v; }
static std::vector<size_t> dist(const V &l) { std::vector<size_t> d(1, 0); for (int k : l) d.push_back(d.back() + k); return d; }
static int es(int e, int u) { return u ? u : sym_param(3, 2); }
struct Model { int n, uni; VV el; }; // element -> values
static Model model(int n, int uni, int maxe) { Model m; m.n = n; m.uni = uni; for (int i = 0; i < n; i++) { int k = uni ? uni : sym_choose(nm("es", i).c_str(), 0, maxe); V v; for (int j = 0; j < k; j++) v.push_back(sym_int(nm("v", i, j).c_str(), -1000, 1000)); m.el.push_back(v); } return m; }
static void parts(const Model &m, const V &l, VV &b, VV &d) { b.assign(l.size(), V()); d.assign(l.size(), V()); int e = 0, off = 0; b[0].push_back(0); for (size_t t = 0; t < l.size(); t++) for (int i = 0; i < l[t]; i++, e++) { d[t].insert(d[t].end(), m.el[e].begin(), m.el[e].end()); off += m.el[e].size(); b[t].push_back(off); } }
static S build(const Model &m, const V &l) { VV b, d; parts(m, l, b, d); return m.uni ? S(m.uni, tarray<int>(d)) : S(tarray<esint>(b), tarray<int>(d)); }
static void check(S &s, const Model &m, const V &l, const char *lab) {
  sym_assert((int)s.structures() == m.n, lab); sym_assert(s.threads() == l.size(), lab); int e = 0; const S &cs = s;
  for (size_t t = 0; t < l.size(); t++) { int k = 0; auto c = cs.begin(t); for (auto it = s.begin(t); it != s.end(t); ++it, ++c, ++e, ++k) { sym_assert(e < m.n && k < l[t], lab); sym_assert(it->size() == m.el[e].size(), lab); sym_assert(c->size() == m.el[e].size(), lab); for (size_t i = 0; i < m.el[e].size(); i++) { sym_assert(it->at(i) == m.el[e][i], lab); sym_assert((*c)[i] == m.el[e][i], lab); } } sym_assert(k == l[t], lab); sym_assert(!(c != cs.end(t)), lab); }
  sym_assert(e == m.n, lab); e = 0; for (auto it = s.begin(); it != s.end(); ++it, ++e) { sym_assert(e < m.n, lab); sym_assert(it->size() == m.el[e].size(), lab); } sym_assert(e == m.n, lab);
  for (int i = 0; i < m.n; i++) { auto it = s.begin() + i; sym_assert(it->size() == m.el[i].size(), lab); for (size_t j = 0; j < m.el[i].size(); j++) sym_assert(it->at(j) == m.el[i][j], lab); auto jt = s.end() - (m.n - i); sym_assert(jt == it, lab); } }
extern "C" void harness() {
  int op = sym_param(0, 0), N = sym_param(1, 3), P = sym_param(2, 2), maxe = sym_param(3, 2); sym_forbid_reject = 1;
  int uni = op == 0 ? sym_choose("uni", 1, 2) : op == 1 ? 0 : sym_choose("uni", 0, 2), T = sym_choose("threads", 1, P), n = sym_choose("n", op <= 1 ? 0 : 1, N);
  if (op >= 2 && sym_param(4, 0)) n = N;
  V l = lens("l", T, n); Model m = model(n, uni, maxe); VV b, d; parts(m, l, b, d);
  switch (op) {
  case 0: { V g = lens("g", T, n); auto D = dist(g); bool given = uni > 1 || sym_choose("given", 0, 1); S::balance(uni, d, given ? &D : NULL); V all; for (int t = 0; t < T; t++) { if (given) sym_assert((int)d[t].size() == uni * g[t], "requested distribution"); else sym_assert((int)d[t].size() <= (n + T - 1) / T, "even distribution"); all.insert(all.end(), d[t].begin(), d[t].end()); } int k = 0; sym_assert((int)all.size() == n * uni, "balancing keeps the data"); for (auto &v : m.el) for (int x : v) sym_assert(all[k++] == x, "balancing keeps the order"); break; }
  case 1: { V g = lens("g", T, n); auto D = dist(g); bool given = sym_choose("given", 0, 1); if (sym_param(5, 0) == 0) b[0].size(); S::balance(b, d, given ? &D : NULL); int e = 0, off = 0; sym_assert(b[0].size() >= 1, "first border"); for (int t = 0; t < T; t++) { if (given) sym_assert((int)b[t].size() == g[t] + !t, "requested distribution"); else sym_assert((int)b[t].size() - !t <= (n + T - 1) / T, "even distribution"); size_t start = 0; for (size_t i = !t; i < b[t].size(); i++, e++) { sym_assert(e < n, "elements kept"); off += m.el[e].size(); sym_assert(b[t][i] == off, "element borders kept"); for (size_t j = 0; j < m.el[e].size(); j++) { sym_assert(start < d[t].size(), "data follow their element"); sym_assert(d[t][start++] == m.el[e][j], "data follow their element"); } } sym_assert(start == d[t].size(), "no foreign data"); } sym_assert(e == n, "elements kept"); break; }
  case 2: { S s = build(m, l); check(s, m, l, "iteration after construction"); break; }
  case 3: { S s = build(m, l); S c(s); check(c, m, l, "copy"); S k(std::move(c)); check(k, m, l, "moved container"); check(s, m, l, "source of the copy"); break; }
  case 4: { S s = build(m, l); Model o = model(1, uni ? uni : 0, 1); V l2(1, 1); S a = S(s); { S z = build(o, l2); z = s; check(z, m, l, "copy assignment"); S y = build(o, l2); y = std::move(z); check(y, m, l, "move assignment"); } check(s, m, l, "source of the assignment"); break; }
  case 5: { S s = build(m, l); V p, g = lens("g", T, n); for (int i = 0; i < n; i++) { int k = sym_choose(nm("p", i).c_str(), 0, n - 1); for (int x : p) if (x == k) sym_done(); p.push_back(k); } Model w = m; for (int i = 0; i < n; i++) w.el[i] = m.el[p[i]]; auto D = dist(g); s.permute(p, D); check(s, w, g, "permuted elements"); break; }
  case 6: { // arrays: constructors, alignment, copies
    V flat; for (auto &v : m.el) flat.insert(flat.end(), v.begin(), v.end()); size_t al = sym_choose("al", 0, 1) ? 64 : 0; auto eq = [&](const tarray<int> &t, const char *lab) { sym_assert(t.size() == flat.size(), lab); for (size_t i = 0; i < flat.size(); i++) sym_assert(t[i] == flat[i], lab); sym_assert(t.distribution().front() == 0 && t.distribution().back() == flat.size(), lab); sym_assert(t.end() - t.begin() == (long)flat.size(), lab); if (al && flat.size()) sym_assert((size_t)t.data() % al == 0, "alignment"); };
    tarray<int> a((size_t)T, flat, al); eq(a, "array from a vector"); tarray<int> c(a); eq(c, "array copy"); tarray<int> mv(std::move(c)); eq(mv, "moved array"); tarray<int> x((size_t)1, (size_t)2, 7); x = a; eq(x, "assigned array"); tarray<int> y((size_t)1, (size_t)2, 7); sym_assert(y[0] == 7 && y[1] == 7, "initial value"); y = std::move(x); eq(y, "move-assigned array"); tarray<int> f(d, al); eq(f, "array from threads' data"); tarray<int> h(flat, al); eq(h, "array from one vector"); std::vector<size_t> dd(1, 0); for (auto &v : d) dd.push_back(dd.back() + v.size()); tarray<int> g(dd, flat, al); eq(g, "array with a distribution"); for (int t = 0; t < T; t++) sym_assert(g.size(t) == d[t].size() && f.size(t) == d[t].size(), "distribution kept"); tarray<int> q(dd, 2, 5, al); sym_assert(q.size() == 2 * flat.size(), "duplicated size"); for (size_t i = 0; i < q.size(); i++) sym_assert(q[i] == 5, "initial value"); break; }
  }
  sym_reach("end");
}
