// every communication helper delivers exactly the data of its definition, for every number of
// processes, message size, neighbourhood, and order in which wildcard receives match
#include "es_env.h"
#include <vector>
#include <algorithm>
#include <cstring>
using namespace espreso;
namespace espreso { namespace utils { void callusleep(int) {} } }
struct Rec { int a; char b; bool operator<(const Rec &o) const { return a < o.a; } };
static int val(int v) { return v; } static int val(const Rec &r) { return r.b == 7 ? r.a : -77777; } static int val(long v) { return (int)v; }
template <class T> static T mk(int v) { return (T)v; } template <> Rec mk<Rec>(int v) { Rec r; memset(&r, 0, sizeof r); r.a = v; r.b = 7; return r; }
SH static int op, np, maxn, calls; SH static int adj[8][8]; SH static int len[3][8][8]; SH static int dat[3][8][8][4]; SH static int cur[9], tgt[9]; SH static int sub; SH static int order[16], norder;
static void fillv(int c, int i, int j, int n, bool sym = true) { len[c][i][j] = n; for (int k = 0; k < n; k++) dat[c][i][j][k] = sym ? sym_int((nm("d", c) + "_" + nm("", i, j) + "_" + nm("", k)).c_str(), -1000000, 1000000) : k; }
template <class T> static std::vector<T> msg(int c, int i, int j) { std::vector<T> r; for (int k = 0; k < len[c][i][j]; k++) r.push_back(mk<T>(dat[c][i][j][k])); return r; }
template <class T> static void is(const std::vector<T> &v, int c, int i, int j, const char *l) { sym_assert((int)v.size() == len[c][i][j], l); for (int k = 0; k < len[c][i][j]; k++) sym_assert(val(v[k]) == dat[c][i][j][k], l); }
template <class T> static void ist(const std::vector<T> &v, const std::vector<int> &w, const char *l) { sym_assert(v.size() == w.size(), l); for (size_t k = 0; k < w.size(); k++) sym_assert(val(v[k]) == w[k], l); }
static std::vector<int> cat(int c, int lo, int hi) { std::vector<int> w; for (int i = lo; i < hi; i++) for (int k = 0; k < len[c][i][i]; k++) w.push_back(dat[c][i][i][k]); return w; }
template <class T> static void rankmainT(int r) {
  es_threads(1); es_mpi(); MPIGroup *g = MPITools::procs; std::vector<int> nb; for (int i = 0; i < np; i++) if (adj[r][i]) nb.push_back(i);
  for (int c = 0; c < calls; c++) {
    std::vector<std::vector<T>> s, q(nb.size()); for (int i : nb) s.push_back(msg<T>(c, r, i));
    switch (op) {
    case 0: for (size_t i = 0; i < nb.size(); i++) q[i].resize(len[c][nb[i]][r]); sym_assert(Communication::exchangeKnownSize(s, q, nb, g), "exchange"); for (size_t i = 0; i < nb.size(); i++) is(q[i], c, nb[i], r, "exchange of known sizes"); break;
    case 1: for (size_t i = 0; i < nb.size(); i++) q[i].resize(len[c][nb[i]][nb[i]]); sym_assert(Communication::exchangeKnownSize(msg<T>(c, r, r), q, nb, g), "exchange"); for (size_t i = 0; i < nb.size(); i++) is(q[i], c, nb[i], nb[i], "exchange of one message with known size"); break;
    case 2: { std::vector<esint> d(1, 0); std::vector<T> a; for (size_t i = 0; i < nb.size(); i++) { a.insert(a.end(), s[i].begin(), s[i].end()); d.push_back(a.size()); } std::vector<T> b(a.size() + 1); sym_assert(Communication::exchangeKnownSizeInPlace(a.data(), b.data(), d, nb, g), "exchange"); for (size_t i = 0; i < nb.size(); i++) is(std::vector<T>(b.begin() + d[i], b.begin() + d[i + 1]), c, nb[i], r, "exchange in place"); break; }
    case 3: sym_assert(Communication::exchangeUnknownSize(s, q, nb, g), "exchange"); for (size_t i = 0; i < nb.size(); i++) is(q[i], c, nb[i], r, "exchange of unknown sizes"); break;
    case 4: sym_assert(Communication::exchangeUnknownSize(msg<T>(c, r, r), q, nb, g), "exchange"); for (size_t i = 0; i < nb.size(); i++) is(q[i], c, nb[i], nb[i], "exchange of one message with unknown size"); break;
    case 5: for (size_t i = 0; i < nb.size(); i++) if (nb[i] < r) q[i].resize(len[c][nb[i]][r]); sym_assert(Communication::receiveLowerKnownSize(s, q, nb, g), "receive"); for (size_t i = 0; i < nb.size(); i++) if (nb[i] < r) is(q[i], c, nb[i], r, "receive from lower, known size"); break;
    case 6: sym_assert(Communication::receiveLowerUnknownSize(s, q, nb, g), "receive"); for (size_t i = 0; i < nb.size(); i++) if (nb[i] < r) is(q[i], c, nb[i], r, "receive from lower, unknown size"); else sym_assert(q[i].empty(), "nothing from upper"); break;
    case 7: for (size_t i = 0; i < nb.size(); i++) if (nb[i] > r) q[i].resize(len[c][nb[i]][r]); sym_assert(Communication::receiveUpperKnownSize(s, q, nb, g), "receive"); for (size_t i = 0; i < nb.size(); i++) if (nb[i] > r) is(q[i], c, nb[i], r, "receive from upper, known size"); break;
    case 8: sym_assert(Communication::receiveUpperUnknownSize(s, q, nb, g), "receive"); for (size_t i = 0; i < nb.size(); i++) if (nb[i] > r) is(q[i], c, nb[i], r, "receive from upper, unknown size"); else sym_assert(q[i].empty(), "nothing from lower"); break;
    case 9: { std::vector<T> a = msg<T>(c, r, r), b(a.size() * nb.size() + 1); sym_assert(Communication::gatherUniformNeighbors(a, b, nb, g), "gather"); for (size_t i = 0; i < nb.size(); i++) is(std::vector<T>(b.begin() + i * a.size(), b.begin() + (i + 1) * a.size()), c, nb[i], nb[i], "uniform gather"); break; }
    case 10: { std::vector<T> a = msg<T>(c, r, r), b; std::vector<size_t> off; sym_assert(Communication::gatherUnknownSize(a, b, off, g), "gather"); if (r == 0) ist(b, cat(c, 0, np), "gathered data"); sym_assert((int)off.size() == np + 1, "gather offsets"); for (int i = 0; i <= np; i++) sym_assert(off[i] == cat(c, 0, i).size(), "gather offsets"); break; }
    case 11: { std::vector<T> a = msg<T>(c, r, r); sym_assert(Communication::allGatherUnknownSize(a, g), "gather"); ist(a, cat(c, 0, np), "all-gathered data"); break; }
    case 12: { int o = cat(c, 0, r).size(), n = cat(c, 0, np).size(); std::vector<T> a(n), m = msg<T>(c, r, r); for (size_t i = 0; i < m.size(); i++) a[o + i] = m[i]; sym_assert(Communication::allGatherInplace(a.data(), o, m.size(), g), "gather"); ist(a, cat(c, 0, np), "in-place all-gathered data"); break; }
    case 13: { std::vector<T> a = msg<T>(c, r, r); sym_assert(Communication::uniqueAllGatherUnknownSize(a, g), "gather"); std::vector<int> w = cat(c, 0, np); std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); ist(a, w, "union of sorted data"); break; }
    case 14: { std::vector<T> a = msg<T>(c, r, r); sym_assert(Communication::broadcastUnknownSize(a, g), "broadcast"); is(a, c, 0, 0, "broadcast data"); break; }
    case 15: { std::vector<int> all = cat(c, 0, 1); std::vector<T> b; for (int i = cur[r]; i < cur[r + 1]; i++) b.push_back(mk<T>(dat[c][i / 4][0][i % 4])); std::vector<esint> C(cur, cur + np + 1), Z(tgt, tgt + np + 1); sym_assert(Communication::balance(b, C, Z, g), "balance"); std::vector<int> w; for (int i = tgt[r]; i < tgt[r + 1]; i++) w.push_back(dat[c][i / 4][0][i % 4]); ist(b, w, "balanced data"); break; }
    case 16: { std::vector<T> a, b; std::vector<int> ss, rs, w; for (int i = 0; i < np; i++) { auto m = msg<T>(c, r, i); a.insert(a.end(), m.begin(), m.end()); ss.push_back(m.size()); rs.push_back(len[c][i][r]); for (int k = 0; k < len[c][i][r]; k++) w.push_back(dat[c][i][r][k]); } b.resize(w.size()); sym_assert(Communication::allToAllV(a, b, ss, rs, g), "all to all"); ist(b, w, "all to all"); break; }
    case 17: { std::vector<int> t; std::vector<std::vector<T>> a, b; std::vector<int> src; for (int i = 0; i < np; i++) if (adj[r][i]) { t.push_back(i); a.push_back(msg<T>(c, r, i)); } if (sub) { std::reverse(t.begin(), t.end()); std::reverse(a.begin(), a.end()); } src.push_back(5); sym_assert(Communication::sendVariousTargets(a, b, t, src, g), "send"); size_t k = 0; for (int i = 0; i < np; i++) if (adj[i][r]) { sym_assert(k < src.size() && src[k] == i, "sources of the received messages"); is(b[k++], c, i, r, "message sent to a target"); } sym_assert((k == src.size()) & (k == b.size()), "number of received messages"); break; }
    case 18: { std::vector<T> a, b; std::vector<size_t> d(1, 0); for (int i = 0; i < np; i++) d.push_back(d.back() + len[c][i][i]); if (r == 0) for (int i = 0; i < np; i++) { auto m = msg<T>(c, i, i); a.insert(a.end(), m.begin(), m.end()); } Communication::scatterv(a, b, d, g); is(b, c, r, r, "scattered data"); break; }
    case 19: { std::vector<T> a, b; if (r == 0) for (int i = 0; i < np; i++) { auto m = msg<T>(c, i, i); a.insert(a.end(), m.begin(), m.end()); } sym_assert(Communication::scatter(a, b, len[c][0][0], g), "scatter"); is(b, c, r, r, "uniformly scattered data"); break; }
    case 24: { std::vector<T> a = msg<T>(c, r, r), b; sym_assert(sub ? Communication::receiveLower(a, b, g) : Communication::receiveUpper(a, b, g), "receive"); int f = sub ? r - 1 : r + 1; if (f >= 0 && f < np) is(b, c, f, f, "data of the neighbouring process"); break; }
    }
  }
  sym_reach("end");
}
static void rankmain(int r) { // operations with integers only
  es_threads(1); es_mpi(); MPIGroup *g = MPITools::procs;
  for (int c = 0; c < calls; c++) switch (op) {
    case 20: { std::vector<esint> s, o; for (int k = 0; k < len[c][r][r]; k++) { esint v = dat[c][r][r][k], t = Communication::exscan(v, g), sum = 0, off = 0; for (int i = 0; i < np; i++) { if (i < r) off += dat[c][i][i][k]; sum += dat[c][i][i][k]; } sym_assert(v == off, "offset of the process"); sym_assert(t == sum, "global sum"); o.push_back(dat[c][r][r][k]); }
      sym_assert(Communication::exscan(s, o, g), "exscan"); for (int k = 0; k < len[c][r][r]; k++) { esint sum = 0, off = 0; for (int i = 0; i < np; i++) { if (i < r) off += dat[c][i][i][k]; sum += dat[c][i][i][k]; } sym_assert(o[k] == off, "vector offset of the process"); sym_assert(s[k] == sum, "vector global sum"); }
      std::vector<esint> D = Communication::getDistribution<esint>(dat[c][r][r][0], g); sym_assert((int)D.size() == np + 1, "distribution size"); esint w = 0; for (int i = 0; i <= np; i++) { sym_assert(D[i] == w, "distribution"); if (i < np) w += dat[c][i][i][0]; } break; }
    case 21: { auto o = sub == 0 ? Communication::OP::SUM : sub == 1 ? Communication::OP::MAX : Communication::OP::MIN; int lo = cur[0], hi = cur[1]; if (r < lo || r >= hi) break; std::vector<esint> a = msg<int>(c, r, r); Communication::allReduce(a, o, lo, hi, g); for (int k = 0; k < len[c][r][r]; k++) { int w = dat[c][lo][lo][k]; for (int i = lo + 1; i < hi; i++) { int v = dat[c][i][i][k]; w = sub == 0 ? w + v : sub == 1 ? sym_ite_i(v > w, v, w) : sym_ite_i(v < w, v, w); } sym_assert(a[k] == w, "reduced data"); } break; }
    case 22: { // blocks [size, target, data...] sorted by target
      std::vector<esint> a, b; std::vector<std::vector<int>> w; for (int i = 0; i < np; i++) { if (adj[r][i]) { a.push_back(3 + len[c][r][i]); a.push_back(i); a.push_back(r); for (int k = 0; k < len[c][r][i]; k++) a.push_back(dat[c][r][i][k]); } }
      sym_assert(Communication::allToAllWithDataSizeAndTarget(a, b, 0, np, g), "all to all"); size_t p = 0; std::vector<int> seen(np, 0); while (p < b.size()) { sym_assert(b.size() - p >= 3, "block header"); esint n = sym_conc(b[p]), f = sym_conc(b[p + 2]); sym_assert(b[p + 1] == r, "block delivered to its target"); sym_assert((f >= 0) & (f < np), "origin"); sym_assert(adj[f][r] && !seen[f]++, "block sent exactly once"); sym_assert(n == 3 + len[c][f][r] && p + n <= b.size(), "block size"); for (int k = 0; k < len[c][f][r]; k++) sym_assert(b[p + 3 + k] == dat[c][f][r][k], "block data"); p += n; }
      for (int i = 0; i < np; i++) sym_assert(seen[i] == adj[i][r], "no block lost"); break; }
    case 23: { std::vector<esint> k = msg<int>(c, r, r), p(k.size()), s; for (size_t i = 0; i < p.size(); i++) p[i] = i; std::sort(p.begin(), p.end(), [&](esint i, esint j) { return k[i] < k[j]; }); sym_assert(Communication::computeSplitters(k, p, s, g), "splitters"); std::vector<int> all = cat(c, 0, np); std::sort(all.begin(), all.end()); int n = all.size(), mx = n ? all.back() : 0;
      sym_assert((int)s.size() == np + 1, "number of splitters"); sym_assert(s[0] == 0, "first splitter"); sym_assert(s[np] == mx + 1, "last splitter"); for (int i = 0; i < np; i++) sym_assert(s[i] <= s[i + 1], "splitters are sorted"); for (int i = 0; i < np; i++) { int in = 0; for (int k : all) in += k > s[i] && k < s[i + 1]; sym_assert(in <= (n + np - 1) / np, "keys are distributed evenly up to equal keys"); } break; }
    case 25: { MPISubset S(sub); sym_assert(S.acrosssize <= sub, "number of groups is bounded"); sym_assert(S.withinsize * S.acrosssize >= np, "groups cover all processes"); sym_assert(r == (r / S.withinsize) * S.withinsize + S.within.rank, "rank in the group"); int e = std::min(np - (r / S.withinsize) * S.withinsize, S.withinsize); sym_assert(S.within.size == e, "size of the group"); sym_assert(S.across.rank == r / S.withinsize, "rank across the groups"); int x = dat[c][r][r][0], y = 0, w = 0; Communication::allReduce(&x, &y, 1, MPI_INT, MPI_SUM, &S.within); for (int i = 0; i < np; i++) if (i / S.withinsize == r / S.withinsize) w += dat[c][i][i][0]; sym_assert(y == w, "reduction within the group"); break; }
    case 26: { int x[2] = {dat[c][r][r][0], dat[c][r][r][0] / 2}, y[2] = {0, 0}, s = 0, root = sub, all[8]; for (int i = 0; i < np; i++) s += dat[c][i][i][0]; sym_assert(Communication::allReduce(x, y, 2, MPI_INT, MPI_SUM, g) && y[0] == s, "allreduce"); y[0] = 0; Communication::reduce(x, y, 2, MPI_INT, MPI_SUM, root, g); if (r == root) sym_assert(y[0] == s, "reduce"); sym_assert(Communication::allGather(x, all, 1, MPI_INT, g), "allgather"); for (int i = 0; i < np; i++) sym_assert(all[i] == dat[c][i][i][0], "allgather"); y[0] = x[0]; Communication::allReduce(y, nullptr, 1, MPI_INT, MPI_SUM, g); sym_assert(y[0] == s, "in-place allreduce"); y[0] = x[0]; Communication::reduce(y, nullptr, 1, MPI_INT, MPI_SUM, root, g); if (r == root) sym_assert(y[0] == s, "in-place reduce"); y[0] = x[0]; Communication::broadcast(y, 1, MPI_INT, root, g); sym_assert(y[0] == dat[c][root][root][0], "broadcast"); y[0] = 0; Communication::exscan(x, y, 1, MPI_INT, MPI_SUM, g); int off = 0; for (int i = 0; i < r; i++) off += dat[c][i][i][0]; if (r) sym_assert(y[0] == off, "exscan"); y[0] = x[0]; Communication::exscan(y, nullptr, 1, MPI_INT, MPI_SUM, g); if (r) sym_assert(y[0] == off, "in-place exscan"); break; }
    }
  sym_reach("end");
}
extern "C" void harness() { // params: op, processes, max length, calls, type, synchronous sends, full graph
  op = sym_param(0, 0); np = sym_param(1, 2); maxn = sym_param(2, 1); calls = sym_param(3, 1); int ty = sym_param(4, 0); mpi_sync_send = sym_param(5, 0); int fg = sym_param(6, 0);
  bool graph = op <= 9 || op == 17 || op == 22, directed = op == 17 || op == 22, own = op == 1 || op == 4 || op >= 9;
  for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) if (graph && (directed || i < j)) { adj[i][j] = fg || (directed && np > 2 && i == j) ? i != j : sym_choose(nm("adj", i, j).c_str(), 0, 1); if (!directed) adj[j][i] = adj[i][j]; }
  if (op == 25) sub = sym_choose("sub", 1, np); if (op == 26) sub = sym_choose("sub", 0, np - 1); if (op == 21) { sub = sym_param(7, 0) ? 0 : sym_choose("sub", 0, 2); cur[0] = sym_choose("lo", 0, np - 1); cur[1] = sym_choose("hi", cur[0] + 1, np); } if (op == 24 || op == 17) sub = sym_choose("sub", 0, 1);
  if (op == 15) { int n = sym_choose("n", 0, maxn); for (int i = 1; i <= np; i++) { cur[i] = i == np ? n : sym_choose(nm("cur", i).c_str(), cur[i - 1], n); tgt[i] = i == np ? n : sym_choose(nm("tgt", i).c_str(), tgt[i - 1], n); } }
  for (int c = 0; c < calls; c++) {
    if (op == 15) { for (int i = 0; i < maxn; i++) dat[c][i / 4][0][i % 4] = sym_int(nm("d", c, i).c_str(), -1000, 1000); continue; }
    for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) {
      if (own && op != 16 && op != 17 && op != 22 ? i != j : (graph && !adj[i][j])) continue;
      bool uni = op == 9 || op == 19 || op == 20 || op == 21 || op == 24 || op == 25 || op == 26; int n;
      if (uni && i) n = len[c][0][0]; else if (op == 2 && i > j) n = len[c][j][i]; else n = op == 25 || op == 26 ? 1 : c && op != 23 ? std::max(op == 20 ? 1 : 0, (len[0][i][j] + 1) % (maxn + 1)) : sym_choose((nm("n", c) + nm("_", i, j)).c_str(), op == 20 ? 1 : 0, maxn);
      if (op == 23) { len[c][i][j] = n; int kr = sym_param(6, 2); for (int k = 0; k < n; k++) dat[c][i][j][k] = kr ? sym_choose((nm("k", i) + nm("_", k)).c_str(), 0, kr) : sym_int((nm("k", i) + nm("_", k)).c_str(), 0, 40); continue; }
      fillv(c, i, j, n); if (op == 20 || op == 21 || op == 25 || op == 26) for (int k = 0; k < n; k++) sym_assume((dat[c][i][j][k] > -1000) & (dat[c][i][j][k] < 1000)); if (op == 13) for (int k = 1; k < n; k++) sym_assume(dat[c][i][j][k - 1] < dat[c][i][j][k]);
    }
  }
  if ((op >= 20 && op <= 23) || op >= 25) mpi_run(np, rankmain); else if (ty == 0) mpi_run(np, rankmainT<int>); else if (ty == 1) mpi_run(np, rankmainT<Rec>); else mpi_run(np, rankmainT<long>);
}
