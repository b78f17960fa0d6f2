// refinement: leaves of a refined curve are visited exactly once in order; neighbours = touching leaves
#include "sym.h"
#include "basis/sfc/hilbertcurve.h"
#include "es_env.h"
#include <algorithm>
#include <set>
using namespace espreso;
static bool touch(int dim, size_t D, size_t da, const size_t *a, size_t db, const size_t *b) { // closed boxes on the finest grid share a point
  for (int d = 0; d < dim; d++) { size_t sa = (size_t)1 << (D - da), sb = (size_t)1 << (D - db); if (a[d] * sa > (b[d] + 1) * sb || b[d] * sb > (a[d] + 1) * sa) return false; }
  return true; }
static void xyz(HilbertCurve &h, int dim, size_t depth, size_t idx, size_t *c) { size_t n = (size_t)1 << depth; c[2] = 0; if (dim == 2) h.D1toD2(n, idx, c[0], c[1]); else h.D1toD3(n, idx, c[0], c[1], c[2]); }
extern "C" void harness() {
  int dim = sym_param(0, 2), depth = sym_param(1, 2), mode = sym_param(2, 0);
  es_mpi(); static Point p[2] = {Point(0, 0, 0), Point(1, 1, 1)}; HilbertCurve h(dim, depth, 2, p);
  size_t bs = dim == 2 ? 4 : 8, total = 1; for (int i = 0; i < depth; i++) total *= bs;
  std::vector<std::pair<size_t, size_t>> leaves; // (depth, index) in curve order
  if (mode < 2) {
    // random refinement: level 0 is always refined, each bucket of a refined one may be refined again (up to 3 of them)
    std::vector<size_t> cur = {0}; std::vector<std::vector<size_t>> ref(1, cur);
    int budget = 2;
    for (int l = 1; l < depth; l++) { std::vector<size_t> next; for (size_t r : ref[l - 1]) for (size_t k = 0; k < bs; k++) { size_t b = r * bs + k; bool go = budget > 0 && (sym_choose(nm("ref", l, b).c_str(), 0, 1) == 1); if (go) { next.push_back(b); budget--; } } ref.push_back(next); if (next.empty()) break; }
    for (size_t l = 1; l < ref.size(); l++) { h.setLevel(l); for (auto it = ref[l].rbegin(); it != ref[l].rend(); ++it) { h.recurce(*it); if (mode == 1) h.recurce(*it); } h.finishLevel(l); }
    h.setLevel(ref.size()); // the refinement ends with an empty level
    for (size_t l = 0; l < ref.size(); l++) { sym_assert(h.sfcRefined(l) == ref[l], "refined buckets are sorted and unique"); sym_assert(h.hasLevel(l) == !ref[l].empty(), "refined level present"); }
    // oracle for the leaves
    for (size_t b = 0; b < total;) { size_t d = 0, step = total; while (d < (size_t)depth && d < ref.size() && std::find(ref[d].begin(), ref[d].end(), b / step) != ref[d].end()) { d++; step /= bs; } leaves.push_back({d, b / step}); b += step; }
    // visited leaves
    size_t begin = 0, end = total; if (mode == 1) { int a = sym_choose("begin", 0, leaves.size() - 1), b = sym_choose("end", 0, leaves.size() - 1); if (a > b) sym_reject("order"); size_t s = 0; for (size_t i = 0; i < leaves.size(); i++) { size_t w = total; for (size_t k = 0; k < leaves[i].first; k++) w /= bs; if ((int)i == a) begin = s; s += w; if ((int)i == b) end = s; } }
    std::vector<std::pair<size_t, size_t>> seen, want; size_t s = 0;
    for (auto &l : leaves) { size_t w = total; for (size_t k = 0; k < l.first; k++) w /= bs; if (s >= begin && s < end) want.push_back(l); s += w; }
    h.iterateBuckets(begin, end, [&](size_t d, size_t i) { sym_assert(seen.size() < want.size() + 1, "too many buckets visited"); seen.push_back({d, i}); });
    sym_assert(seen == want, "every leaf of the range is visited exactly once and in order");
    size_t k = 0;
    if (dim == 2) h.iterateBuckets(begin, end, [&](size_t d, size_t x, size_t y) { size_t c[3]; xyz(h, dim, want[k].first, want[k].second, c); sym_assert((d == want[k].first) & (c[0] == x) & (c[1] == y), "2D callback"); k++; });
    else h.iterateBuckets(begin, end, [&](size_t d, size_t x, size_t y, size_t z) { size_t c[3]; xyz(h, dim, want[k].first, want[k].second, c); sym_assert((d == want[k].first) & (c[0] == x) & (c[1] == y) & (c[2] == z), "3D callback"); k++; });
    if (mode == 1) { sym_reach("end"); return; }
    h.SCFToXYZ();
    for (size_t l = 0; l < ref.size(); l++) { std::vector<size_t> e; size_t n = (size_t)1 << l; for (size_t b : ref[l]) { size_t c[3]; xyz(h, dim, l, b, c); e.push_back(c[2] * n * n + c[1] * n + c[0]); } std::sort(e.begin(), e.end()); sym_assert(h.xyzRefined(l) == e, "refined buckets in grid coordinates"); }
    int q = sym_choose("leaf", 0, leaves.size() - 1);
    std::vector<std::pair<size_t, size_t>> nb(1, {99, 99}), exp; h.addSFCNeighbors(leaves[q].first, leaves[q].second, nb);
    sym_assert(nb[0] == (std::pair<size_t, size_t>{99, 99}), "existing neighbours are kept"); nb.erase(nb.begin());
    size_t a[3]; xyz(h, dim, leaves[q].first, leaves[q].second, a);
    for (auto &l : leaves) { size_t b[3]; xyz(h, dim, l.first, l.second, b); if (touch(dim, depth, leaves[q].first, a, l.first, b)) exp.push_back(l); }
    std::sort(nb.begin(), nb.end()); nb.erase(std::unique(nb.begin(), nb.end()), nb.end()); std::sort(exp.begin(), exp.end());
    sym_assert(nb == exp, "neighbours are exactly the touching leaves");
    sym_observe_i("n", nb.size());
  } else {
    // process borders given by splitters: the union of returned buckets covers all touching buckets and no bucket spans two processes
    int procs = sym_param(3, 3); std::vector<esint> spl(procs + 1); spl[0] = 0; spl[procs] = total;
    for (int i = 1; i < procs; i++) { spl[i] = sym_choose(nm("s", i).c_str(), 0, total); if (spl[i] < spl[i - 1]) sym_reject("order"); }
    size_t d = sym_choose("depth", 1, depth), nb1 = 1; for (size_t i = 0; i < d; i++) nb1 *= bs; size_t idx = sym_choose("index", 0, nb1 - 1);
    std::vector<std::pair<size_t, size_t>> nb; h.addSFCNeighbors(d, idx, spl, nb); std::sort(nb.begin(), nb.end()); nb.erase(std::unique(nb.begin(), nb.end()), nb.end());
    size_t a[3]; xyz(h, dim, d, idx, a); std::vector<int> cover(total, 0);
    for (auto &l : nb) {
      size_t w = total, cnt = 1; for (size_t k = 0; k < l.first; k++) { w /= bs; cnt *= bs; } sym_assert((l.first >= d) & (l.first <= (size_t)depth) & (l.second < cnt), "valid bucket");
      size_t b[3]; xyz(h, dim, l.first, l.second, b); sym_assert(touch(dim, depth, d, a, l.first, b), "returned bucket touches the given one");
      for (size_t i = l.second * w; i < (l.second + 1) * w; i++) cover[i]++;
      for (int s = 0; s <= procs; s++) sym_assert(!(((size_t)spl[s] > l.second * w) & ((size_t)spl[s] < (l.second + 1) * w)), "bucket spans one process only");
    }
    for (size_t i = 0; i < total; i++) { size_t b[3]; xyz(h, dim, depth, i, b); bool t = touch(dim, depth, d, a, depth, b); sym_assert(cover[i] <= 1, "buckets do not overlap"); if (t) sym_assert(cover[i] == 1, "every touching finest bucket is covered"); }
    sym_observe_i("n", nb.size());
  }
  sym_reach("end");
}
