// threaded partition / merge / sort helpers: same multiset, right order, right offsets for every split into threads
#include "sym.h"
#include "basis/containers/tarray.h"
#include "basis/utilities/utils.h"
#include <algorithm>
using namespace espreso;
typedef std::vector<int> V; typedef std::vector<V> VV;
static V vals(const char *n, int k, int lo, int hi) { V v; for (int i = 0; i < k; i++) v.push_back(sym_int(nm(n, i).c_str(), lo, hi)); return v; }
static V lens(const char *n, int parts, int total) { V v; int left = total; for (int i = 0; i + 1 < parts; i++) { int k = sym_choose(nm(n, i).c_str(), 0, left); v.push_back(k); left -= k; } v.push_back(left); return v; }
static VV split(const V &d, const V &l) { VV r; size_t p = 0; for (int k : l) { r.push_back(V(d.begin() + p, d.begin() + p + k)); p += k; } return r; }
// membership without forking on the values
static int count(const V &d, int x) { int c = 0; for (int v : d) c += (v == x) ? 1 : 0; return c; }
static void same(const V &a, const V &b, const char *l) { sym_assert(a.size() == b.size(), l); for (int x : b) sym_assert(count(a, x) == count(b, x), l); }
static void sorted(const V &a, bool strict, const char *l) { for (size_t i = 1; i < a.size(); i++) sym_assert(strict ? a[i - 1] < a[i] : a[i - 1] <= a[i], l); }
static void uniq(const V &a, const V &in, const char *l) { sorted(a, true, l); for (int x : in) sym_assert(count(a, x) == 1, l); for (int x : a) sym_assert(count(in, x) >= 1, l); }
static std::vector<size_t> dist(const V &l) { std::vector<size_t> d(1, 0); for (int k : l) d.push_back(d.back() + k); return d; }
extern "C" void harness() {
  int op = sym_param(0, 0), N = sym_param(1, 4), P = sym_param(2, 2); sym_forbid_reject = 1;
  int parts = sym_choose("parts", 1, P), n = sym_choose("n", 0, N);
  switch (op) {
  case 0: { int size = sym_int("size", 0, sym_param(3, 1000)), mc = sym_int("minchunk", 0, sym_param(3, 1000)); auto d = tarray<int>::distribute(parts, size, mc); sym_assert((int)d.size() == parts + 1, "one border per part"); sym_assert(d[0] == 0, "starts at zero"); sym_assert(d[parts] == size, "covers all data"); int ch = (size + parts - 1) / parts, lim = sym_ite_i(mc > ch, mc, ch); for (int i = 0; i < parts; i++) { sym_assert(d[i] <= d[i + 1], "borders are monotone"); sym_assert(d[i + 1] - d[i] <= lim, "parts are balanced"); } auto e = tarray<size_t>::distribute(parts, size); for (int i = 0; i < parts; i++) sym_assert(e[i + 1] - e[i] <= (size_t)ch && e[i] <= e[i + 1], "parts are balanced"); sym_assert(e[parts] == (size_t)size, "covers all data"); break; }
  case 1: { V a = vals("a", n, -1000, 1000), b = a; int off = sym_int("off", -1000, 1000), s = utils::sizesToOffsets(b, off), w = off; for (int i = 0; i < n; i++) { sym_assert(b[i] == w, "offset is the sum of previous sizes"); w += a[i]; } sym_assert(s == w, "total size");
    VV m, o; for (int t = 0; t < parts; t++) m.push_back(vals(nm("m", t).c_str(), n, -1000, 1000)); o = m; V offs = vals("o", n, -1000, 1000); V sum = utils::sizesToOffsets(o, offs); for (int i = 0; i < n; i++) { int w = offs[i]; for (int t = 0; t < parts; t++) { sym_assert(o[t][i] == w, "offset of a thread"); w += m[t][i]; } sym_assert(sum[i] == w, "total size over threads"); } break; }
  case 2: { int es = parts; V d = vals("d", n * es, -1000, 1000), in = d, p; for (int i = 0; i < n; i++) { int k = sym_choose(nm("p", i).c_str(), 0, n - 1); for (int x : p) if (x == k) sym_reject("permutation"); p.push_back(k); } sym_forbid_reject = 1; utils::permute(d, p, es); sym_assert((int)d.size() == n * es, "size kept"); for (int i = 0; i < n; i++) for (int e = 0; e < es; e++) sym_assert(d[es * i + e] == in[es * p[i] + e], "permuted data"); break; }
  case 3: { // local running sums of each thread become global ones
    V l = lens("l", parts, n), a = vals("a", n, 0, 1000); VV d = split(a, l); for (auto &t : d) for (size_t i = 1; i < t.size(); i++) t[i] += t[i - 1]; auto e = d; utils::threadDistributionToFullDistribution(d); int w = 0, k = 0; for (int t = 0; t < parts; t++) for (size_t i = 0; i < d[t].size(); i++) { w += a[k++]; sym_assert(d[t][i] == w, "running sum over threads"); }
    V f(1, 0); for (auto &t : e) f.insert(f.end(), t.begin(), t.end()); auto ds = dist(l); utils::threadDistributionToFullDistribution(f, ds); w = 0; sym_assert(f[0] == 0, "first border"); for (int i = 0; i < n; i++) { w += a[i]; sym_assert(f[i + 1] == w, "running sum in one array"); } break; }
  case 4: { V a = vals("a", n, 0, 5), b = a; int begin = sym_choose("begin", 0, n); utils::sortAndRemoveDuplicates(b, begin); for (int i = 0; i < begin; i++) sym_assert(b[i] == a[i], "prefix untouched"); uniq(V(b.begin() + begin, b.end()), V(a.begin() + begin, a.end()), "sorted unique data"); V c = a; utils::removeDuplicates(c, begin); size_t k = begin; for (int i = 0; i < n; i++) { if (i < begin) { sym_assert(c[i] == a[i], "prefix untouched"); continue; } if (i == begin || a[i] != a[i - 1]) { sym_assert(k < c.size(), "first of equal values kept"); sym_assert(c[k++] == a[i], "first of equal values kept"); } } sym_assert(k == c.size(), "adjacent duplicates removed"); break; }
  case 5: { V a = vals("a", n, 0, 1000), l = lens("l", parts, n); VV d = split(a, l), e = d; std::vector<VV> f(parts, VV(1)); for (int t = 0; t < parts; t++) f[t][0] = d[t]; utils::mergeThreadedUniqueData(d); uniq(d[0], a, "union of the threads' data"); utils::mergeThreadedUniqueData(f); uniq(f[0][0], a, "union of the threads' data (nested)"); utils::sortWithUniqueMerge(e); uniq(e[0], a, "union by merging"); break; }
  case 6: { V a = vals("a", n, 0, 1000), l = lens("l", parts, n); VV d = split(a, l); utils::sortWithInplaceMerge(d); sorted(d[0], false, "merged data are sorted"); same(d[0], a, "merge keeps the data"); V b = a; utils::sortWithInplaceMerge(b, dist(l)); sorted(b, false, "merged array is sorted"); same(b, a, "merge keeps the data"); break; }
  case 7: { V a = vals("a", n, 0, 1000), l = lens("l", parts, n); VV d = split(a, l), e; V flat; for (auto &t : d) { for (size_t i = 1; i < t.size(); i++) sym_assume(t[i - 1] <= t[i]); flat.insert(flat.end(), t.begin(), t.end()); } e = d; utils::inplaceMerge(e); sorted(e[0], false, "merge of sorted parts"); same(e[0], a, "merge keeps the data"); V g = flat; utils::mergeAppendedData(g, dist(l)); sorted(g, false, "appended data are merged"); same(g, a, "merge keeps the data"); break; }
  case 8: { long x = sym_long("x", 0, 100000), al = sym_choose("al", 1, sym_param(3, 64)); long u = utils::round_up(x, al), d = utils::round_down(x, al); sym_assert((u >= x) & (u < x + al), "rounded up"); sym_assert((d <= x) & (d > x - al), "rounded down"); sym_assert((u % al == 0) & (d % al == 0), "multiple of the alignment"); if (x > 0) { long q = utils::divide_round_up(x, al); sym_assert((q * al >= x) & ((q - 1) * al < x), "rounded quotient"); } break; }
  }
  sym_reach("end");
}
