// every point is sent to the bucket whose cell contains it, for every process and thread split
#include "sym.h"
#include "basis/sfc/hilbertcurve.h"
#include "es_env.h"
using namespace espreso;
SH static int dim, depth, nproc, threads; SH static Point pts[8]; SH static int owner[8]; SH static int N; SH static Point lo, hi;
struct Open : HilbertCurve { using HilbertCurve::HilbertCurve; using SpaceFillingCurve::_origin; using SpaceFillingCurve::_size; };
static void rankmain(int r) {
  es_threads(threads); es_mpi(); std::vector<Point> mine; for (int i = 0; i < N; i++) if (owner[i] == r) mine.push_back(pts[i]);
  Open h(dim, depth, mine.size(), mine.data());
  size_t n = (size_t)1 << depth;
  sym_assert(h.buckets(depth) == (dim == 2 ? n * n : n * n * n), "number of buckets"); sym_assert(h.bucketSize() == (dim == 2 ? 4u : 8u), "bucket size");
  for (int i = 0; i < N; i++) {
    size_t b = h.getBucket(pts[i]), x, y, z = 0;
    sym_assert(b < h.buckets(depth), "bucket inside the range");
    if (dim == 2) h.D1toD2(n, b, x, y); else h.D1toD3(n, b, x, y, z);
    // cell [lo + x * s / n, lo + (x+1) * s / n), s slightly larger than the box
    double eps = 2e-6; double c[3] = {(double)x, (double)y, (double)z};
    for (int d = 0; d < dim; d++) {
      double l = d == 0 ? lo.x : d == 1 ? lo.y : lo.z, u = d == 0 ? hi.x : d == 1 ? hi.y : hi.z, p = d == 0 ? pts[i].x : d == 1 ? pts[i].y : pts[i].z;
      double a = l + c[d] * (u - l) / n, q = l + (c[d] + 1) * (u - l) / n;
      sym_assert((p >= a - eps) & (p <= q + eps), "point lies in the cell of its bucket");
      size_t k = d == 0 ? x : d == 1 ? y : z; sym_assert(h.getBucket(p, d) == k, "bucket coordinate in one direction");
    }
    sym_observe_i("bucket", b);
  }
  sym_reach("end");
}
extern "C" void harness() {
  dim = sym_param(0, 2); depth = sym_param(1, 2); nproc = sym_param(2, 1); threads = sym_param(3, 1);
  N = sym_param(4, 3);
  double ox = sym_choose("ox", -2, 1) * 1.5, sz = sym_choose("sz", 0, 2); if (sz == 0) sz = 0.001;
  if (sz == 2) sz = 1000;
  lo = Point(ox, ox + 1, dim == 3 ? ox - 3 : 0); hi = Point(ox + sz, ox + 1 + 2 * sz, dim == 3 ? ox - 3 + sz / 2 : 0);
  pts[0] = lo; pts[N - 1] = hi;
  for (int i = 1; i + 1 < N; i++) {
    pts[i].x = sym_double(nm("x", i).c_str()); pts[i].y = sym_double(nm("y", i).c_str()); pts[i].z = dim == 3 ? sym_double(nm("z", i).c_str()) : 0;
    sym_assume((pts[i].x >= lo.x) & (pts[i].x <= hi.x) & (pts[i].y >= lo.y) & (pts[i].y <= hi.y) & (pts[i].z >= lo.z) & (pts[i].z <= hi.z));
  }
  for (int i = 0; i < N; i++) owner[i] = nproc == 1 ? 0 : sym_choose(nm("own", i).c_str(), 0, nproc - 1);
  mpi_run(nproc, rankmain);
}
