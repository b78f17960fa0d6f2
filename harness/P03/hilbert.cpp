// bijection, adjacency and nesting of the Hilbert curve for a whole grid level
#include "sym.h"
#include "basis/sfc/hilbertcurve.h"
#include "es_env.h"
using namespace espreso;
static HilbertCurve *curve(int dim, int depth) {
  es_mpi(); static Point p[2] = {Point(0, 0, 0), Point(1, 1, 1)}; return new HilbertCurve(dim, depth ? depth : 1, 2, p);
}
static size_t dist(size_t a, size_t b) { return a > b ? a - b : b - a; }
extern "C" void harness() {
  int dim = sym_param(0, 2), depth = sym_param(1, 3), mode = sym_param(2, 0);
  HilbertCurve *h = curve(dim, depth);
  size_t n = (size_t)1 << depth, cells = dim == 2 ? n * n : n * n * n;
  size_t x, y, z = 0;
  if (mode == 0) {
    size_t d = sym_long("d", 0, cells - 1);
    if (dim == 2) h->D1toD2(n, d, x, y); else h->D1toD3(n, d, x, y, z);
    sym_assert((x < n) & (y < n) & (z < n), "cell inside the grid");
    size_t back = dim == 2 ? h->D2toD1(n, x, y) : h->D3toD1(n, x, y, z);
    sym_assert(back == d, "index -> cell -> index is the identity");
    sym_observe_i("x", x); sym_observe_i("y", y); sym_observe_i("z", z);
  }
  if (mode == 1) { // cell -> index -> cell
    size_t cx = sym_long("cx", 0, n - 1), cy = sym_long("cy", 0, n - 1), cz = dim == 3 ? sym_long("cz", 0, n - 1) : 0;
    size_t idx = dim == 2 ? h->D2toD1(n, cx, cy) : h->D3toD1(n, cx, cy, cz);
    sym_assert(idx < cells, "index inside the range");
    size_t ux, uy, uz = 0;
    if (dim == 2) h->D1toD2(n, idx, ux, uy); else h->D1toD3(n, idx, ux, uy, uz);
    sym_assert((ux == cx) & (uy == cy) & (uz == cz), "cell -> index -> cell is the identity");
    sym_observe_i("idx", idx);
  }
  if (mode == 2) { // consecutive indices are face neighbours; coarser buckets are contiguous ranges
    size_t d = sym_long("d", 0, cells > 1 ? cells - 2 : 0), d2 = cells > 1 ? d + 1 : d;
    size_t vx, vy, vz = 0;
    if (dim == 2) { h->D1toD2(n, d, x, y); h->D1toD2(n, d2, vx, vy); } else { h->D1toD3(n, d, x, y, z); h->D1toD3(n, d2, vx, vy, vz); }
    size_t dd = dist(x, vx) + dist(y, vy) + dist(z, vz);
    sym_assert((dd == 1) | (d2 == d), "consecutive indices are face neighbours");
  }
  if (mode == 3 && depth > 0) {
    size_t d = sym_long("d", 0, cells - 1);
    size_t px, py, pz = 0;
    if (dim == 2) { h->D1toD2(n, d, x, y); h->D1toD2(n / 2, d / 4, px, py); } else { h->D1toD3(n, d, x, y, z); h->D1toD3(n / 2, d / 8, px, py, pz); }
    sym_assert((px == x / 2) & (py == y / 2) & (pz == z / 2), "children of a bucket are contiguous in the order");
  }
  sym_reach("end");
}
