// independent finite element reference: reference cells, shape functions from their polynomial spaces, geometry, environment shared by the assembler harnesses
#pragma once
#include "es_env.h"
#include "esinfo/ecfinfo.h"
#include "esinfo/meshinfo.h"
#include "esinfo/stepinfo.h"
#include "config/ecf/ecf.h"
#include "mesh/mesh.h"
#include "mesh/element.h"
#include "mesh/store/nodestore.h"
#include "mesh/store/elementstore.h"
#include "mesh/store/domainstore.h"
#include "mesh/store/domainsurfacestore.h"
#include "mesh/store/elementsregionstore.h"
#include "mesh/store/boundaryregionstore.h"
#include "basis/containers/serializededata.h"
#include "basis/evaluator/evaluator.h"
#include "analysis/pattern/pattern.h"
#include "analysis/linearsystem/directsolver.h"
#include "analysis/assembler/general/basefunctions.h"
#include <cmath>
using namespace espreso;
typedef Element::CODE EC;
enum { MXN = 20, MXG = 27 };
struct Cell { int code, n, edim; double ref[MXN][3]; bool pyr; double V[MXN][MXN]; }; // V: coefficients of the shape functions in the basis of the space
static bool degraded; // quadratic pyramid as a degenerated hexahedron (structural mechanics)
static int basis(int code, double x, double y, double z, double *v, int d) { // d: -1 value, 0-2 derivative
  int m = 0; auto p = [](double a, int e, int der) { if (!der) return e == 0 ? 1 : e == 1 ? a : a * a; return e == 0 ? 0 : e == 1 ? 1 : 2 * a; };
  auto add = [&](int a, int b, int c) { v[m++] = p(x, a, d == 0) * p(y, b, d == 1) * p(z, c, d == 2); };
  auto q3 = [&](int c) { if (d == 2) return; };
  (void)q3;
  switch (code) {
  case (int)EC::LINE2: add(0,0,0); add(1,0,0); break;
  case (int)EC::LINE3: add(0,0,0); add(1,0,0); add(2,0,0); break;
  case (int)EC::TRIANGLE3: add(0,0,0); add(1,0,0); add(0,1,0); break;
  case (int)EC::TRIANGLE6: for (int a = 0; a <= 2; a++) for (int b = 0; a + b <= 2; b++) add(a, b, 0); break;
  case (int)EC::SQUARE4: for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) add(a, b, 0); break;
  case (int)EC::SQUARE8: for (int a = 0; a <= 2; a++) for (int b = 0; b <= 2; b++) if (a + b < 4) add(a, b, 0); break;
  case (int)EC::TETRA4: add(0,0,0); add(1,0,0); add(0,1,0); add(0,0,1); break;
  case (int)EC::TETRA10: for (int a = 0; a <= 2; a++) for (int b = 0; a + b <= 2; b++) for (int c = 0; a + b + c <= 2; c++) add(a, b, c); break;
  case (int)EC::PRISMA6: for (int c = 0; c < 2; c++) { add(0,0,c); add(1,0,c); add(0,1,c); } break;
  case (int)EC::PRISMA15: for (int c = 0; c < 2; c++) for (int a = 0; a <= 2; a++) for (int b = 0; a + b <= 2; b++) add(a, b, c); add(0,0,2); add(1,0,2); add(0,1,2); break;
  case (int)EC::HEXA8: for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 2; c++) add(a, b, c); break;
  case (int)EC::HEXA20: for (int a = 0; a <= 2; a++) for (int b = 0; b <= 2; b++) for (int c = 0; c <= 2; c++) if ((a == 2) + (b == 2) + (c == 2) < 2) add(a, b, c); break;
  case (int)EC::PYRAMID5: case (int)EC::PYRAMID13: { // collapsed coordinates, height h = (1 - t) / 2
    double h = .5 * (1 - z); auto addh = [&](int a, int b, int e) { double H = d == 2 ? -.5 * (e == 0 ? 0 : e == 1 ? 1 : 2 * h) : (e == 0 ? 1 : e == 1 ? h : h * h); v[m++] = p(x, a, d == 0) * p(y, b, d == 1) * H; };
    addh(0,0,0); for (int e = 1; e <= (code == (int)EC::PYRAMID5 ? 1 : 2); e++) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) addh(a, b, e); if (code == (int)EC::PYRAMID13) { int e = degraded ? 1 : 2; addh(2,0,e); addh(0,2,e); addh(2,1,e); addh(1,2,e); } break; }
  }
  return m; }
static Cell &cell(EC ec) {
  static Cell C[(int)EC::SIZE]; Cell &c = C[(int)ec]; if (c.n) return c; c.code = (int)ec; c.edim = 3; c.pyr = false;
  auto pt = [&](double x, double y, double z) { double *r = c.ref[c.n++]; r[0] = x; r[1] = y; r[2] = z; };
  auto mid = [&](int a, int b) { pt(.5 * (c.ref[a][0] + c.ref[b][0]), .5 * (c.ref[a][1] + c.ref[b][1]), .5 * (c.ref[a][2] + c.ref[b][2])); };
  auto sq = [&](double z) { pt(-1,-1,z); pt(1,-1,z); pt(1,1,z); pt(-1,1,z); }; auto tr = [&](double z) { pt(0,0,z); pt(1,0,z); pt(0,1,z); };
  switch (ec) {
  case EC::LINE2: case EC::LINE3: c.edim = 1; pt(-1,0,0); pt(1,0,0); if (ec == EC::LINE3) mid(0,1); break;
  case EC::TRIANGLE3: case EC::TRIANGLE6: c.edim = 2; tr(0); if (ec == EC::TRIANGLE6) { mid(0,1); mid(1,2); mid(2,0); } break;
  case EC::SQUARE4: case EC::SQUARE8: c.edim = 2; sq(0); if (ec == EC::SQUARE8) for (int i = 0; i < 4; i++) mid(i, (i + 1) % 4); break;
  case EC::TETRA4: case EC::TETRA10: tr(0); pt(0,0,1); if (ec == EC::TETRA10) { mid(0,1); mid(1,2); mid(2,0); mid(0,3); mid(1,3); mid(2,3); } break;
  case EC::PYRAMID5: case EC::PYRAMID13: c.pyr = true; sq(-1); pt(0,0,1); if (ec == EC::PYRAMID13) { for (int i = 0; i < 4; i++) mid(i, (i + 1) % 4); for (int i = 0; i < 4; i++) mid(i, 4); } break;
  case EC::PRISMA6: case EC::PRISMA15: tr(-1); tr(1); if (ec == EC::PRISMA15) { mid(0,1); mid(1,2); mid(2,0); mid(3,4); mid(4,5); mid(5,3); mid(0,3); mid(1,4); mid(2,5); } break;
  case EC::HEXA8: case EC::HEXA20: sq(-1); sq(1); if (ec == EC::HEXA20) { for (int k = 0; k < 8; k += 4) for (int i = 0; i < 4; i++) mid(k + i, k + (i + 1) % 4); for (int i = 0; i < 4; i++) mid(i, i + 4); } break;
  default: break; }
  int n = c.n; static double A[MXN][2 * MXN]; // invert the Vandermonde matrix
  for (int i = 0; i < n; i++) { double x = c.ref[i][0], y = c.ref[i][1], z = c.ref[i][2]; if (c.pyr) { double h = .5 * (1 - z); if (h > 1e-9) { x /= h; y /= h; } else x = y = 0; } int m = basis(c.code, x, y, z, A[i], -1); if (m != n) sym_fail("reference: dimension of the space"); for (int j = 0; j < n; j++) A[i][n + j] = i == j; }
  for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (std::fabs(A[i][k]) > std::fabs(A[p][k])) p = i; for (int j = 0; j < 2 * n; j++) std::swap(A[k][j], A[p][j]); double d = A[k][k]; for (int j = 0; j < 2 * n; j++) A[k][j] /= d; for (int i = 0; i < n; i++) if (i != k && A[i][k] != 0) { double f = A[i][k]; for (int j = 0; j < 2 * n; j++) A[i][j] -= f * A[k][j]; } }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.V[i][j] = A[i][n + j];
  return c; }
static void shape(Cell &c, const double *r, double *N, double (*dN)[3]) { double b[MXN]; for (int d = -1; d < c.edim; d++) { basis(c.code, r[0], r[1], r[2], b, d); for (int i = 0; i < c.n; i++) { double s = 0; for (int j = 0; j < c.n; j++) s += c.V[j][i] * b[j]; (d < 0 ? N[i] : dN[i][d]) = s; } } }
// quadrature points: taken from the code, moved to the reference cell
struct Quad { int n; double r[MXG][3], w[MXG], N[MXG][MXN], dN[MXG][MXN][3]; };
static double det3(double J[3][3], int n) { return n == 1 ? J[0][0] : n == 2 ? J[0][0] * J[1][1] - J[0][1] * J[1][0] : J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]); }
template <EC code, size_t nodes, size_t gps, size_t edim> static void quad(Quad &q) {
  struct E { double w[gps], N[gps][nodes], dN[gps][nodes][edim], NN[nodes][nodes], dNN[nodes][nodes][edim]; }; static E e; BaseFunctions<code, gps>::simd(e); Cell &c = cell(code); q.n = gps;
  for (size_t g = 0; g < gps; g++) { double J[3][3] = {}; for (size_t d = 0; d < 3; d++) { q.r[g][d] = 0; for (size_t i = 0; i < nodes; i++) { q.r[g][d] += e.N[g][i] * c.ref[i][d]; for (size_t k = 0; k < edim; k++) J[d][k] += c.ref[i][d] * e.dN[g][i][k]; } }
    if (c.pyr) { double h = .5 * (1 - q.r[g][2]); q.r[g][0] /= h; q.r[g][1] /= h; q.w[g] = e.w[g]; } else q.w[g] = e.w[g] * det3(J, edim);
    shape(c, q.r[g], q.N[g], q.dN[g]); } }
// element geometry: an affine image of the reference cell with moved nodes
static double geo(Cell &c, int e, int i, int d) { static const double B[3][3] = {{1.1, .2, -.15}, {.1, .9, .25}, {-.2, .15, 1.2}}; double s = 1 + .25 * e, v = 0; int dim = info::mesh->dimension; for (int k = 0; k < dim; k++) v += B[d][k] * c.ref[i][k]; int h = (e * 37 + i * 17 + d * 29 + i * d * 7) % 13 - 6; return s * v + .01 * h + (d == 0 ? 4. * e + 1 : d == 1 ? 2 : 3); }
static void arr(serializededata<esint, esint> *&s, const std::vector<std::vector<int>> &v, bool regular1 = false) {
  std::vector<std::vector<esint>> b(1), d(1); b[0].push_back(0); int tot = 0; for (size_t i = 0; i < v.size(); i++) { for (int x : v[i]) d[0].push_back(x); tot += v[i].size(); b[0].push_back(tot); }
  s = regular1 ? new serializededata<esint, esint>(1, tarray<esint>(d)) : new serializededata<esint, esint>(tarray<esint>(b), tarray<esint>(d)); }
struct Geo { double w, N[MXN], dN[MXN][3], x[3], nrm[3]; }; // physical quadrature point: weight with the Jacobian, gradients, coordinates, normal
static Geo phys(Cell &c, Quad &q, int g, int dim, const double (*X)[3]) { Geo o; double J[3][3] = {}, I[3][3]; for (int d = 0; d < 3; d++) { o.x[d] = 0; if (d < dim) for (int i = 0; i < c.n; i++) { o.x[d] += q.N[g][i] * X[i][d]; for (int k = 0; k < c.edim; k++) J[d][k] += X[i][d] * q.dN[g][i][k]; } }
  for (int i = 0; i < c.n; i++) { o.N[i] = q.N[g][i]; for (int d = 0; d < 3; d++) o.dN[i][d] = 0; }
  if (c.edim < dim) { double *n = o.nrm; if (dim == 2) { n[0] = J[1][0]; n[1] = -J[0][0]; n[2] = 0; } else { n[0] = J[1][0] * J[2][1] - J[2][0] * J[1][1]; n[1] = J[2][0] * J[0][1] - J[0][0] * J[2][1]; n[2] = J[0][0] * J[1][1] - J[1][0] * J[0][1]; } double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]); for (int d = 0; d < 3; d++) n[d] /= l; o.w = q.w[g] * l; return o; }
  double D = det3(J, dim); o.w = q.w[g] * D; if (dim == 2) { I[0][0] = J[1][1] / D; I[0][1] = -J[0][1] / D; I[1][0] = -J[1][0] / D; I[1][1] = J[0][0] / D; } else for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a = (j + 1) % 3, b = (j + 2) % 3, p = (i + 1) % 3, r = (i + 2) % 3; I[i][j] = (J[a][p] * J[b][r] - J[a][r] * J[b][p]) / D; }
  for (int i = 0; i < c.n; i++) for (int d = 0; d < dim; d++) for (int k = 0; k < dim; k++) o.dN[i][d] += I[k][d] * q.dN[g][i][k];
  return o; }
// a coefficient: affine in coordinates, temperature and time
struct Coef { double c[6]; int m = 0; double at(const double *x, double T, double t) const { double v = c[0]; for (int d = 0; d < 3; d++) if (m >> d & 1) v += c[1 + d] * x[d]; if (m >> 3 & 1) v += c[4] * T; if (m >> 4 & 1) v += c[5] * t; return v; } };
struct CoefEval : Evaluator { double c0; std::vector<double> c; CoefEval() {} double evaluate(int t = 0) const override { double v = c0; for (size_t i = 0; i < c.size(); i++) v += c[i] * parameters[t][i + 1].value; return v; } };
static void setex(ECFExpression &x, const Coef &c, int dep) { static const char *nm[] = {"COORDINATE_X", "COORDINATE_Y", "COORDINATE_Z", "TEMPERATURE", "TIME"}; CoefEval *e = new CoefEval(); e->c0 = c.c[0]; for (int i = 0; i < 5; i++) if (dep >> i & 1) { for (auto &p : e->parameters) p.push_back(EvaluatorParameter(nm[i])); e->c.push_back(c.c[1 + i]); } x.evaluator = e; x.isset = true; x.value = "c"; }
static int nc, whatsym; // a coefficient with symbolic or concrete parameters; dep: bits of the variables it depends on
static Coef coef(const char *n, int dep, bool sym, double base = 1) { Coef c; c.m = dep; for (int i = 0; i < 6; i++) { c.c[i] = 0; if (i == 0 || (dep >> (i - 1) & 1)) { if (sym) { c.c[i] = sym_double(nm(n, i).c_str()); sym_assume((c.c[i] >= -10) & (c.c[i] <= 10)); } else { c.c[i] = i == 0 ? base + .25 * (nc % 5) : .125 * (1 + (nc + i) % 4); } } } nc++; return c; }
