// numerical integration: quadrature rules of the assembler integrate polynomials exactly, shape functions match the polynomial space of the element
#include "fem.h"
#include "analysis/assembler/heattransfer/element.h"
#include "analysis/assembler/structuralmechanics/element.h"
#include "math/math.h"
Element Mesh::edata[(int)Element::CODE::SIZE];
static double mono(int code, int a, int b, int c) { // integral of a monomial over the reference cell (collapsed coordinates of pyramids)
  auto seg = [](int k) { return k % 2 ? 0. : 2. / (k + 1); }; auto fac = [](int k) { double f = 1; for (int i = 2; i <= k; i++) f *= i; return f; };
  switch ((EC)code) { case EC::LINE2: case EC::LINE3: return seg(a); case EC::SQUARE4: case EC::SQUARE8: return seg(a) * seg(b); case EC::HEXA8: case EC::HEXA20: case EC::PYRAMID5: case EC::PYRAMID13: return seg(a) * seg(b) * seg(c);
  case EC::TRIANGLE3: case EC::TRIANGLE6: return fac(a) * fac(b) / fac(a + b + 2); case EC::TETRA4: case EC::TETRA10: return fac(a) * fac(b) * fac(c) / fac(a + b + c + 3); default: return fac(a) * fac(b) / fac(a + b + 2) * seg(c); } }
template <EC c, size_t n, size_t g, size_t e> static void run(int deg) {
  static Quad q; degraded = c == EC::PYRAMID13 && g == 27; Cell &C = cell(c); quad<c, n, g, e>(q); struct E { double w[g], N[g][n], dN[g][n][e], NN[n][n], dNN[n][n][e]; }; static E E0; BaseFunctions<c, g>::simd(E0);
  double err = 0; const bool tensor = (int)c == (int)EC::SQUARE4 || (int)c == (int)EC::SQUARE8 || (int)c == (int)EC::HEXA8 || (int)c == (int)EC::HEXA20 || (C.pyr && g != 14) || e == 1; int k = 0;
  for (int a = 0; a <= deg; a++) for (int b = 0; b <= (e > 1 ? deg : 0); b++) for (int d = 0; d <= (e > 2 ? deg : 0); d++) { if (!tensor && a + b + d > deg) continue; double s = 0; for (int i = 0; i < q.n; i++) s += q.w[i] * std::pow(q.r[i][0], a) * std::pow(q.r[i][1], b) * std::pow(q.r[i][2], d); double v = sym_double(nm("c", k++).c_str()); sym_assume((v >= -1) & (v <= 1)); err += v * (s - mono((int)c, a, b, d)); }
  sym_assert((err <= 1e-7) & (err >= -1e-7), "quadrature integrates polynomials exactly");
  // an arbitrary function of the element: its values and derivatives in Gauss points (in physical coordinates given by the code itself)
  double u[n]; for (size_t i = 0; i < n; i++) { u[i] = sym_double(nm("u", i).c_str()); sym_assume((u[i] >= -1) & (u[i] <= 1)); }
  for (size_t i = 0; i < g; i++) { double s = 0, r = 0; for (size_t j = 0; j < n; j++) { s += u[j] * E0.N[i][j]; r += u[j] * q.N[i][j]; } sym_assert_near_d(s, r, 1e-7, "shape functions in a quadrature point"); }
}
#define R(x, n, e) case (int)EC::x: sm ? run<EC::x, n, StructuralMechanicsGPC::x, e>(deg) : run<EC::x, n, HeatTransferGPC::x, e>(deg); break
extern "C" void harness() { int code = sym_param(0, 3), deg = sym_param(1, 3), sm = sym_param(2, 0); switch (code) { R(LINE2, 2, 1); R(LINE3, 3, 1); R(TRIANGLE3, 3, 2); R(TRIANGLE6, 6, 2); R(SQUARE4, 4, 2); R(SQUARE8, 8, 2); R(TETRA4, 4, 3); R(TETRA10, 10, 3); R(PYRAMID5, 5, 3); R(PYRAMID13, 13, 3); R(PRISMA6, 6, 3); R(PRISMA15, 15, 3); R(HEXA8, 8, 3); R(HEXA20, 20, 3); } sym_reach("end"); }
