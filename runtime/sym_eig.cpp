// LAPACKE_dsyev on small matrices.  Constant matrices are diagonalised (Jacobi
// rotations); for symbolic ones only the
// sum of the eigenvalues (the trace) is meaningful.
#include "sym.h"
#include <cmath>
#include <cstring>
extern "C" int LAPACKE_dsyev(int layout, char, char uplo, int n, double *A, int lda, double *w) {
  if (layout != 101 || uplo != 'U' || n > 3) sym_fail("unmodelled LAPACKE_dsyev");
  bool s = false; double tr = 0, M[3][3];
  for (int i = 0; i < n; i++) { tr += A[i * lda + i]; for (int j = 0; j < n; j++) { M[i][j] = i <= j ? A[i * lda + j] : A[j * lda + i]; long b; std::memcpy(&b, &M[i][j], 8); s |= sym_is_symbolic(b); } }
  if (s) { for (int i = 0; i < n; i++) w[i] = tr / n; return 0; }
  for (int it = 0; it < 40; it++) for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { if (std::fabs(M[p][q]) < 1e-14) continue; double t = .5 * std::atan2(2 * M[p][q], M[q][q] - M[p][p]), c = std::cos(t), s = std::sin(t); for (int k = 0; k < n; k++) { double x = M[k][p], y = M[k][q]; M[k][p] = c * x - s * y; M[k][q] = s * x + c * y; } for (int k = 0; k < n; k++) { double x = M[p][k], y = M[q][k]; M[p][k] = c * x - s * y; M[q][k] = s * x + c * y; } }
  for (int i = 0; i < n; i++) w[i] = M[i][i];
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (w[j] < w[i]) { double t = w[i]; w[i] = w[j]; w[j] = t; }
  return 0;
}
