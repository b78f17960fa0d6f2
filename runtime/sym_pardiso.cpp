// Reference model of MKL PARDISO (dense factorisation without pivoting; matrices are concrete in the harnesses).
// Native replays link the real library.
#include <complex>
#include <vector>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include "sym.h"
namespace { struct H { long n; bool sym; std::vector<double> L, D, U; std::vector<long> p; long ni; };  // A = L D U, unit L and U (U = L^T for symmetric)
double *A_(long n) { return (double *)calloc(n * n + 1, 8); }
void dense(const int *mt, const int *n, const void *a, const int *ia, const int *ja, const int *iparm, std::vector<double> &A) {
  int base = iparm[34] ? 0 : 1; long N = *n; bool sym = *mt == 2 || *mt == -2; A.assign(N * N, 0.0);
  for (long i = 0; i < N; i++) for (int k = ia[i] - base; k < ia[i + 1] - base; k++) { long j = ja[k] - base; if (j < 0 || j >= N) sym_fail("PARDISO: column index out of range"); if (sym && j < i) sym_fail("PARDISO: lower entry of a symmetric matrix"); if (k > ia[i] - base && ja[k] <= ja[k - 1]) sym_fail("PARDISO: unsorted columns"); A[i * N + j] += ((const double *)a)[k]; if (sym && j != i) A[j * N + i] += ((const double *)a)[k]; } }
}
extern "C" {
void pardisoinit(void *pt, const int *mtype, int *iparm) { memset(pt, 0, 64 * sizeof(void *)); for (int i = 0; i < 64; i++) iparm[i] = 0; }
int mkl_set_num_threads_local(int) { return 1; }
void mkl_set_num_threads(int) {}
void MKL_Set_Num_Threads(int) {}
void pardiso(void *pt, const int *maxfct, const int *mnum, const int *mtype, const int *phase, const int *n, const void *a, const int *ia, const int *ja, int *perm, const int *nrhs, int *iparm, const int *msglvl, void *b, void *x, int *error) {
  *error = 0; H *&h = *(H **)pt; long N = *n; int ph = *phase;
  if (ph == -1) { delete h; h = nullptr; return; }
  if (*mtype != 2 && *mtype != -2 && *mtype != 11) sym_fail("model: PARDISO matrix type");
  if (N <= 0) { *error = -1; return; }
  if (ph == 12 && iparm[35] == 1) { // Schur complement of the rows with perm == 1
    std::vector<double> A; dense(mtype, n, a, ia, ja, iparm, A); std::vector<long> I, S; for (long i = 0; i < N; i++) (perm[i] == 1 ? S : I).push_back(i);
    long ni = I.size(), ns = S.size(), m = ni + ns; std::vector<long> p(I); p.insert(p.end(), S.begin(), S.end()); std::vector<double> M(m * m); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) M[i * m + j] = A[p[i] * m + p[j]];
    for (long k = 0; k < ni; k++) { double pv = M[k * m + k]; if (!(std::fabs(pv) > 1e-9)) sym_reject("PARDISO: singular"); for (long i = k + 1; i < m; i++) { double f = M[i * m + k] / pv; for (long j = k; j < m; j++) M[i * m + j] -= f * M[k * m + j]; } }
    double *o = (double *)x; for (long i = 0; i < ns; i++) for (long j = 0; j < ns; j++) o[i * ns + j] = M[(ni + i) * m + ni + j];
    return; }
  // p: eliminated rows first, then the rows of the Schur complement (perm == 1 when iparm[35] is set)
  if (ph == 11) { if (!h) h = new H(); h->n = N; h->p.clear(); h->ni = N; bool sc = iparm[35] != 0; if (iparm[35] != 0 && iparm[35] != 1) sym_fail("model: PARDISO Schur mode"); if (sc) { for (long i = 0; i < N; i++) if (perm[i] != 1) h->p.push_back(i); h->ni = h->p.size(); for (long i = 0; i < N; i++) if (perm[i] == 1) h->p.push_back(i); } else for (long i = 0; i < N; i++) h->p.push_back(i); if (perm && !sc) for (int i = 0; i < N; i++) perm[i] = i; iparm[17] = N * (N + 1) / 2; return; }
  if (ph == 22) { if (!h) { *error = -1; return; } if (h->n != N) sym_fail("PARDISO: size changed"); std::vector<double> A0; dense(mtype, n, a, ia, ja, iparm, A0); std::vector<double> A(N * N); for (long i = 0; i < N; i++) for (long j = 0; j < N; j++) A[i * N + j] = A0[h->p[i] * N + h->p[j]];
    h->L.assign(N * N, 0.0); h->U.assign(N * N, 0.0); h->D.assign(N, 1.0); h->sym = *mtype != 11; for (long k = h->ni; k < N; k++) h->L[k * N + k] = h->U[k * N + k] = 1;
    for (long k = 0; k < h->ni; k++) { double pv = A[k * N + k]; if (*mtype == 2 ? !(pv > 1e-9) : !(std::fabs(pv) > 1e-9)) sym_reject("PARDISO: not regular"); h->D[k] = pv; h->L[k * N + k] = h->U[k * N + k] = 1; for (long j = k + 1; j < N; j++) { h->U[k * N + j] = A[k * N + j] / pv; h->L[j * N + k] = A[j * N + k] / pv; } for (long i = k + 1; i < N; i++) for (long j = k + 1; j < N; j++) A[i * N + j] -= h->L[i * N + k] * pv * h->U[k * N + j]; }
    long ns = N - h->ni; if (ns) { if (!x) sym_fail("PARDISO: no output for the Schur complement"); for (long i = 0; i < ns; i++) for (long j = 0; j < ns; j++) ((double *)x)[i * ns + j] = A[(h->ni + i) * N + h->ni + j]; }
    if (*mtype == 2) for (long k = 0; k < h->ni; k++) { double s = std::sqrt(h->D[k]); for (long i = k; i < N; i++) { h->L[i * N + k] *= s; h->U[k * N + i] *= s; } h->D[k] = 1; }
    return; }
  if (ph == 33 || ph == 331 || ph == 332 || ph == 333) { if (!h || h->D.empty()) sym_fail("PARDISO: solve without factors"); if (*nrhs <= 0) { *error = -1; return; } if (ph == 33 && h->ni != N) sym_fail("model: PARDISO full solve with a Schur complement");
    for (long r = 0; r < *nrhs; r++) { const double *B = (const double *)b + r * N; double *X = (double *)x + r * N; std::vector<double> y(N); for (long i = 0; i < N; i++) y[i] = B[h->p[i]]; long ni = h->ni;
      if (ph != 332 && ph != 333) for (long i = 0; i < N; i++) { double s = y[i]; for (long j = 0; j < i && j < ni; j++) s -= h->L[i * N + j] * y[j]; y[i] = s / h->L[i * N + i]; }
      if (ph == 33 || ph == 332 || (ph == 331 && ni != N)) for (long i = 0; i < ni; i++) // forward step of partial factorisations includes the diagonal
        y[i] = y[i] / h->D[i];
      if (ph == 33 || ph == 333) for (long i = ni - 1; i >= 0; i--) { double s = y[i]; for (long j = i + 1; j < N; j++) s -= h->U[i * N + j] * y[j]; y[i] = s / h->U[i * N + i]; }
      for (long i = 0; i < N; i++) X[h->p[i]] = y[i]; }
    return; }
  sym_fail("model: PARDISO phase"); }
// LAPACK symmetric solver with a concrete matrix: the factor is kept as the inverse
int LAPACKE_dsytrf(int layout, char uplo, int n, double *a, int lda, int *ipiv) { std::vector<double> A(n * n + 1), I(n * n + 1, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int r = i, c = j; if ((uplo == 'U') == (i > j)) { r = j; c = i; } A[i * n + j] = layout == 101 ? a[r * lda + c] : a[c * lda + r]; I[i * n + j] = i == j; }
  for (int k = 0; k < n; k++) { int p = k; for (int i = k + 1; i < n; i++) if (std::fabs(A[i * n + k]) > std::fabs(A[p * n + k])) p = i; if (!(std::fabs(A[p * n + k]) > 1e-12)) return k + 1; for (int j = 0; j < n; j++) { std::swap(A[k * n + j], A[p * n + j]); std::swap(I[k * n + j], I[p * n + j]); } double v = A[k * n + k]; for (int j = 0; j < n; j++) { A[k * n + j] /= v; I[k * n + j] /= v; } for (int i = 0; i < n; i++) if (i != k) { double f = A[i * n + k]; if (f != 0) for (int j = 0; j < n; j++) { A[i * n + j] -= f * A[k * n + j]; I[i * n + j] -= f * I[k * n + j]; } } }
  for (int i = 0; i < n; i++) { ipiv[i] = i + 1; for (int j = 0; j < n; j++) if ((uplo == 'U') ? i <= j : i >= j) (layout == 101 ? a[i * lda + j] : a[j * lda + i]) = I[i * n + j]; } return 0; }
int LAPACKE_dsytrs(int layout, char uplo, int n, int nrhs, const double *a, int lda, const int *ipiv, double *b, int ldb) { for (int r = 0; r < nrhs; r++) { std::vector<double> y(n + 1, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int u = i, c = j; if ((uplo == 'U') == (i > j)) { u = j; c = i; } y[i] += (layout == 101 ? a[u * lda + c] : a[c * lda + u]) * (layout == 101 ? b[j * ldb + r] : b[r * ldb + j]); } for (int i = 0; i < n; i++) (layout == 101 ? b[i * ldb + r] : b[r * ldb + i]) = y[i]; } return 0; }
}
