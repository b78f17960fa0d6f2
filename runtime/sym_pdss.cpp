// model of the MKL parallel direct solver (cluster_sparse_solver): the matrix is gathered and factorised exactly
#include <mpi.h>
#include "sym.h"
#include <vector>
#include <cmath>
struct HP { std::vector<double> A; };
extern "C" void cluster_sparse_solver(void *pt, const int *maxfct, const int *mnum, const int *mtype, const int *phase, const int *n, const void *a, const int *ia, const int *ja, int *perm, const int *nrhs, int *iparm, const int *msglvl, void *b, void *x, const int *comm, int *error) {
  *error = 0; HP *&h = *(HP **)pt; int N = *n, base = 1 - iparm[34], beg = iparm[40] - base, end = iparm[41] - base; if (iparm[39] != 2) sym_fail("model: PDSS input format"); if (N <= 0 || beg < 0 || end >= N || *nrhs != 1) { *error = -1; return; }
  bool sym = *mtype == 2 || *mtype == -2; if (!sym && *mtype != 1 && *mtype != 11) sym_fail("model: PDSS matrix type"); int lr = end - beg + 1;
  if (*phase == 11) { h = new HP(); std::vector<int> own(N, 0), all(N, 0); for (int i = beg; i <= end; i++) own[i] = 1; MPI_Allreduce(own.data(), all.data(), N, MPI_INT, MPI_SUM, MPI_COMM_WORLD); for (int i = 0; i < N; i++) if (all[i] != 1) { *error = -1; return; }
    if (ia[0] != base) { *error = -1; return; } for (int r = 0; r < lr; r++) { bool d = false; for (int c = ia[r] - base; c < ia[r + 1] - base; c++) { int j = ja[c] - base; if (j < 0 || j >= N || (c > ia[r] - base && ja[c - 1] >= ja[c]) || (sym && j < beg + r)) { *error = -1; return; } d |= j == beg + r; } if (!d) { *error = -1; return; } } return; }
  if (*phase == -1) return; if (!h) { *error = -1; return; }
  if (*phase == 22) { std::vector<double> L(N * N, 0.0); h->A.assign(N * N, 0.0); for (int r = 0; r < lr; r++) for (int c = ia[r] - base; c < ia[r + 1] - base; c++) { int i = beg + r, j = ja[c] - base; L[i * N + j] = ((const double *)a)[c]; if (sym) L[j * N + i] = ((const double *)a)[c]; } MPI_Allreduce(L.data(), h->A.data(), N * N, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); return; }
  if (*phase == 33) { if (h->A.empty()) sym_fail("PDSS: solve without factors"); std::vector<double> l(N, 0.0), y(N, 0.0), A = h->A; for (int r = 0; r < lr; r++) l[beg + r] = ((double *)b)[r]; MPI_Allreduce(l.data(), y.data(), N, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    for (int k = 0; k < N; k++) { int p = k; for (int i = k + 1; i < N; i++) if (std::fabs(A[i * N + k]) > std::fabs(A[p * N + k])) p = i; if (!(std::fabs(A[p * N + k]) > 1e-9)) { *error = -4; return; } for (int j = 0; j < N; j++) std::swap(A[k * N + j], A[p * N + j]); std::swap(y[k], y[p]); for (int i = k + 1; i < N; i++) { double f = A[i * N + k] / A[k * N + k]; if (f != 0) { for (int j = k; j < N; j++) A[i * N + j] -= f * A[k * N + j]; y[i] -= f * y[k]; } } }
    for (int k = N - 1; k >= 0; k--) { for (int j = k + 1; j < N; j++) y[k] -= A[k * N + j] * y[j]; y[k] /= A[k * N + k]; } for (int r = 0; r < lr; r++) ((double *)x)[r] = y[beg + r]; return; }
  sym_fail("model: PDSS phase"); }
