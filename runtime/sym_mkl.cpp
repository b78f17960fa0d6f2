// Reference semantics of the BLAS / MKL entry points used by espreso, interpreted
// in the symbolic run (native replays link the real MKL).
#include <complex>
#include <new>
#define noexcept
#include "mkl_blas.h"
#include "mkl_cblas.h"
#include "mkl_trans.h"
#include "mkl_spblas.h"
#undef noexcept
#include "sym.h"
#include <complex>
typedef std::complex<double> Z;
static inline double cj(double x) { return x; }
static inline Z cj(Z x) { return Z(x.real(), -x.imag()); }
static inline double mul(double a, double b) { return a * b; }
static inline Z mul(Z a, Z b) { return Z(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static inline double dv(double a, double b) { return a / b; }
static inline Z dv(Z a, Z b) { double n = b.real() * b.real() + b.imag() * b.imag(); Z t = mul(a, cj(b)); return Z(t.real() / n, t.imag() / n); }
static inline bool isz(double a) { return a == 0; }
static inline bool isz(Z a) { return (a.real() == 0) & (a.imag() == 0); }
static void need(bool c, const char *m) { if (!c) sym_fail(m); }
template <class T> static T &at(T *A, bool row, long ld, long i, long j) { return row ? A[i * ld + j] : A[j * ld + i]; }
template <class T> static const T &at(const T *A, bool row, long ld, long i, long j) { return row ? A[i * ld + j] : A[j * ld + i]; }
template <class T> static T op(const T *A, bool row, long ld, CBLAS_TRANSPOSE t, long i, long j) { if (t == CblasNoTrans) return at(A, row, ld, i, j); T v = at(A, row, ld, j, i); return t == CblasConjTrans ? cj(v) : v; }
// invalid arguments: MKL prints an error and returns without computing anything
static bool badld(bool row, long r, long c, long ld) { long m = row ? c : r; return (ld < (m > 1 ? m : 1)) | (r < 0) | (c < 0); }
// scaling by beta never reads the output when beta is zero
template <class T> static T sc(T beta, const T &v) { return isz(beta) ? T(0) : mul(beta, v); }
template <class T> static void gemm(bool row, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, long m, long n, long k, T al, const T *A, long lda, const T *B, long ldb, T be, T *C, long ldc) {
  if (ta == CblasNoTrans ? badld(row, m, k, lda) : badld(row, k, m, lda)) return;
  if (tb == CblasNoTrans ? badld(row, k, n, ldb) : badld(row, n, k, ldb)) return;
  if (badld(row, m, n, ldc)) return;
  for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { T s = T(0); if (!isz(al)) { for (long l = 0; l < k; l++) s += mul(op(A, row, lda, ta, i, l), op(B, row, ldb, tb, l, j)); s = mul(al, s); } T &c = at(C, row, ldc, i, j); c = isz(be) ? s : s + mul(be, c); } }
template <class T> static void gemv(bool row, CBLAS_TRANSPOSE ta, long m, long n, T al, const T *A, long lda, const T *x, long ix, T be, T *y, long iy) {
  if (badld(row, m, n, lda)) return; need((ix > 0) & (iy > 0), "BLAS: increment"); if (m == 0 || n == 0) return; long r = ta == CblasNoTrans ? m : n, c = ta == CblasNoTrans ? n : m;
  for (long i = 0; i < r; i++) { T s = T(0); for (long j = 0; j < c; j++) s += mul(op(A, row, lda, ta, i, j), x[j * ix]); s = mul(al, s); y[i * iy] = isz(be) ? s : s + mul(be, y[i * iy]); } }
template <class T> static void rk(bool row, CBLAS_UPLO u, CBLAS_TRANSPOSE t, long n, long k, T al, const T *A, long lda, T be, T *C, long ldc, bool herm) {
  if (t == CblasNoTrans ? badld(row, n, k, lda) : badld(row, k, n, lda)) return; if (badld(row, n, n, ldc)) return;
  for (long i = 0; i < n; i++) for (long j = u == CblasUpper ? i : 0; j < (u == CblasUpper ? n : i + 1); j++) {
    T s = T(0); if (!isz(al)) { for (long l = 0; l < k; l++) { T a = t == CblasNoTrans ? at(A, row, lda, i, l) : at(A, row, lda, l, i), b = t == CblasNoTrans ? at(A, row, lda, j, l) : at(A, row, lda, l, j); if (herm) { if (t == CblasNoTrans) b = cj(b); else a = cj(a); } s += mul(a, b); } s = mul(al, s); }
    T &c = at(C, row, ldc, i, j); c = isz(be) ? s : s + mul(be, c); } }
template <class T> static void trsm(bool row, CBLAS_SIDE side, CBLAS_UPLO u, CBLAS_TRANSPOSE t, CBLAS_DIAG d, long m, long n, T al, const T *A, long lda, T *B, long ldb) {
  need(side == CblasLeft, "model: trsm right side"); if (badld(row, m, m, lda)) return; if (badld(row, m, n, ldb)) return;
  bool lower = (u == CblasLower) == (t == CblasNoTrans);
  for (long c = 0; c < n; c++) for (long q = 0; q < m; q++) { long i = lower ? q : m - 1 - q; T s = mul(al, at(B, row, ldb, i, c)); for (long k = lower ? 0 : i + 1; k < (lower ? i : m); k++) s -= mul(op(A, row, lda, t, i, k), at(B, row, ldb, k, c)); at(B, row, ldb, i, c) = d == CblasUnit ? s : dv(s, op(A, row, lda, t, i, i)); } }
template <class T> static T symel(const T *A, bool row, long lda, CBLAS_UPLO u, long i, long j) { bool in = u == CblasUpper ? i <= j : i >= j; if (i == j) return at(A, row, lda, i, i); return in ? at(A, row, lda, i, j) : cj(at(A, row, lda, j, i)); }
static double realdiag(double x) { return x; }
static Z realdiag(Z x) { return Z(x.real(), 0); }
template <class T> static void symm(bool row, CBLAS_SIDE s, CBLAS_UPLO u, long m, long n, T al, const T *A, long lda, const T *B, long ldb, T be, T *C, long ldc) {
  need(s == CblasLeft, "model: symm right side"); if (badld(row, m, m, lda)) return; if (badld(row, m, n, ldb)) return; if (badld(row, m, n, ldc)) return;
  for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { T v = T(0); for (long l = 0; l < m; l++) { T a = symel(A, row, lda, u, i, l); if (i == l) a = realdiag(a); v += mul(a, at(B, row, ldb, l, j)); } v = mul(al, v); T &c = at(C, row, ldc, i, j); c = isz(be) ? v : v + mul(be, c); } }
template <class T> static void symv(bool row, CBLAS_UPLO u, long n, T al, const T *A, long lda, const T *x, long ix, T be, T *y, long iy) {
  if (badld(row, n, n, lda)) return;
  for (long i = 0; i < n; i++) { T v = T(0); for (long l = 0; l < n; l++) { T a = symel(A, row, lda, u, i, l); if (i == l) a = realdiag(a); v += mul(a, x[l * ix]); } v = mul(al, v); y[i * iy] = isz(be) ? v : v + mul(be, y[i * iy]); } }
#define ROW (l == CblasRowMajor)
extern "C" {
void cblas_dcopy(const MKL_INT n, const double *x, const MKL_INT ix, double *y, const MKL_INT iy) { for (long i = 0; i < n; i++) y[i * iy] = x[i * ix]; }
void cblas_zcopy(const MKL_INT n, const void *x, const MKL_INT ix, void *y, const MKL_INT iy) { for (long i = 0; i < n; i++) ((Z*)y)[i * iy] = ((const Z*)x)[i * ix]; }
void cblas_dscal(const MKL_INT n, const double a, double *x, const MKL_INT ix) { for (long i = 0; i < n; i++) x[i * ix] = a * x[i * ix]; }
void cblas_zscal(const MKL_INT n, const void *a, void *x, const MKL_INT ix) { for (long i = 0; i < n; i++) ((Z*)x)[i * ix] = mul(*(const Z*)a, ((Z*)x)[i * ix]); }
void cblas_daxpy(const MKL_INT n, const double a, const double *x, const MKL_INT ix, double *y, const MKL_INT iy) { for (long i = 0; i < n; i++) y[i * iy] += a * x[i * ix]; }
void cblas_zaxpy(const MKL_INT n, const void *a, const void *x, const MKL_INT ix, void *y, const MKL_INT iy) { for (long i = 0; i < n; i++) ((Z*)y)[i * iy] += mul(*(const Z*)a, ((const Z*)x)[i * ix]); }
double cblas_ddot(const MKL_INT n, const double *x, const MKL_INT ix, const double *y, const MKL_INT iy) { double s = 0; for (long i = 0; i < n; i++) s += x[i * ix] * y[i * iy]; return s; }
double cblas_dnrm2(const MKL_INT n, const double *x, const MKL_INT ix) { double s = 0; for (long i = 0; i < n; i++) s += x[i * ix] * x[i * ix]; return __builtin_sqrt(s); }
void cblas_dgemm(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE ta, const CBLAS_TRANSPOSE tb, const MKL_INT m, const MKL_INT n, const MKL_INT k, const double al, const double *A, const MKL_INT lda, const double *B, const MKL_INT ldb, const double be, double *C, const MKL_INT ldc) { gemm<double>(ROW, ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc); }
void cblas_zgemm(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE ta, const CBLAS_TRANSPOSE tb, const MKL_INT m, const MKL_INT n, const MKL_INT k, const void *al, const void *A, const MKL_INT lda, const void *B, const MKL_INT ldb, const void *be, void *C, const MKL_INT ldc) { gemm<Z>(ROW, ta, tb, m, n, k, *(const Z*)al, (const Z*)A, lda, (const Z*)B, ldb, *(const Z*)be, (Z*)C, ldc); }
void cblas_dgemv(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE ta, const MKL_INT m, const MKL_INT n, const double al, const double *A, const MKL_INT lda, const double *x, const MKL_INT ix, const double be, double *y, const MKL_INT iy) { gemv<double>(ROW, ta, m, n, al, A, lda, x, ix, be, y, iy); }
void cblas_zgemv(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE ta, const MKL_INT m, const MKL_INT n, const void *al, const void *A, const MKL_INT lda, const void *x, const MKL_INT ix, const void *be, void *y, const MKL_INT iy) { gemv<Z>(ROW, ta, m, n, *(const Z*)al, (const Z*)A, lda, (const Z*)x, ix, *(const Z*)be, (Z*)y, iy); }
void cblas_dsyrk(const CBLAS_LAYOUT l, const CBLAS_UPLO u, const CBLAS_TRANSPOSE t, const MKL_INT n, const MKL_INT k, const double al, const double *A, const MKL_INT lda, const double be, double *C, const MKL_INT ldc) { rk<double>(ROW, u, t, n, k, al, A, lda, be, C, ldc, false); }
void cblas_zsyrk(const CBLAS_LAYOUT l, const CBLAS_UPLO u, const CBLAS_TRANSPOSE t, const MKL_INT n, const MKL_INT k, const void *al, const void *A, const MKL_INT lda, const void *be, void *C, const MKL_INT ldc) { rk<Z>(ROW, u, t, n, k, *(const Z*)al, (const Z*)A, lda, *(const Z*)be, (Z*)C, ldc, false); }
void cblas_zherk(const CBLAS_LAYOUT l, const CBLAS_UPLO u, const CBLAS_TRANSPOSE t, const MKL_INT n, const MKL_INT k, const double al, const void *A, const MKL_INT lda, const double be, void *C, const MKL_INT ldc) { rk<Z>(ROW, u, t, n, k, Z(al, 0), (const Z*)A, lda, Z(be, 0), (Z*)C, ldc, true); }
void cblas_dtrsm(const CBLAS_LAYOUT l, const CBLAS_SIDE s, const CBLAS_UPLO u, const CBLAS_TRANSPOSE t, const CBLAS_DIAG d, const MKL_INT m, const MKL_INT n, const double al, const double *A, const MKL_INT lda, double *B, const MKL_INT ldb) { trsm<double>(ROW, s, u, t, d, m, n, al, A, lda, B, ldb); }
void cblas_ztrsm(const CBLAS_LAYOUT l, const CBLAS_SIDE s, const CBLAS_UPLO u, const CBLAS_TRANSPOSE t, const CBLAS_DIAG d, const MKL_INT m, const MKL_INT n, const void *al, const void *A, const MKL_INT lda, void *B, const MKL_INT ldb) { trsm<Z>(ROW, s, u, t, d, m, n, *(const Z*)al, (const Z*)A, lda, (Z*)B, ldb); }
void cblas_dsymm(const CBLAS_LAYOUT l, const CBLAS_SIDE s, const CBLAS_UPLO u, const MKL_INT m, const MKL_INT n, const double al, const double *A, const MKL_INT lda, const double *B, const MKL_INT ldb, const double be, double *C, const MKL_INT ldc) { symm<double>(ROW, s, u, m, n, al, A, lda, B, ldb, be, C, ldc); }
void cblas_zhemm(const CBLAS_LAYOUT l, const CBLAS_SIDE s, const CBLAS_UPLO u, const MKL_INT m, const MKL_INT n, const void *al, const void *A, const MKL_INT lda, const void *B, const MKL_INT ldb, const void *be, void *C, const MKL_INT ldc) { symm<Z>(ROW, s, u, m, n, *(const Z*)al, (const Z*)A, lda, (const Z*)B, ldb, *(const Z*)be, (Z*)C, ldc); }
void cblas_dsymv(const CBLAS_LAYOUT l, const CBLAS_UPLO u, const MKL_INT n, const double al, const double *A, const MKL_INT lda, const double *x, const MKL_INT ix, const double be, double *y, const MKL_INT iy) { symv<double>(ROW, u, n, al, A, lda, x, ix, be, y, iy); }
void cblas_zhemv(const CBLAS_LAYOUT l, const CBLAS_UPLO u, const MKL_INT n, const void *al, const void *A, const MKL_INT lda, const void *x, const MKL_INT ix, const void *be, void *y, const MKL_INT iy) { symv<Z>(ROW, u, n, *(const Z*)al, (const Z*)A, lda, (const Z*)x, ix, *(const Z*)be, (Z*)y, iy); }
void cblas_dspmv(const CBLAS_LAYOUT l, const CBLAS_UPLO u, const MKL_INT n, const double al, const double *Ap, const double *x, const MKL_INT ix, const double be, double *y, const MKL_INT iy) {
  bool up = (u == CblasUpper) == ROW; // packed by rows: upper = rows i..n
  for (long i = 0; i < n; i++) { double v = 0; for (long j = 0; j < n; j++) { long a = i < j ? i : j, b = i < j ? j : i; v += (up ? Ap[a * n - a * (a - 1) / 2 + b - a] : Ap[b * (b + 1) / 2 + a]) * x[j * ix]; } v = al * v; y[i * iy] = be == 0 ? v : v + be * y[i * iy]; } }
void MKL_Domatcopy(char ord, char tr, size_t r, size_t c, const double al, const double *A, size_t lda, double *B, size_t ldb) { bool row = ord == 'R', t = tr == 'T' || tr == 'C'; if (badld(row, r, c, lda)) return; if (t) if (badld(row, c, r, ldb)) return; else if (badld(row, r, c, ldb)) return; for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { double v = al * at(A, row, lda, i, j); if (t) at(B, row, ldb, j, i) = v; else at(B, row, ldb, i, j) = v; } }
void MKL_Zomatcopy(char ord, char tr, size_t r, size_t c, const MKL_Complex16 al, const MKL_Complex16 *A_, size_t lda, MKL_Complex16 *B_, size_t ldb) { const Z *A = (const Z*)A_; Z *B = (Z*)B_; bool row = ord == 'R', t = tr == 'T' || tr == 'C'; if (badld(row, r, c, lda)) return; if (t) if (badld(row, c, r, ldb)) return; else if (badld(row, r, c, ldb)) return; for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { Z v = mul(*(const Z*)&al, at(A, row, lda, i, j)); if (tr == 'C' || tr == 'R') v = cj(v); if (t) at(B, row, ldb, j, i) = v; else at(B, row, ldb, i, j) = v; } }
void MKL_Dimatcopy(char ord, char tr, size_t r, size_t c, const double al, double *A, size_t lda, size_t ldb) { bool row = ord == 'R'; need((r == c) & (lda == ldb) & (tr == 'T' || tr == 'C'), "model: imatcopy"); if (badld(row, r, c, lda)) return; for (size_t i = 0; i < r; i++) for (size_t j = i; j < c; j++) { double a = at(A, row, lda, i, j), b = at(A, row, lda, j, i); at(A, row, lda, j, i) = al * a; at(A, row, lda, i, j) = al * b; } }
void MKL_Zimatcopy(char ord, char tr, size_t r, size_t c, const MKL_Complex16 al, MKL_Complex16 *A_, size_t lda, size_t ldb) { Z *A = (Z*)A_; bool row = ord == 'R'; need((r == c) & (lda == ldb) & (tr == 'T' || tr == 'C'), "model: imatcopy"); if (badld(row, r, c, lda)) return; for (size_t i = 0; i < r; i++) for (size_t j = i; j < c; j++) { Z a = mul(*(const Z*)&al, at(A, row, lda, i, j)), b = mul(*(const Z*)&al, at(A, row, lda, j, i)); if (tr == 'C') { a = cj(a); b = cj(b); } at(A, row, lda, j, i) = a; at(A, row, lda, i, j) = b; } }
// inspector-executor sparse BLAS: the handle keeps the arrays, values are read at execution
struct sparse_matrix { long r, c; int base; bool csc; MKL_INT *b, *e, *i; void *v; };
static sparse_status_t mk(sparse_matrix_t *A, sparse_index_base_t ib, long r, long c, MKL_INT *b, MKL_INT *e, MKL_INT *i, void *v, bool csc) { *A = new sparse_matrix{r, c, ib == SPARSE_INDEX_BASE_ONE, csc, b, e, i, v}; return (r < 0) | (c < 0) ? SPARSE_STATUS_INVALID_VALUE : (((r == 0) | (c == 0)) ? SPARSE_STATUS_INVALID_VALUE : SPARSE_STATUS_SUCCESS); }
sparse_status_t mkl_sparse_d_create_csr(sparse_matrix_t *A, const sparse_index_base_t ib, const MKL_INT r, const MKL_INT c, MKL_INT *b, MKL_INT *e, MKL_INT *i, double *v) { return mk(A, ib, r, c, b, e, i, v, false); }
sparse_status_t mkl_sparse_d_create_csc(sparse_matrix_t *A, const sparse_index_base_t ib, const MKL_INT r, const MKL_INT c, MKL_INT *b, MKL_INT *e, MKL_INT *i, double *v) { return mk(A, ib, r, c, b, e, i, v, true); }
sparse_status_t mkl_sparse_z_create_csr(sparse_matrix_t *A, const sparse_index_base_t ib, const MKL_INT r, const MKL_INT c, MKL_INT *b, MKL_INT *e, MKL_INT *i, MKL_Complex16 *v) { return mk(A, ib, r, c, b, e, i, v, false); }
sparse_status_t mkl_sparse_z_create_csc(sparse_matrix_t *A, const sparse_index_base_t ib, const MKL_INT r, const MKL_INT c, MKL_INT *b, MKL_INT *e, MKL_INT *i, MKL_Complex16 *v) { return mk(A, ib, r, c, b, e, i, v, true); }
sparse_status_t mkl_sparse_destroy(sparse_matrix_t A) { delete A; return SPARSE_STATUS_SUCCESS; }
sparse_status_t mkl_sparse_optimize(sparse_matrix_t) { return SPARSE_STATUS_SUCCESS; }
sparse_status_t mkl_sparse_set_mv_hint(const sparse_matrix_t, const sparse_operation_t, const struct matrix_descr, const MKL_INT) { return SPARSE_STATUS_SUCCESS; }
sparse_status_t mkl_sparse_set_mm_hint(const sparse_matrix_t, const sparse_operation_t, const struct matrix_descr, const sparse_layout_t, const MKL_INT, const MKL_INT) { return SPARSE_STATUS_SUCCESS; }
sparse_status_t mkl_sparse_set_sm_hint(const sparse_matrix_t, const sparse_operation_t, const struct matrix_descr, const sparse_layout_t, const MKL_INT, const MKL_INT) { return SPARSE_STATUS_SUCCESS; }
}
template <class T> static void spdense(const sparse_matrix_t A, const matrix_descr &d, T *D) { // dense image of the matrix as described
  for (long i = 0; i < A->r * A->c; i++) D[i] = T(0);
  long np = A->csc ? A->c : A->r;
  for (long p = 0; p < np; p++) for (long k = A->b[p] - A->base; k < A->e[p] - A->base; k++) {
    long s = A->i[k] - A->base; need((s >= 0) & (s < (A->csc ? A->r : A->c)), "sparse BLAS: column index out of range"); long i = A->csc ? s : p, j = A->csc ? p : s; T v = ((T*)A->v)[k];
    if (d.type == SPARSE_MATRIX_TYPE_GENERAL) D[i * A->c + j] += v;
    else { bool in = d.mode == SPARSE_FILL_MODE_UPPER ? i <= j : i >= j; if (!in) continue; if (i == j && d.diag == SPARSE_DIAG_UNIT) continue; D[i * A->c + j] += v; if (d.type != SPARSE_MATRIX_TYPE_TRIANGULAR && i != j) D[j * A->c + i] += d.type == SPARSE_MATRIX_TYPE_HERMITIAN ? cj(v) : v; } }
  if (d.type != SPARSE_MATRIX_TYPE_GENERAL && d.diag == SPARSE_DIAG_UNIT) for (long i = 0; i < A->r; i++) D[i * A->c + i] = T(1); }
template <class T> static T spop(const sparse_matrix_t A, T *D, sparse_operation_t o, long i, long j) { if (o == SPARSE_OPERATION_NON_TRANSPOSE) return D[i * A->c + j]; T v = D[j * A->c + i]; return o == SPARSE_OPERATION_TRANSPOSE ? v : cj(v); }
template <class T> static sparse_status_t spmm(sparse_operation_t o, T al, const sparse_matrix_t A, matrix_descr d, sparse_layout_t lay, const T *x, long cols, long ldx, T be, T *y, long ldy) {
  T *D = new T[A->r * A->c]; spdense(A, d, D); bool row = lay == SPARSE_LAYOUT_ROW_MAJOR; long r = o == SPARSE_OPERATION_NON_TRANSPOSE ? A->r : A->c, c = o == SPARSE_OPERATION_NON_TRANSPOSE ? A->c : A->r; if (badld(row, c, cols, ldx)) return SPARSE_STATUS_INVALID_VALUE; if (badld(row, r, cols, ldy)) return SPARSE_STATUS_INVALID_VALUE;
  for (long i = 0; i < r; i++) for (long j = 0; j < cols; j++) { T s = T(0); for (long k = 0; k < c; k++) s += mul(spop(A, D, o, i, k), at(x, row, ldx, k, j)); s = mul(al, s); T &q = at(y, row, ldy, i, j); q = isz(be) ? s : s + mul(be, q); }
  delete[] D; return SPARSE_STATUS_SUCCESS; }
template <class T> static sparse_status_t sptrsm(sparse_operation_t o, T al, const sparse_matrix_t A, matrix_descr d, sparse_layout_t lay, const T *x, long cols, long ldx, T *y, long ldy) {
  need(A->r == A->c, "sparse trsm: square"); need(d.type == SPARSE_MATRIX_TYPE_TRIANGULAR, "sparse trsm: matrix type"); T *D = new T[A->r * A->c]; spdense(A, d, D); bool row = lay == SPARSE_LAYOUT_ROW_MAJOR; long n = A->r; if (badld(row, n, cols, ldx)) return SPARSE_STATUS_INVALID_VALUE; if (badld(row, n, cols, ldy)) return SPARSE_STATUS_INVALID_VALUE;
  bool lower = (d.mode == SPARSE_FILL_MODE_LOWER) == (o == SPARSE_OPERATION_NON_TRANSPOSE);
  for (long j = 0; j < cols; j++) for (long q = 0; q < n; q++) { long i = lower ? q : n - 1 - q; T s = mul(al, at(x, row, ldx, i, j)); for (long k = lower ? 0 : i + 1; k < (lower ? i : n); k++) s -= mul(spop(A, D, o, i, k), at(y, row, ldy, k, j)); at(y, row, ldy, i, j) = d.diag == SPARSE_DIAG_UNIT ? s : dv(s, spop(A, D, o, i, i)); }
  delete[] D; return SPARSE_STATUS_SUCCESS; }
extern "C" {
sparse_status_t mkl_sparse_d_mv(const sparse_operation_t o, const double al, const sparse_matrix_t A, const struct matrix_descr d, const double *x, const double be, double *y) { return spmm<double>(o, al, A, d, SPARSE_LAYOUT_ROW_MAJOR, x, 1, 1, be, y, 1); }
sparse_status_t mkl_sparse_z_mv(const sparse_operation_t o, const MKL_Complex16 al, const sparse_matrix_t A, const struct matrix_descr d, const MKL_Complex16 *x, const MKL_Complex16 be, MKL_Complex16 *y) { return spmm<Z>(o, *(const Z*)&al, A, d, SPARSE_LAYOUT_ROW_MAJOR, (const Z*)x, 1, 1, *(const Z*)&be, (Z*)y, 1); }
sparse_status_t mkl_sparse_d_mm(const sparse_operation_t o, const double al, const sparse_matrix_t A, const struct matrix_descr d, const sparse_layout_t lay, const double *x, const MKL_INT cols, const MKL_INT ldx, const double be, double *y, const MKL_INT ldy) { return spmm<double>(o, al, A, d, lay, x, cols, ldx, be, y, ldy); }
sparse_status_t mkl_sparse_z_mm(const sparse_operation_t o, const MKL_Complex16 al, const sparse_matrix_t A, const struct matrix_descr d, const sparse_layout_t lay, const MKL_Complex16 *x, const MKL_INT cols, const MKL_INT ldx, const MKL_Complex16 be, MKL_Complex16 *y, const MKL_INT ldy) { return spmm<Z>(o, *(const Z*)&al, A, d, lay, (const Z*)x, cols, ldx, *(const Z*)&be, (Z*)y, ldy); }
sparse_status_t mkl_sparse_d_trsm(const sparse_operation_t o, const double al, const sparse_matrix_t A, const struct matrix_descr d, const sparse_layout_t lay, const double *x, const MKL_INT cols, const MKL_INT ldx, double *y, const MKL_INT ldy) { return sptrsm<double>(o, al, A, d, lay, x, cols, ldx, y, ldy); }
sparse_status_t mkl_sparse_z_trsm(const sparse_operation_t o, const MKL_Complex16 al, const sparse_matrix_t A, const struct matrix_descr d, const sparse_layout_t lay, const MKL_Complex16 *x, const MKL_INT cols, const MKL_INT ldx, MKL_Complex16 *y, const MKL_INT ldy) { return sptrsm<Z>(o, *(const Z*)&al, A, d, lay, (const Z*)x, cols, ldx, (Z*)y, ldy); }
}
