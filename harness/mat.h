// symbolic matrices for the operation harnesses: the sparsity pattern is forked over,
// values are unconstrained reals, the oracle is a plain table of (present, value)
#pragma once
#include "sym.h"
#include "esinfo/eslog.hpp"
#include "math/primitives_new.h"
#include "math/primitives_new/allocator_new.h"
#include <complex>
#include <memory>
#include <vector>
#include <algorithm>
namespace espreso { namespace math { namespace operations {} } }
using namespace espreso; using namespace espreso::math; using namespace espreso::math::operations;
typedef std::complex<double> Z;
template <class T> static T sval(const std::string &n) { if constexpr (std::is_same_v<T, double>) return sym_double(n.c_str()); else { double re = sym_double((n + "r").c_str()), im = sym_double((n + "i").c_str()); return Z(re, im); } }
static inline void eq(double a, double b, const char *l) { sym_assert_eq_d(a, b, l); }
static inline void eq(Z a, Z b, const char *l) { sym_assert_eq_d(a.real(), b.real(), l); sym_assert_eq_d(a.imag(), b.imag(), l); }
static inline double cj(double x) { return x; }
static inline Z cj(Z x) { return Z(x.real(), -x.imag()); }
static inline double mul(double a, double b) { return a * b; }
static inline Z mul(Z a, Z b) { return Z(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static inline Allocator_new *cpu() { return AllocatorCPU_new::get_singleton(); }
template <class T> struct Tab { // the mathematical matrix
  size_t nr, nc; std::vector<T> v; std::vector<char> p;
  Tab(size_t r = 0, size_t c = 0) : nr(r), nc(c), v(r * c), p(r * c, 0) {}
  T &operator()(size_t i, size_t j) { return v[i * nc + j]; } const T &operator()(size_t i, size_t j) const { return v[i * nc + j]; }
  char &pr(size_t i, size_t j) { return p[i * nc + j]; } char pr(size_t i, size_t j) const { return p[i * nc + j]; }
  size_t nnz() const { size_t n = 0; for (char c : p) n += c; return n; }
};
static inline bool inside(char uplo, size_t i, size_t j) { return uplo == 'U' ? i <= j : uplo == 'L' ? i >= j : true; }
template <class T> static Tab<T> spattern(const char *n, size_t nr, size_t nc, char uplo = 'F', bool vals = true, bool dfull = false) {
  Tab<T> t(nr, nc); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) if (inside(uplo, i, j)) { t.pr(i, j) = (dfull && i == j) ? 1 : sym_choose((std::string(n) + "p" + std::to_string(i) + "_" + std::to_string(j)).c_str(), 0, 1); if (t.pr(i, j)) t(i, j) = sval<T>(std::string(n) + std::to_string(i) + "_" + std::to_string(j)); } return t; }
template <class T> static Tab<T> sdense(const char *n, size_t nr, size_t nc, char uplo = 'F') { Tab<T> t(nr, nc); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) if (inside(uplo, i, j)) { t.pr(i, j) = 1; t(i, j) = sval<T>(std::string(n) + std::to_string(i) + "_" + std::to_string(j)); } return t; }
template <class T> static void csx(MatrixCsxData_new<T, int> &m, const Tab<T> &t, char order, char uplo = 'F', char diag = 'N') {
  m.set(t.nr, t.nc, t.nnz(), order, cpu()); m.alloc(); m.prop.uplo = uplo; m.prop.diag = diag; size_t k = 0, np = order == 'R' ? t.nr : t.nc, ns = order == 'R' ? t.nc : t.nr;
  for (size_t a = 0; a < np; a++) { m.ptrs[a] = k; for (size_t b = 0; b < ns; b++) { size_t i = order == 'R' ? a : b, j = order == 'R' ? b : a; if (t.pr(i, j)) { m.idxs[k] = b; m.vals[k] = t(i, j); k++; } } } m.ptrs[np] = k; }
template <class T> static void dn(MatrixDenseData_new<T> &m, const Tab<T> &t, char order, char uplo = 'F', char diag = 'N') { m.set(t.nr, t.nc, order, cpu()); m.alloc(); m.prop.uplo = uplo; m.prop.diag = diag; for (size_t i = 0; i < t.nr; i++) for (size_t j = 0; j < t.nc; j++) if (t.pr(i, j)) m.vals[i * m.get_stride_row() + j * m.get_stride_col()] = t(i, j); }
template <class T> static T &el(MatrixDenseView_new<T> &m, size_t i, size_t j) { return m.vals[i * m.get_stride_row() + j * m.get_stride_col()]; }
// every stored structure is valid, sorted, and holds exactly the expected entries
template <class T> static void chk(MatrixCsxView_new<T, int> &m, const Tab<T> &t, const char *l) {
  sym_assert((m.nrows == t.nr) & (m.ncols == t.nc), l); size_t np = m.order == 'R' ? t.nr : t.nc; sym_assert(m.ptrs[0] == 0, l); sym_assert((size_t)m.ptrs[np] == m.nnz, l); sym_assert(m.nnz == t.nnz(), l);
  for (size_t a = 0; a < np; a++) { sym_assert(m.ptrs[a] <= m.ptrs[a + 1], l); int prev = -1; for (int k = m.ptrs[a]; k < m.ptrs[a + 1]; k++) { int b = m.idxs[k]; sym_assert((b > prev) & (b < (int)(m.order == 'R' ? t.nc : t.nr)), l); prev = b; size_t i = m.order == 'R' ? a : b, j = m.order == 'R' ? b : a; sym_assert(t.pr(i, j) == 1, l); eq(m.vals[k], t(i, j), l); } } }
template <class T> static void chk(MatrixDenseView_new<T> &m, const Tab<T> &t, const char *l, char uplo = 'F') { sym_assert((m.nrows == t.nr) & (m.ncols == t.nc), l); for (size_t i = 0; i < t.nr; i++) for (size_t j = 0; j < t.nc; j++) if (inside(uplo, i, j)) eq(el(m, i, j), t.pr(i, j) ? t(i, j) : T(0), l); }
static inline char oc(int o) { return o ? 'C' : 'R'; }
static inline char uc(int u) { return u == 0 ? 'F' : u == 1 ? 'L' : 'U'; }
static inline void perm(PermutationData_new<int> &p, const char *n, int s) { p.set(s, cpu()); p.alloc(); std::vector<char> used(s, 0); for (int i = 0; i < s; i++) { int v = sym_choose(nm(n, i).c_str(), 0, s - 1); if (used[v]) sym_reject("perm"); used[v] = 1; p.dst_to_src[i] = v; p.src_to_dst[v] = i; } }
template <class T> static Tab<T> tr(const Tab<T> &t, bool conj = false) { Tab<T> r(t.nc, t.nr); for (size_t i = 0; i < t.nr; i++) for (size_t j = 0; j < t.nc; j++) { r.pr(j, i) = t.pr(i, j); r(j, i) = conj ? cj(t(i, j)) : t(i, j); } return r; }
template <class T> static Tab<T> full(const Tab<T> &t, char uplo, bool herm) { Tab<T> r(t.nr, t.nc); for (size_t i = 0; i < t.nr; i++) for (size_t j = 0; j < t.nc; j++) { bool in = inside(uplo, i, j); r.pr(i, j) = in ? t.pr(i, j) : t.pr(j, i); r(i, j) = in ? t(i, j) : herm ? cj(t(j, i)) : t(j, i); } return r; }
template <class T> static Tab<T> sub(const Tab<T> &t, size_t r0, size_t r1, size_t c0, size_t c1) { Tab<T> r(r1 - r0, c1 - c0); for (size_t i = r0; i < r1; i++) for (size_t j = c0; j < c1; j++) { r.pr(i - r0, j - c0) = t.pr(i, j); r(i - r0, j - c0) = t(i, j); } return r; }
static inline void realdiag(Tab<double> &) {}
static inline void realdiag(Tab<Z> &t) { for (size_t i = 0; i < t.nr; i++) t(i, i) = Z(t(i, i).real(), 0); }
