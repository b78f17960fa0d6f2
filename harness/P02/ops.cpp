#include "mat.h"
#include <cstdlib>
#include <cstring>
#include "config/ecf/ecf.h"
#include "esinfo/ecfinfo.h"
#include "esinfo/meshinfo.h"
#include "mesh/mesh.h"
#include "math/operations/gemm_csx_dny_dny_prune.h"
#include "math/operations/gemm_csx_dny_dny_staged.h"
#include "math/operations/gemm_csx_dny_dnz.h"
#include "math/operations/gemm_dnx_dny_dnz.h"
#include "math/operations/gemv_csx.h"
#include "math/operations/herk_dnx_dny.h"
#include "math/operations/herk_dnx_dny_tri.h"
#include "math/operations/lincomb_dnx_csy.h"
#include "math/operations/lincomb_matrix_dnx.h"
#include "math/operations/lincomb_vector.h"
#include "math/operations/mv_dnx.h"
#include "math/operations/trsm_csx_dny_dny.h"
#include "math/operations/trsm_csx_dny_staged.h"
#include "math/operations/trsm_csx_dny_tri.h"
#include "math/operations/trsm_dnx_dny.h"
namespace espreso { namespace info { ECF *ecf; Mesh *mesh; } }
template <class T> static T coef(const char *n) { int k = sym_choose((std::string(n) + "k").c_str(), 0, 2); return k == 0 ? T(0) : k == 1 ? T(1) : sval<T>(n); }
template <class T> static Tab<T> mm(const Tab<T> &a, const Tab<T> &b) { Tab<T> c(a.nr, b.nc); for (size_t i = 0; i < a.nr; i++) for (size_t j = 0; j < b.nc; j++) { c.pr(i, j) = 1; T s = T(0); for (size_t l = 0; l < a.nc; l++) if (a.pr(i, l) && b.pr(l, j)) s += mul(a(i, l), b(l, j)); c(i, j) = s; } return c; }
template <class T> static Tab<T> ax(T al, const Tab<T> &a, T be, const Tab<T> &b) { Tab<T> c(a.nr, a.nc); for (size_t i = 0; i < a.nr; i++) for (size_t j = 0; j < a.nc; j++) { c.pr(i, j) = 1; c(i, j) = mul(al, a.pr(i, j) ? a(i, j) : T(0)) + mul(be, b.pr(i, j) ? b(i, j) : T(0)); } return c; }
template <class T> static void vec(VectorDenseData_new<T> &v, const Tab<T> &t) { v.set(t.nr, cpu()); v.alloc(); for (size_t i = 0; i < t.nr; i++) v.vals[i] = t(i, 0); }
template <class T> static void vchk(VectorDenseData_new<T> &v, const Tab<T> &t, const char *l) { sym_assert(v.size == t.nr, l); for (size_t i = 0; i < t.nr; i++) eq(v.vals[i], t(i, 0), l); }
// triangular factor with a fixed nonzero diagonal (so that solving is polynomial), free strict triangle
template <class T> static Tab<T> factor(int n, char U, char diag, bool sparse) { static const double dg[] = {2, -4, 0.5, 8, -1}; Tab<T> t = sparse ? spattern<T>("l", n, n, U, true, true) : sdense<T>("l", n, n, U); for (int i = 0; i < n; i++) t(i, i) = diag == 'U' ? T(1) : T(dg[i % 5]); return t; }
template <class T> static Tab<T> strict(const Tab<T> &t) { Tab<T> r = t; for (size_t i = 0; i < t.nr; i++) r.pr(i, i) = 0; return r; }
// staircase pattern: each column starts at a row not above the previous one
template <class T> static Tab<T> stairs(const char *n, int nr, int nc, std::vector<int> &piv) { Tab<T> t(nr, nc); int last = 0; for (int j = 0; j < nc; j++) { last = sym_choose(nm((std::string(n) + "piv").c_str(), j).c_str(), last, nr - 1); piv.push_back(last); for (int i = last; i < nr; i++) { t.pr(i, j) = 1; t(i, j) = sval<T>(std::string(n) + std::to_string(i) + "_" + std::to_string(j)); } } return t; }
static int part(const char *n, int lo, int hi, int d) { return sym_param(6, 0) == 1 ? d : sym_choose(n, lo, hi); }
template <class T> static void run(int op, int nr, int nc, int nk, int A, int B, int C) {
  char oA = oc(A), oB = oc(B), oC = oc(C); typedef MatrixCsxData_new<T, int> S; typedef MatrixDenseData_new<T> D;
  switch (op) {
  case 0: { T al = sval<T>("al"), be = coef<T>("be"); Tab<T> a = spattern<T>("a", nr, nk), b = sdense<T>("b", nk, nc), c = sdense<T>("c", nr, nc); S a_; D b_, c_; csx(a_, a, oA); dn(b_, b, oB); dn(c_, c, oC); gemm_csx_dny_dnz<T, int>::do_all(&a_, &b_, &c_, al, be); chk(c_, ax(al, mm(a, b), be, c), "sparse times dense"); chk(a_, a, "A untouched"); chk(b_, b, "B untouched");
    if (oB == oC) { D d_; dn(d_, c, oC); gemm_csx_dny_dny_staged<T, int> g; g.set_matrix_A(&a_); g.set_matrix_B(&b_); g.set_matrix_C(&d_); g.set_coefficients(al, be); g.preprocess(); g.perform(); chk(d_, ax(al, mm(a, b), be, c), "sparse times dense (staged)"); } break; }
  case 1: { T al = sval<T>("al"), be = coef<T>("be"); Tab<T> a = sdense<T>("a", nr, nk), b = sdense<T>("b", nk, nc), c = sdense<T>("c", nr, nc); D a_, b_, c_; dn(a_, a, oA); dn(b_, b, oB); dn(c_, c, oC); gemm_dnx_dny_dnz<T>::do_all(&a_, &b_, &c_, al, be); chk(c_, ax(al, mm(a, b), be, c), "dense times dense"); break; }
  case 2: { bool pr = sym_choose("prow", 0, 1), pc = sym_choose("pcol", 0, 1); char sd = sym_choose("spdn", 0, 1) ? 'D' : 'S'; T al = sval<T>("al"), be = pr ? T(1) : coef<T>("be"); if (B != C) sym_reject("same order");
    Tab<T> a = spattern<T>("a", nr, nk), b = sdense<T>("b", nk, nc), c = sdense<T>("c", nr, nc); S a_; D b_, c_; csx(a_, a, oA); dn(b_, b, oB); dn(c_, c, oC); if (!a.nnz() && (pr || pc)) sym_reject("nothing left"); gemm_csx_dny_dny_prune<T, int> g; g.set_config(sd, pr, pc); g.set_matrix_A(&a_); g.set_matrix_B(&b_); g.set_matrix_C(&c_); g.set_coefficients(al, be); g.preprocess(); g.perform(); Tab<T> w = ax(al, mm(a, b), be, c); chk(c_, w, "pruned product"); g.perform(); chk(c_, ax(al, mm(a, b), be, w), "pruned product repeated"); break; }
  case 3: { T al = sval<T>("al"), be = coef<T>("be"); Tab<T> a = spattern<T>("a", nr, nc), x = sdense<T>("x", nc, 1), y = sdense<T>("y", nr, 1); S a_; csx(a_, a, oA); VectorDenseData_new<T> x_, y_; vec(x_, x); vec(y_, y); gemv_csx<T, int>::do_all(&a_, &x_, &y_, al, be); vchk(y_, ax(al, mm(a, x), be, y), "sparse matrix times vector"); break; }
  case 4: case 5: { double al = sym_double("al"), be = coef<double>("be"); char U = sym_choose("uplo", 0, 1) ? 'U' : 'L'; bool hA = sym_choose("mode", 0, 1); auto mode = hA ? blas::herk_mode::AhA : blas::herk_mode::AAh; int n = nr, k = nk; std::vector<int> piv;
    Tab<T> a = op == 4 ? sdense<T>("a", k, n) : stairs<T>("a", k, n, piv); Tab<T> src = hA ? a : tr(a), c = sdense<T>("c", n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!inside(U, i, j)) { } if constexpr (!std::is_same_v<T, double>) realdiag(c); Tab<T> w = hA ? mm(tr(src, true), src) : mm(src, tr(src, true)); w = ax(T(al), w, T(be), c);
    D a_, c_; dn(a_, src, oA); for (size_t i = 0; i < src.nr; i++) for (size_t j = 0; j < src.nc; j++) if (!src.pr(i, j)) el(a_, i, j) = T(0); dn(c_, c, oC, U);
    if (op == 4) herk_dnx_dny<T>::do_all(&a_, &c_, mode, al, be);
    else { S p_; csx(p_, src, oB); auto &e = info::ecf->operations.herk_dnx_dny_tria; typedef HerkDnxDnyTriaConfig H; e.strategy = sym_choose("strategy", 0, 1) ? H::HERK_TRIA_STRATEGY::SQUARES : H::HERK_TRIA_STRATEGY::STAIRS; e.partition.algorithm = part("palg", 0, 1, 0) ? H::PARTITION_ALGORITHM::MINIMUM_WORK : H::PARTITION_ALGORITHM::UNIFORM; e.partition.strategy = part("pstr", 0, 1, 1) ? H::PARTITION_STRATEGY::CHUNK_SIZE : H::PARTITION_STRATEGY::CHUNK_COUNT; e.partition.chunk_size = e.partition.chunk_count = part("chunk", 1, 3, 2);
      herk_dnx_dny_tri<T, int> h; h.set_matrix_A(&a_); h.set_matrix_C(&c_); h.set_coefficients(al, be); h.set_mode(mode); h.calc_A_pattern(p_); h.preprocess(); h.perform(); }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) eq(el(c_, i, j), inside(U, i, j) ? w(i, j) : c(i, j), "product with its own transpose"); break; }
  case 6: { int u = nr == nc ? sym_choose("uplo", 0, 2) : 0; char U = uc(u); int which = sym_choose("which", 0, 2), al_ = sym_choose("alias", 0, 2); T al = coef<T>("al"), be = coef<T>("be");
    if (which == 0) { Tab<T> a = sdense<T>("a", nr, nc), b = sdense<T>("b", nr, nc), x = sdense<T>("x", nr, nc); D a_, b_, x_; dn(a_, a, oA, U); dn(b_, b, oA, U); dn(x_, x, oA, U); D *X = al_ == 1 ? &a_ : al_ == 2 ? &b_ : &x_; Tab<T> &old = al_ == 1 ? a : al_ == 2 ? b : x; lincomb_matrix_dnx<T>::do_all(X, al, &a_, be, &b_); Tab<T> w = ax(al, a, be, b); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) eq(el(*X, i, j), inside(U, i, j) ? w(i, j) : old(i, j), "linear combination of dense matrices"); }
    if (which == 1) { if (al_ == 2) sym_reject("alias"); Tab<T> a = sdense<T>("a", nr, nc), b = spattern<T>("b", nr, nc, U), x = sdense<T>("x", nr, nc); D a_, x_; S b_; dn(a_, a, oA, U); csx(b_, b, oB, U); dn(x_, x, oA, U); D *X = al_ == 1 ? &a_ : &x_; Tab<T> &old = al_ == 1 ? a : x; lincomb_dnx_csy<T, int>::do_all(X, al, &a_, be, &b_); Tab<T> w = ax(al, a, be, b); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) eq(el(*X, i, j), inside(U, i, j) ? w(i, j) : old(i, j), "linear combination of a dense and a sparse matrix"); }
    if (which == 2) { Tab<T> a = sdense<T>("a", nr, 1), b = sdense<T>("b", nr, 1), x = sdense<T>("x", nr, 1); VectorDenseData_new<T> a_, b_, x_; vec(a_, a); vec(b_, b); vec(x_, x); auto *X = al_ == 1 ? &a_ : al_ == 2 ? &b_ : &x_; lincomb_vector<T>::do_all(X, al, &a_, be, &b_); vchk(*X, ax(al, a, be, b), "linear combination of vectors"); } break; }
  case 7: { int sy = sym_choose("sym", 0, 1); if (sy && nr != nc) sym_reject("square"); char U = sy ? sym_choose("uplo", 0, 1) ? 'U' : 'L' : 'F'; T al = sval<T>("al"), be = coef<T>("be"); Tab<T> a = sdense<T>("a", nr, nc, U), x = sdense<T>("x", nc, 1), y = sdense<T>("y", nr, 1); if (sy) realdiag(a); D a_; dn(a_, a, oA, U); a_.prop.symm = sy ? MatrixSymmetry_new::hermitian : MatrixSymmetry_new::general; Tab<T> f = sy ? full(a, U, true) : a; VectorDenseData_new<T> x_, y_; vec(x_, x); vec(y_, y); mv_dnx<T>::do_all(&a_, &x_, &y_, al, be); vchk(y_, ax(al, mm(f, x), be, y), "dense matrix times vector"); break; }
  case 8: case 9: { char U = sym_choose("uplo", 0, 1) ? 'U' : 'L', diag = sym_choose("diag", 0, 1) ? 'U' : 'N'; bool inpl = op == 9 || sym_choose("inplace", 0, 1); Tab<T> l = factor<T>(nr, U, diag, op == 8), b = sdense<T>("b", nr, nc); D b_, x_; dn(b_, b, oB); x_.set(nr, nc, oB, cpu()); x_.alloc(); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) el(x_, i, j) = T(99); D *X = inpl ? &b_ : &x_; S ls; D ld;
    if (op == 8) { csx(ls, diag == 'U' ? strict(l) : l, oA, U, diag); if (!ls.nnz) sym_reject("empty factor"); trsm_csx_dny_dny<T, int>::do_all(&ls, &b_, X); } else { dn(ld, l, oA, U, diag); trsm_dnx_dny<T>::do_all(&ld, &b_); }
    Tab<T> sol(nr, nc); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { sol.pr(i, j) = 1; sol(i, j) = el(*X, i, j); } Tab<T> w = mm(l, sol); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) eq(w(i, j), b(i, j), "triangular solve"); if (!inpl) chk(b_, b, "right-hand side untouched");
    if (op == 8 && !inpl) { D z_; dn(z_, b, oB); trsm_csx_dny_staged<T, int> t; t.set_system_matrix(&ls); t.set_rhs_sol(&z_); t.preprocess(); t.perform(); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) eq(el(z_, i, j), sol(i, j), "staged triangular solve"); } break; }
  case 10: case 11: { char diag = 'N'; Tab<T> l = factor<T>(nr, 'L', diag, true); std::vector<int> piv; Tab<T> x = stairs<T>("x", nr, nc, piv); D x_; dn(x_, x, oB); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) if (!x.pr(i, j)) el(x_, i, j) = T(0); S l_, p_; csx(l_, l, oA, 'L', diag); csx(p_, x, oC); typedef TrsmCsxDnyTriaConfig H; auto &e = info::ecf->operations.trsm_csx_dny_tria; e.strategy = op == 10 ? H::TRSM_TRIA_STRATEGY::SPLIT_FACTOR : H::TRSM_TRIA_STRATEGY::SPLIT_RHS; e.partition.algorithm = part("palg", 0, 1, 0) ? H::PARTITION_ALGORITHM::MINIMUM_WORK : H::PARTITION_ALGORITHM::UNIFORM; e.partition.strategy = part("pstr", 0, 1, 1) ? H::PARTITION_STRATEGY::CHUNK_SIZE : H::PARTITION_STRATEGY::CHUNK_COUNT; e.partition.chunk_size = e.partition.chunk_count = part("chunk", 1, 3, 2);
    auto ord = [](const char *n) { return (sym_param(6, 0) == 2 ? 0 : sym_choose(n, 0, 1)) ? H::MATRIX_ORDER::COL_MAJOR : H::MATRIX_ORDER::ROW_MAJOR; }; double par = 0.5; int lim = sym_param(5, 5);
    if (op == 10) { auto &f = e.split_factor_config; f.trsm_factor_spdn = sym_choose("tspdn", 0, 1) ? H::SPDN::DENSE : H::SPDN::SPARSE; f.trsm_factor_order = ord("to"); f.gemm_factor_pruning = (H::PRUNING_STRATEGY)((int)H::PRUNING_STRATEGY::NO_PRUNING + sym_choose("prune", 0, 3)); f.gemm_factor_order_sp = f.gemm_factor_order_dn = ord("go"); f.gemm_spdn_criteria = (H::SPDN_CRITERIA)((int)H::SPDN_CRITERIA::SPARSE_ONLY + sym_choose("crit", 0, lim - 1)); f.spdn_param_frac_of_num_chunks = f.spdn_param_frac_of_factor_size = f.spdn_param_factor_density = par; }
    else { auto &f = e.split_rhs_config; f.factor_order_sp = ord("fs"); f.factor_order_dn = ord("fd"); f.spdn_criteria = (H::SPDN_CRITERIA)((int)H::SPDN_CRITERIA::SPARSE_ONLY + sym_choose("crit", 0, lim - 1)); f.spdn_param_frac_of_num_chunks = f.spdn_param_frac_of_factor_size = f.spdn_param_factor_density = par; }
    trsm_csx_dny_tri<T, int> t; t.set_L(&l_); t.set_X(&x_); t.calc_X_pattern(p_); t.preprocess(); t.perform(); Tab<T> sol(nr, nc); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { sol.pr(i, j) = 1; sol(i, j) = el(x_, i, j); } Tab<T> w = mm(l, sol); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) eq(w(i, j), x.pr(i, j) ? x(i, j) : T(0), "chunked triangular solve"); break; }
  }
}
extern "C" void harness() { // params: op, max rows, max columns, max inner, complex
  int op = sym_param(0, 0), cx = sym_param(4, 0); info::ecf = (ECF *)calloc(1, sizeof(ECF)); info::mesh = (Mesh *)calloc(1, sizeof(Mesh)); info::mesh->dimension = 2 + (op & 1);
  int nr = sym_choose("nr", 1, sym_param(1, 2)), nc = sym_choose("nc", 1, sym_param(2, 2)), nk = sym_param(3, 0) ? sym_choose("nk", 1, sym_param(3, 2)) : 0, fx = sym_param(6, 0) == 2, A = fx ? 0 : sym_choose("oA", 0, 1), B = fx ? 0 : sym_choose("oB", 0, 1), C = fx ? 0 : sym_choose("oC", 0, 1);
  if ((op == 3 || op == 7) && (B || C)) sym_reject("once"); if ((op == 6 || op == 8 || op == 9) && C) sym_reject("once"); if (op == 4 && B) sym_reject("once");
  sym_forbid_reject = 1; if (cx) run<Z>(op, nr, nc, nk, A, B, C); else run<double>(op, nr, nc, nk, A, B, C); sym_reach("end"); }
