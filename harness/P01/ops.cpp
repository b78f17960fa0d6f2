#include "mat.h"
#include "math/operations/complete_csx_csy_map.h"
#include "math/operations/complete_dnx_dnx.h"
#include "math/operations/concat_csx.h"
#include "math/operations/convert_csx_csy.h"
#include "math/operations/convert_csx_csy_map.h"
#include "math/operations/convert_csx_dny.h"
#include "math/operations/convert_dnx.h"
#include "math/operations/convert_dnx_dny.h"
#include "math/operations/copy_csx.h"
#include "math/operations/copy_dnx.h"
#include "math/operations/fill_dnx.h"
#include "math/operations/permute_csx_csx.h"
#include "math/operations/permute_csx_csx_map.h"
#include "math/operations/permute_dnx_dnx.h"
#include "math/operations/pivots_trails_csx.h"
#include "math/operations/prune_csx_matx.h"
#include "math/operations/quadrisect_csx_csy.h"
#include "math/operations/sorting_permutation.h"
#include "math/operations/submatrix_csx_csy.h"
#include "math/operations/submatrix_csx_csy_map.h"
#include "math/operations/submatrix_csx_dny.h"
#include "math/operations/submatrix_dnx_dnx_noncontig.h"
#include "math/operations/submatrix_dnx_dnx_view.h"
#include "math/operations/supermatrix_dnx_dnx_noncontig.h"
#include "math/operations/transpose_csx_csx_map.h"
#include "math/operations/transpose_dnx_dnx.h"
template <class T> static void revals(Tab<T> &t, MatrixCsxData_new<T, int> &m, const char *n) { // same pattern, new values
  size_t k = 0, np = m.get_size_primary(); for (size_t a = 0; a < np; a++) for (int q = m.ptrs[a]; q < m.ptrs[a + 1]; q++, k++) { int b = m.idxs[q]; T v = sval<T>(nm(n, a, b)); m.vals[q] = v; (m.order == 'R' ? t(a, b) : t(b, a)) = v; } }
static std::vector<int> subset(const char *n, int s, VectorDenseData_new<int> &v) { std::vector<int> r; for (int i = 0; i < s; i++) if (sym_choose(nm(n, i).c_str(), 0, 1)) r.push_back(i); v.set(r.size(), cpu()); v.alloc(); for (size_t i = 0; i < r.size(); i++) v.vals[i] = r[i]; return r; }
template <class T> static void run(int op, int nr, int nc, int o1, int o2, int u) {
  char A = oc(o1), B = oc(o2), U = uc(u); typedef MatrixCsxData_new<T, int> S; typedef MatrixDenseData_new<T> D;
  switch (op) {
  case 0: { // convert between compressed row and column storage, values replayed through the map
    Tab<T> t = spattern<T>("a", nr, nc, U); S s, d, e; csx(s, t, A, U); d.set(nr, nc, s.nnz, B, cpu()); d.alloc(); d.prop.uplo = U; e.set(nr, nc, s.nnz, B, cpu()); e.alloc(); e.prop.uplo = U;
    convert_csx_csy<T, int>::do_all(&s, &d); chk(d, t, "converted matrix"); chk(s, t, "source untouched");
    convert_csx_csy_map<T, int> m; m.set_matrix_src(&s); m.set_matrix_dst(&e); m.perform_pattern(); m.perform_values(); chk(e, t, "converted by map"); revals(t, s, "n"); m.perform_values(); chk(e, t, "values replayed by map"); break; }
  case 1: { // sparse to dense
    Tab<T> t = spattern<T>("a", nr, nc, U); S s; csx(s, t, A, U); D d; d.set(nr, nc, B, cpu()); d.alloc(); d.prop.uplo = U; for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) el(d, i, j) = T(-7);
    convert_csx_dny<T, int>::do_all(&s, &d); chk(d, t, "dense image", U); break; }
  case 2: { // dense copies and order conversions, transposition
    bool cjg = sym_choose("conj", 0, 1); Tab<T> t = sdense<T>("a", nr, nc); D s, d, e, f; dn(s, t, A); d.set(nr, nc, B, cpu()); d.alloc(); e.set(nr, nc, A, cpu()); e.alloc(); f.set(nc, nr, A, cpu()); f.alloc();
    Tab<T> tc = cjg ? tr(tr(t, true)) : t;
    convert_dnx_dny<T>::do_all(&s, &d, cjg); chk(d, tc, "dense order conversion"); copy_dnx<T>::do_all(&s, &e, cjg); chk(e, tc, "dense copy"); transpose_dnx_dnx<T>::do_all(&s, &f, cjg); chk(f, tr(t, cjg), "dense transpose");
    if (nr == nc) { transpose_dnx_dnx<T>::do_all(&s, &s, cjg); chk(s, tr(t, cjg), "in-place transpose"); } else chk(s, t, "source untouched");
    break; }
  case 3: { // triangular copies leave the other triangle alone
    Tab<T> t = sdense<T>("a", nr, nr, U); D s, d; dn(s, t, A, U); Tab<T> o = sdense<T>("b", nr, nr); dn(d, o, A, U); copy_dnx<T>::do_all(&s, &d, false); for (int i = 0; i < nr; i++) for (int j = 0; j < nr; j++) eq(el(d, i, j), inside(U, i, j) ? t(i, j) : o(i, j), "triangular copy");
    fill_dnx<T>::do_all(&d, T(3)); for (int i = 0; i < nr; i++) for (int j = 0; j < nr; j++) eq(el(d, i, j), inside(U, i, j) ? T(3) : o(i, j), "triangular fill");
    Tab<T> g = sdense<T>("g", nr, nc); D w; dn(w, g, B); fill_dnx<T>::do_all(&w, T(5)); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) eq(el(w, i, j), T(5), "full fill"); break; }
  case 4: { // completion of a triangle, dense and sparse
    bool herm = sym_choose("herm", 0, 1); Tab<T> t = spattern<T>("a", nr, nr, U); if (herm) realdiag(t); Tab<T> f = full(t, U, herm);
    S s, d; csx(s, t, A, U); complete_csx_csy_map<T, int> c; c.set_matrix_src(&s); c.set_conj(herm); d.set(nr, nr, c.get_dst_nnz(), B, cpu()); d.alloc(); for (int i = 0; i <= nr; i++) d.ptrs[i] = 77; c.set_matrix_dst(&d); c.perform_pattern(); c.perform_values(); chk(d, f, "completed sparse matrix");
    Tab<T> q = sdense<T>("b", nr, nr, U); if (herm) realdiag(q); D e, g; dn(e, q, A, U); g.set(nr, nr, A, cpu()); g.alloc(); complete_dnx_dnx<T>::do_all(&e, &g, herm); chk(g, full(q, U, herm), "completed dense matrix"); break; }
  case 5: { // block concatenation is the inverse of quadrisection
    int rc = sym_choose("rc", 0, nr), cc = sym_choose("cc", 0, nc); Tab<T> t = spattern<T>("a", nr, nc); S s, b[4], r; csx(s, t, A); quadrisect_csx_csy<T, int> q; q.set_matrix_src(&s); q.set_bounds(rc, cc); q.setup();
    size_t nz[4] = {q.get_output_matrix_11_nnz(), q.get_output_matrix_12_nnz(), q.get_output_matrix_21_nnz(), q.get_output_matrix_22_nnz()}; int rr[4] = {rc, rc, nr - rc, nr - rc}, cl[4] = {cc, nc - cc, cc, nc - cc};
    for (int i = 0; i < 4; i++) { b[i].set(rr[i], cl[i], nz[i], B, cpu()); b[i].alloc(); } q.set_matrices_dst(&b[0], &b[1], &b[2], &b[3]); q.perform();
    chk(b[0], sub(t, 0, rc, 0, cc), "block 11"); chk(b[1], sub(t, 0, rc, cc, nc), "block 12"); chk(b[2], sub(t, rc, nr, 0, cc), "block 21"); chk(b[3], sub(t, rc, nr, cc, nc), "block 22");
    if (A == B) { r.set(nr, nc, s.nnz, A, cpu()); r.alloc(); concat_csx<T, int>::do_all(&b[0], &b[1], &b[2], &b[3], &r); chk(r, t, "concatenated blocks"); } break; }
  case 6: { // contiguous submatrices
    int r0 = sym_choose("r0", 0, nr), r1 = sym_choose("r1", 0, nr), c0 = sym_choose("c0", 0, nc), c1 = sym_choose("c1", 0, nc); if (r0 > r1 || c0 > c1) sym_reject("bounds");
    Tab<T> t = spattern<T>("a", nr, nc); S s, d, e; csx(s, t, A); submatrix_csx_csy<T, int> x; x.set_matrix_src(&s); x.set_bounds(r0, r1, c0, c1); x.setup(); d.set(r1 - r0, c1 - c0, x.get_output_matrix_nnz(), B, cpu()); d.alloc(); x.set_matrix_dst(&d); x.perform(); chk(d, sub(t, r0, r1, c0, c1), "submatrix");
    submatrix_csx_csy_map<T, int> y; y.set_matrix_src(&s); y.set_bounds(r0, r1, c0, c1); y.setup(); e.set(r1 - r0, c1 - c0, y.get_output_matrix_nnz(), B, cpu()); e.alloc(); y.set_matrix_dst(&e); y.perform_pattern(); y.perform_values(); chk(e, sub(t, r0, r1, c0, c1), "submatrix by map"); revals(t, s, "n"); y.perform_values(); chk(e, sub(t, r0, r1, c0, c1), "submatrix values replayed");
    D g; g.set(r1 - r0, c1 - c0, B, cpu()); g.alloc(); submatrix_csx_dny<T, int>::do_all(&s, &g, r0, r1, c0, c1); chk(g, sub(t, r0, r1, c0, c1), "dense submatrix"); break; }
  case 7: { // submatrix / supermatrix by row and column subsets, and views
    Tab<T> t = sdense<T>("a", nr, nc); D s; dn(s, t, A); bool um = sym_choose("rm", 0, 1), un = sym_choose("cm", 0, 1); VectorDenseData_new<int> rv, cv; std::vector<int> rs, cs; if (um) rs = subset("rs", nr, rv); else for (int i = 0; i < nr; i++) rs.push_back(i); if (un) cs = subset("cs", nc, cv); else for (int i = 0; i < nc; i++) cs.push_back(i);
    D d; d.set(rs.size(), cs.size(), A, cpu()); d.alloc(); submatrix_dnx_dnx_noncontig<T, int>::do_all(&s, &d, um ? &rv : nullptr, un ? &cv : nullptr); Tab<T> w(rs.size(), cs.size()); for (size_t i = 0; i < rs.size(); i++) for (size_t j = 0; j < cs.size(); j++) { w.pr(i, j) = 1; w(i, j) = t(rs[i], cs[j]); } chk(d, w, "noncontiguous submatrix");
    Tab<T> b = sdense<T>("b", rs.size(), cs.size()); D src; dn(src, b, A); int mode = sym_choose("mode", 0, 2); typedef supermatrix_dnx_dnx_noncontig<T, int> SM; SM::do_all(&src, &s, um ? &rv : nullptr, un ? &cv : nullptr, mode == 0 ? SM::mode::assign : mode == 1 ? SM::mode::accumulate : SM::mode::accumulate_atomic);
    Tab<T> x = t; for (size_t i = 0; i < rs.size(); i++) for (size_t j = 0; j < cs.size(); j++) x(rs[i], cs[j]) = mode ? t(rs[i], cs[j]) + b(i, j) : b(i, j); chk(s, x, "noncontiguous supermatrix");
    int r0 = sym_choose("r0", 0, nr), c0 = sym_choose("c0", 0, nc); MatrixDenseView_new<T> v; v.set_view(nr - r0, nc - c0, s.ld, A, nullptr, cpu()); submatrix_dnx_dnx_view<T>::do_all(&s, &v, r0, nr, c0, nc); chk(v, sub(x, r0, nr, c0, nc), "submatrix view");
    MatrixDenseView_new<T> tv = s.get_transposed_reordered_view(); chk(tv, tr(x), "transposed view"); break; }
  case 8: { // permutations of sparse matrices
    Tab<T> t = spattern<T>("a", nr, nc, U); bool pr = sym_choose("pr", 0, 1), pc = sym_choose("pc", 0, 1); PermutationData_new<int> R, C; if (pr) perm(R, "R", nr); if (pc) { if (u) { if (!pr) sym_reject("sym"); } else perm(C, "C", nc); } if (u && pr != pc) sym_reject("sym");
    PermutationData_new<int> *qr = pr ? &R : nullptr, *qc = pc ? (u ? &R : &C) : nullptr; Tab<T> src = u ? full(t, U, false) : t; Tab<T> w(nr, nc); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { int si = qr ? qr->dst_to_src[i] : i, sj = qc ? qc->dst_to_src[j] : j; if (inside(U, i, j)) { w.pr(i, j) = src.pr(si, sj); w(i, j) = src(si, sj); } }
    S s, d, e; csx(s, t, A, U); d.set(nr, nc, s.nnz, A, cpu()); d.alloc(); d.prop.uplo = U; e.set(nr, nc, s.nnz, A, cpu()); e.alloc(); e.prop.uplo = U;
    if (!u) { permute_csx_csx<T, int>::do_all(&s, &d, qr, qc); chk(d, w, "permuted sparse matrix"); }
    permute_csx_csx_map<T, int> m; m.set_matrix_src(&s); m.set_matrix_dst(&e); m.set_perm_rows(qr); m.set_perm_cols(qc); m.perform_pattern(); m.perform_values(); chk(e, w, "permuted by map");
    revals(t, s, "n"); src = u ? full(t, U, false) : t; for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { int si = qr ? qr->dst_to_src[i] : i, sj = qc ? qc->dst_to_src[j] : j; if (inside(U, i, j)) w(i, j) = src(si, sj); } m.perform_values(); chk(e, w, "values replayed by map"); break; }
  case 9: { // permutations of dense matrices (also in place and of triangles)
    bool pr = sym_choose("pr", 0, 1), pc = sym_choose("pc", 0, 1), inpl = sym_choose("inplace", 0, 1); PermutationData_new<int> R, C; if (pr) perm(R, "R", nr); if (pc && !u) perm(C, "C", nc); if (u && pr != pc) sym_reject("sym"); PermutationData_new<int> *qr = pr ? &R : nullptr, *qc = pc ? (u ? &R : &C) : nullptr;
    Tab<T> t = sdense<T>("a", nr, nc, U); bool herm = u && sym_choose("herm", 0, 1); if (herm) realdiag(t); Tab<T> src = u ? full(t, U, herm) : t; D s, d; dn(s, t, A, U); s.prop.symm = herm ? MatrixSymmetry_new::hermitian : MatrixSymmetry_new::symmetric; d.set(nr, nc, A, cpu()); d.alloc(); d.prop.uplo = U;
    permute_dnx_dnx<T, int>::do_all(&s, inpl ? &s : &d, qr, qc); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) if (inside(U, i, j)) eq(el(inpl ? s : d, i, j), src(qr ? qr->dst_to_src[i] : i, qc ? qc->dst_to_src[j] : j), "permuted dense matrix"); break; }
  case 10: { // pruning of empty rows and columns
    bool pr = sym_choose("pr", 0, 1), pc = sym_choose("pc", 0, 1); if (!pr && !pc) sym_reject("nothing to prune"); Tab<T> t = spattern<T>("a", nr, nc); S s, d; csx(s, t, A); std::vector<int> rs, cs; for (int i = 0; i < nr; i++) { bool any = !pr; for (int j = 0; j < nc; j++) any |= t.pr(i, j); if (any) rs.push_back(i); } for (int j = 0; j < nc; j++) { bool any = !pc; for (int i = 0; i < nr; i++) any |= t.pr(i, j); if (any) cs.push_back(j); }
    prune_csx_matx<T, int> p; p.set_pruning_mode(pr, pc); p.set_matrix_src(&s); p.setup(); sym_assert((p.get_dst_matrix_nrows() == rs.size()) & (p.get_dst_matrix_ncols() == cs.size()), "pruned size");
    VectorDenseData_new<int> vr, vc; if (pr) { vr.set(rs.size(), cpu()); vr.alloc(); p.set_vector_pruned_rows(&vr); } if (pc) { vc.set(cs.size(), cpu()); vc.alloc(); p.set_vector_pruned_cols(&vc); } p.preprocess();
    for (size_t i = 0; pr && i < rs.size(); i++) sym_assert(vr.vals[i] == rs[i], "kept rows"); for (size_t i = 0; pc && i < cs.size(); i++) sym_assert(vc.vals[i] == cs[i], "kept columns");
    Tab<T> w(rs.size(), cs.size()); for (size_t i = 0; i < rs.size(); i++) for (size_t j = 0; j < cs.size(); j++) { w.pr(i, j) = t.pr(rs[i], cs[j]); w(i, j) = t(rs[i], cs[j]); }
    d.set(rs.size(), cs.size(), s.nnz, A, cpu()); d.alloc(); D g; g.set(rs.size(), cs.size(), A, cpu()); g.alloc(); p.set_matrix_dst_dn(&g); p.set_matrix_dst_sp(&d); p.perform(); chk(d, w, "pruned sparse matrix"); chk(g, w, "pruned dense matrix"); break; }
  case 11: { // explicit transposition, copies
    Tab<T> t = spattern<T>("a", nr, nc); S s, d, e; csx(s, t, A); d.set(nc, nr, s.nnz, A, cpu()); d.alloc(); transpose_csx_csx_map<T, int> m; m.set_matrix_src(&s); m.set_matrix_dst(&d); m.perform_pattern(); m.perform_values(); chk(d, tr(t), "transposed"); revals(t, s, "n"); m.perform_values(); chk(d, tr(t), "values replayed");
    e.set(nr, nc, s.nnz, A, cpu()); e.alloc(); copy_csx<T, int>::do_all(&s, &e); chk(e, t, "copy"); MatrixCsxView_new<T, int> v = s.get_transposed_reordered_view(); chk(v, tr(t), "transposed view"); break; }
  case 12: { // first / last entries of rows and columns and their monotone completion
    Tab<T> t = spattern<T>("a", nr, nc); S s; csx(s, t, A); bool rows = B == 'R', piv = sym_choose("piv", 0, 1); int n = rows ? nr : nc, m = rows ? nc : nr; std::vector<int> w(n); for (int i = 0; i < n; i++) { w[i] = m; for (int q = 0; q < m; q++) { int j = piv ? q : m - 1 - q; if (rows ? t.pr(i, j) : t.pr(j, i)) { w[i] = j; break; } } }
    VectorDenseData_new<int> v; v.set(n, cpu()); v.alloc(); pivots_trails_csx<T, int>::do_all(&s, &v, B, piv ? 'P' : 'T', '_'); for (int i = 0; i < n; i++) sym_assert(v.vals[i] == w[i], "pivots / trails");
    // completed trails bound every entry from the right, completed pivots from the left, and are monotone
    char comp = piv ? 'B' : 'F'; pivots_trails_csx<T, int>::do_all(&s, &v, B, piv ? 'P' : 'T', comp);
    bool mono = true; int last = piv ? m : -1; for (int q = 0; q < n; q++) { int i = piv ? n - 1 - q : q; if (w[i] == m) continue; if (piv ? w[i] > last : w[i] < last) mono = false; last = w[i]; }
    if (mono && m) for (int i = 0; i < n; i++) { if (i) sym_assert(v.vals[i - 1] <= v.vals[i], "completed sequence is monotone"); if (w[i] != m) sym_assert(v.vals[i] == w[i], "entries of a monotone structure are kept"); sym_assert((v.vals[i] >= 0) & (v.vals[i] < (m ? m : 1)), "completed value is an index"); }
    break; }
  case 13: { // sorting permutation
    VectorDenseData_new<int> v; v.set(nr, cpu()); v.alloc(); for (int i = 0; i < nr; i++) v.vals[i] = sym_int(nm("v", i).c_str(), -3, 3); PermutationData_new<int> p; p.set(nr, cpu()); p.alloc(); sorting_permutation<int, int>::do_all(&v, &p); std::vector<char> seen(nr, 0); for (int i = 0; i < nr; i++) { sym_assert((p.dst_to_src[i] >= 0) & (p.dst_to_src[i] < nr), "index"); int k = sym_conc(p.dst_to_src[i]); sym_assert(!seen[k], "permutation"); seen[k] = 1; sym_assert(p.src_to_dst[k] == i, "inverse"); if (i) sym_assert(v.vals[sym_conc(p.dst_to_src[i - 1])] <= v.vals[k], "sorted"); } break; }
  case 14: { // triangle / full / order conversions of a dense matrix
    int v = sym_choose("dstuplo", 0, 2); char V = uc(v); bool herm = sym_choose("herm", 0, 1); Tab<T> t = sdense<T>("a", nr, nr); if (herm) realdiag(t); Tab<T> f = full(t, u ? U : 'L', herm); Tab<T> src = f; D s, d; for (int i = 0; i < nr; i++) for (int j = 0; j < nr; j++) src.pr(i, j) = inside(U, i, j); dn(s, src, A, U); s.prop.symm = herm ? MatrixSymmetry_new::hermitian : MatrixSymmetry_new::symmetric; d.set(nr, nr, B, cpu()); d.alloc(); d.prop.uplo = V; d.prop.symm = s.prop.symm;
    convert_dnx<T>::do_all(&s, &d); for (int i = 0; i < nr; i++) for (int j = 0; j < nr; j++) if (inside(V, i, j)) eq(el(d, i, j), f(i, j), "converted dense triangle"); break; }
  }
}
static int ch(const char *n, int p, int lo, int hi) { return p >= 0 ? p : sym_choose(n, lo, hi); }
extern "C" void harness() { // params: op, max rows, max columns, complex, minimum size
  int op = sym_param(0, 0), cx = sym_param(3, 0), mn = sym_param(4, 0), nr = sym_choose("nr", mn, sym_param(1, 2)), nc = sym_choose("nc", mn, sym_param(2, 2));
  static const int square[] = {3, 4, 13, 14}, sameorder[] = {3, 7, 8, 9, 10, 11, 13}, tri[] = {0, 1, 3, 4, 8, 9, 14}, tronly[] = {3, 4};
  auto has = [&](const int *b, const int *e) { return std::find(b, e, op) != e; };
  int o1 = sym_choose("o1", 0, 1), o2 = has(sameorder, sameorder + 7) ? o1 : sym_choose("o2", 0, 1), u = has(tri, tri + 7) ? sym_choose("uplo", has(tronly, tronly + 2) ? 1 : 0, 2) : 0;
  if ((u || has(square, square + 4)) && nr != nc) sym_reject("square"); if (op == 13 && o1) sym_reject("once");
  sym_forbid_reject = 1; if (cx) run<Z>(op, nr, nc, o1, o2, u); else run<double>(op, nr, nc, o1, o2, u); sym_reach("end"); }
