// FETI constraints, dual operators, projectors and preconditioners against the definition on the global dense problem
#include "es_env.h"
#include "esinfo/ecfinfo.h"
#include "config/ecf/ecf.h"
#include "analysis/linearsystem/constrains/equalityconstrains.h"
#include "feti/feti.h"
#include "feti/common/dual_map.h"
#include "feti/common/vector_dual.h"
#include "feti/common/matrix_dual.h"
#include "feti/dualoperator/totalfeti.implicit.h"
#include "feti/dualoperator/totalfeti.explicit.h"
#include "feti/projector/tfeti.orthogonal.symmetric.h"
#include "feti/projector/tfeti.conjugate.symmetric.h"
#include "feti/preconditioner/lumped.h"
#include "feti/preconditioner/dirichlet.h"
#include "feti/iterativesolver/iterativesolver.h"
#include "feti/dualoperator/hybridfeti.implicit.h"
#include "feti/projector/hfeti.orthogonal.symmetric.h"
#include "feti/projector/hfeti.conjugate.symmetric.h"
#include "feti/preconditioner/dirichlet.implicit.h"
#ifdef GENERAL
#include "feti/dualoperator/totalfeti.implicit.generalsparsesolver.cpu.h"
#include "feti/dualoperator/totalfeti.explicit.generalschur.cpu.h"
#include "feti/dualoperator/hybridfeti.implicit.generalsparsesolver.cpu.h"
#include "feti/dualoperator/hybridfeti.explicit.generalschur.cpu.h"
#include "feti/preconditioner/dirichlet.generalschur.h"
#endif
#include "esinfo/meshinfo.h"
#include "mesh/mesh.h"
#include "mesh/store/domainstore.h"
#include "mesh/store/clusterstore.h"
#include <cmath>
using namespace espreso;
enum { MD = 5, MN = 12, MK = 2 * MD * MN, MF = 40 };
SH static int D, N, np, topo, what, threads, var; SH static int rb[8]; SH static int nodes[MD][MN], nn[MD], kt[MD], off[MD + 1], fixedn[MN], mult[MN]; SH static int dm[MN][MD], di[MN][MD];
SH static double dval[2][MN], uu[MF], ff[2][MF], lam[MK], con[8][MK], lam2[MK], kv[16];
static bool bits(int v, int i) { return (v >> i) & 1; }
static void topology() {
  int mask[MN];
  if (topo == 0) { N = D + 1; for (int n = 0; n < N; n++) mask[n] = (n < D ? 1 << n : 0) | (n > 0 ? 1 << (n - 1) : 0); }
  if (topo == 1) { D = 4; N = 9; for (int n = 0; n < N; n++) { mask[n] = 0; int x = n % 3, y = n / 3; for (int d = 0; d < D; d++) { int a = d % 2, b = d / 2; if (x >= a && x <= a + 1 && y >= b && y <= b + 1) mask[n] |= 1 << d; } } }
  if (topo == 2) { int F = sym_param(5, 2); N = F + D; for (int n = 0; n < F; n++) mask[n] = sym_choose(nm("mask", n).c_str(), 1, (1 << D) - 1); for (int d = 0; d < D; d++) mask[F + d] = 1 << d; }
  if (topo == 3) { N = D + 2; for (int n = 0; n < D; n++) mask[n] = 1 << n; mask[D] = (1 << D) - 1; mask[D + 1] = (1 << D) - 2; }
  int fm = sym_param(6, 1); if (fm < 0) { fm = sym_choose("fixed", 1, (1 << std::min(N, -fm)) - 1); }
  for (int n = 0; n < N; n++) fixedn[n] = bits(fm, n);
  for (int d = 0; d < D; d++) { nn[d] = 0; for (int n = 0; n < N; n++) if (bits(mask[n], d)) nodes[d][nn[d]++] = n; }
  for (int n = 0; n < N; n++) { mult[n] = 0; for (int d = 0; d < D; d++) for (int i = 0; i < nn[d]; i++) if (nodes[d][i] == n) { dm[n][mult[n]] = d; di[n][mult[n]++] = i; } }
  off[0] = 0; for (int d = 0; d < D; d++) off[d + 1] = off[d] + nn[d];
  int k = sym_param(7, 0); for (int d = 0; d < D; d++) { kt[d] = k < 0 ? sym_choose(nm("kt", d).c_str(), 0, 2) : (k >> (2 * d)) & 3; if (kt[d] == 2 && nn[d] < 3) kt[d] = 0; if (nn[d] == 1) kt[d] = 1; }
  for (int d = 0; d < D; d++) { bool any = false; for (int i = 0; i < nn[d]; i++) any |= fixedn[nodes[d][i]] || mult[nodes[d][i]] > 1; if (!any) sym_reject("domain without constraints"); }
}
static int comp(int d, int i) { return kt[d] == 2 ? i % 2 : 0; }
static double kval(int d, int i, int j, int st) { // dense entry of K
  double s = 0; for (int a = 0; a < nn[d]; a++) for (int b = a + 1; b < nn[d]; b++) if (comp(d, a) == comp(d, b)) { double w = (1 + 0.5 * ((d + 2 * a + b) % 3)) * (1 + st); if (a == i && b == j) s -= w; if (i == j && (a == i || b == i)) s += w; }
  if ((kt[d] & 1) && i == j) s += 0.5 * (st + 1); return s; }
static double rval(int d, int i) { return (kt[d] == 0 && i == 0) || (kt[d] == 2 && i < 2) ? 2 : 0; }
static int kd1(int d) { return kt[d] == 0 ? 1 : kt[d] == 2 ? 2 : 0; } // kernel of K
static int kd2(int d) { return kt[d] == 1 ? 0 : kt[d] == 2 ? 2 : 1; } // kernel of the part of K without mass
static void invert(int n, std::vector<double> A, std::vector<double> &I) { I.assign(n * n, 0.0); for (int i = 0; i < n; i++) I[i * n + i] = 1; for (int k = 0; k < n; k++) { int p = k; for (int i = k + 1; i < n; i++) if (std::fabs(A[i * n + k]) > std::fabs(A[p * n + k])) p = i; if (std::fabs(A[p * n + k]) < 1e-9) sym_reject("singular"); for (int j = 0; j < n; j++) { std::swap(A[k * n + j], A[p * n + j]); std::swap(I[k * n + j], I[p * n + j]); } double v = A[k * n + k]; for (int j = 0; j < n; j++) { A[k * n + j] /= v; I[k * n + j] /= v; } for (int i = 0; i < n; i++) if (i != k) { double f = A[i * n + k]; if (f != 0) for (int j = 0; j < n; j++) { A[i * n + j] -= f * A[k * n + j]; I[i * n + j] -= f * I[k * n + j]; } } } }
struct OpenE : EqualityConstrains<double> {};
static const double TOL = 1e-6;
static void near(double a, double b, const char *l) { sym_assert_near_d(a, b, TOL, l); }
static int owner(int d) { int r = 0; while (rb[r + 1] <= d) r++; return r; }
static void rankmain(int r) {
  es_threads(threads); es_mpi(); info::ecf = (ECF *)calloc(1, sizeof(ECF)); FETIConfiguration &conf = *(FETIConfiguration *)calloc(1, sizeof(FETIConfiguration));
  bool conj = what & 2, expl = what & 1, lu = what & 4, gen = what & 64, hyb = what & 128; auto kdim = [&](int d) { return conj ? kd2(d) : kd1(d); }; conf.projector = conj ? FETIConfiguration::PROJECTOR::CONJUGATE : FETIConfiguration::PROJECTOR::ORTHOGONAL;
  if (lu) conf.projector_opt = FETIConfiguration::PROJECTOR_OPT::WITH_FACTORS;
  conf.iterative_solver = FETIConfiguration::ITERATIVE_SOLVER::PCG;
  FETI<double> &feti = *new FETI<double>(conf); step::Step step{}; int b = rb[r], e = rb[r + 1], nd = e - b;
  DecompositionFETI &dc = *new DecompositionFETI(); feti.decomposition = &dc; dc.dbegin = b; dc.dend = e; dc.dtotal = D;
  std::vector<int> loc; for (int q = 0; q < np; q++) for (int n = 0; n < N; n++) if (owner(dm[n][0]) == q) { bool mine = false; for (int k = 0; k < mult[n]; k++) mine |= dm[n][k] >= b && dm[n][k] < e; if (mine) loc.push_back(n); }
  std::vector<char> isn(np, 0); for (int n : loc) for (int k = 0; k < mult[n]; k++) isn[owner(dm[n][k])] = 1;
  for (int q = 0; q < np; q++) if (q != r && isn[q]) { dc.neighbors.push_back(q); dc.neighDomain.push_back(rb[q]); } dc.neighDomain.push_back(b);
  std::vector<esint> dist(1, 0); std::vector<DecompositionFETI::DIndex> data; for (int n : loc) { for (int k = 0; k < mult[n]; k++) data.push_back({dm[n][k], di[n][k]}); dist.push_back(data.size()); }
  dc.dmap = new serializededata<esint, DecompositionFETI::DIndex>(tarray<esint>(threads, dist), tarray<DecompositionFETI::DIndex>(threads, data));
  feti.K.resize(nd); feti.f.resize(nd); feti.x.resize(nd); feti.BtL.resize(nd); feti.ineqBtL.resize(nd); feti.R1.resize(nd); feti.KR1.resize(nd); feti.RegMat.resize(nd);
  auto setK = [&](int st) { for (int d = b; d < e; d++) { auto &K = feti.K[d - b]; int n = nn[d]; if (st == 0) { K.type = Matrix_Type::REAL_SYMMETRIC_POSITIVE_DEFINITE; K.shape = Matrix_Shape::UPPER; K.resize(n, n, n * (n + 1) / 2); } int z = 0; for (int i = 0; i < n; i++) { K.rows[i] = z; for (int j = i; j < n; j++) { K.cols[z] = j; K.vals[z++] = kval(d, i, j, st); } } K.rows[n] = z;
      if (st == 0) { feti.f[d - b].resize(n); feti.x[d - b].resize(n); feti.BtL[d - b].resize(n); feti.ineqBtL[d - b].resize(n); auto &R = feti.RegMat[d - b]; int nz = kd1(d); R.resize(n, n, nz); R.type = K.type; R.shape = K.shape; z = 0; for (int i = 0; i < n; i++) { R.rows[i] = z; if (rval(d, i) != 0) { R.cols[z] = i; R.vals[z++] = rval(d, i); } } R.rows[n] = z; }
      for (auto *RR : {&feti.R1[d - b], &feti.KR1[d - b]}) { int kd = RR == &feti.R1[d - b] ? kd1(d) : kd2(d); RR->resize(kd, n); for (int k = 0; k < kd; k++) for (int i = 0; i < n; i++) RR->vals[k * n + i] = kt[d] == 2 ? (k == 0 ? 1.0 : (i % 2 ? 2.0 : -1.0)) : 1.0; }
      for (int i = 0; i < n; i++) feti.f[d - b].vals[i] = ff[st][off[d] + i]; } };
  setK(0);
  Vector_Distributed<Vector_Sparse, double> dir; std::vector<int> dn; for (size_t i = 0; i < loc.size(); i++) if (fixedn[loc[i]]) dn.push_back(i); dir.cluster.resize(loc.size(), dn.size());
  for (size_t i = 0; i < dn.size(); i++) { dir.cluster.indices[i] = dn[i]; dir.cluster.vals[i] = dval[0][loc[dn[i]]]; }
  EqualityConstrains<double> eq; eq.set(step, feti, dir); eq.update(step, feti, dir);
  // ---- identity of the multipliers
  int L = feti.lambdas.size; std::vector<int> key(L, -1), nrk(L, 0); { int l = 0; for (size_t i = 0; i < feti.lambdas.cmap.size(); i += feti.lambdas.cmap[i + 1] + 2) for (int k = 0; k < feti.lambdas.cmap[i]; k++, l++) { sym_assert(l < L, "multiplier map size"); if (l < L) nrk[l] = feti.lambdas.cmap[i + 1]; } sym_assert(l == L, "multiplier map covers all multipliers"); }
  sym_assert((int)feti.B1.size() == nd && (int)feti.D2C.size() == nd, "constraint matrix for each domain");
  for (int d = 0; d < nd; d++) { auto &B = feti.B1[d]; sym_assert(B.nrows == (int)feti.D2C[d].size() && B.ncols == nn[b + d], "constraint matrix size"); for (int i = 0; i < B.nrows; i++) { int l = feti.D2C[d][i]; sym_assert(l >= 0 && l < L && (i == 0 || feti.D2C[d][i - 1] < l), "multiplier index"); for (int c = B.rows[i]; c < B.rows[i + 1]; c++) { int n = nodes[b + d][B.cols[c]]; int kk = n * 2 * MD + (nrk[l] == 1 ? MD + b + d : nrk[l] - 1); sym_assert(key[l] == -1 || key[l] == kk, "all entries of a multiplier belong to one node"); key[l] = kk; } } }
  std::vector<int> cnt(MK, 0), own(MK, 0), gcnt(MK, 0), gown(MK, 0); std::vector<double> Bl(MK * MF, 0.0), Bg(MK * MF, 0.0), cl(MK, 0.0);
  sym_assert(feti.lambdas.intervals.size() == 1 && feti.lambdas.intervals[0].halo + feti.lambdas.intervals[0].size == L && feti.lambdas.equalities == L && feti.c.size == L, "multiplier intervals");
  for (int l = 0; l < L; l++) { sym_assert(key[l] >= 0, "multiplier without an entry"); sym_assert(cnt[key[l]] == 0, "multiplier twice on a process"); cnt[key[l]]++; if (l >= feti.lambdas.intervals[0].halo) own[key[l]]++; cl[key[l]] = feti.c.vals[l]; }
  for (int d = 0; d < nd; d++) { auto &B = feti.B1[d]; for (int i = 0; i < B.nrows; i++) for (int c = B.rows[i]; c < B.rows[i + 1]; c++) Bl[key[feti.D2C[d][i]] * MF + off[b + d] + B.cols[c]] += B.vals[c]; }
  MPI_Allreduce(cnt.data(), gcnt.data(), MK, MPI_INT, MPI_SUM, MPI_COMM_WORLD); MPI_Allreduce(own.data(), gown.data(), MK, MPI_INT, MPI_SUM, MPI_COMM_WORLD); MPI_Allreduce(Bl.data(), Bg.data(), MK * MF, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
  std::vector<int> act; for (int k = 0; k < MK; k++) if (gcnt[k]) { act.push_back(k); sym_assert(gown[k] == 1, "exactly one process owns each multiplier"); } int A = act.size(), M = off[D];
  auto BG = [&](int a, int m) { return Bg[act[a] * MF + m]; }; std::vector<int> at(MK, -1); for (int a = 0; a < A; a++) at[act[a]] = a;
  // a multiplier is present on every process that holds one of its entries
  for (int a = 0; a < A; a++) { bool need = false; for (int d = b; d < e; d++) for (int i = 0; i < nn[d]; i++) need |= BG(a, off[d] + i) != 0; sym_assert(cnt[act[a]] == need, "multiplier stored exactly on the processes it connects"); }
  std::vector<double> cg(A, 0.0); for (int a = 0; a < A; a++) { int k = act[a]; if (k % (2 * MD) >= MD) cg[a] = dval[0][k / (2 * MD)]; if (cnt[k]) near(cl[k], cg[a], "prescribed value of a constraint"); }
  if (what & 8) { // constraints are equivalent to continuity and prescribed values
    std::vector<double> g(A); bool small = true; for (int a = 0; a < A; a++) { double s = -cg[a]; for (int m = 0; m < M; m++) if (BG(a, m) != 0) s += BG(a, m) * uu[m]; g[a] = s; small &= (s <= 1e-9) & (s >= -1e-9); }
    bool cont = true; for (int n = 0; n < N; n++) { for (int k = 1; k < mult[n]; k++) { double x = uu[off[dm[n][k]] + di[n][k]] - uu[off[dm[n][k - 1]] + di[n][k - 1]]; cont &= (x <= 1e-7) & (x >= -1e-7); } if (fixedn[n]) { double x = uu[off[dm[n][0]] + di[n][0]] - dval[0][n]; cont &= (x <= 1e-7) & (x >= -1e-7); } }
    sym_assert(!small | cont, "constraints force equal copies and prescribed values");
    for (int a = 0; a < A; a++) { double s = -cg[a]; for (int n = 0; n < N; n++) { double v = fixedn[n] ? dval[0][n] : uu[n]; for (int k = 0; k < mult[n]; k++) { double w = BG(a, off[dm[n][k]] + di[n][k]); if (w != 0) s += w * v; } } near(s, 0, "continuous fields with the prescribed values satisfy the constraints"); }
    for (int d = 0; d < nd; d++) for (int i = 0; i < nn[b + d]; i++) feti.x[d].vals[i] = uu[off[b + d] + i]; eq.enforce(step, feti, dir);
    for (int d = 0; d < nd; d++) for (int i = 0; i < nn[b + d]; i++) near(feti.x[d].vals[i], fixedn[nodes[b + d][i]] ? dval[0][nodes[b + d][i]] : uu[off[b + d] + i], "enforced values"); }
  Dual_Map::set(feti); Vector_Dual<double>::initBuffers();
  { Vector_Dual<double> y; for (int l = 0; l < L; l++) y.vals[l] = con[r][key[l]]; y.synchronize(); std::vector<int> has(8 * MK, 0), gh(8 * MK, 0); for (int l = 0; l < L; l++) has[r * MK + key[l]] = 1; MPI_Allreduce(has.data(), gh.data(), 8 * MK, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    for (int l = 0; l < L; l++) { double s = 0; for (int q = 0; q < np; q++) if (gh[q * MK + key[l]]) s += con[q][key[l]]; near(y.vals[l], s, "synchronised multiplier is the sum over processes"); }
    Matrix_Dual<double> Y(2); for (int k = 0; k < 2; k++) for (int l = 0; l < L; l++) Y.vals[k * L + l] = con[r][key[l]] * (k ? 1 : -2); Y.synchronize(); for (int k = 0; k < 2; k++) for (int l = 0; l < L; l++) { double s = 0; for (int q = 0; q < np; q++) if (gh[q * MK + key[l]]) s += con[q][key[l]] * (k ? 1 : -2); near(Y.vals[k * L + l], s, "synchronised block of multipliers is the sum over processes"); } }
  Vector_Dual<double> x, y, z; for (int l = 0; l < L; l++) { x.vals[l] = lam[key[l]]; y.vals[l] = 3; z.vals[l] = 7 + key[l] % 5; }
  { double s = 0; for (int a = 0; a < A; a++) s += lam[act[a]] * (7 + act[a] % 5); near(x.dot(z), s, "dual scalar product counts each multiplier once"); x.copyToWithoutHalo(y); y.synchronize(); for (int l = 0; l < L; l++) near(y.vals[l], lam[key[l]], "owned parts of multipliers add up"); }
  // ---- operators
  bool sing = false; for (int d = 0; d < D; d++) sing |= kd1(d) > 0;
  auto dualp = [&](int d1, int d2) { if (d1 == d2 || owner(d1) != owner(d2)) return false; if (topo == 3) return d1 - d2 == 1 || d2 - d1 == 1; int c = 0; for (int i = 0; i < nn[d1]; i++) for (int j = 0; j < nn[d2]; j++) c += nodes[d1][i] == nodes[d2][j]; return c > (topo == 1 ? 1 : 0); };
  if (hyb) { std::vector<char> seen(D, 0); seen[b] = 1; for (int k = 0; k < D; k++) for (int d = b; d < e; d++) for (int o = b; o < e; o++) if (seen[d] && dualp(d, o)) seen[o] = 1; for (int d = b; d < e; d++) if (!seen[d]) sym_reject("cluster is not continuous");
    info::mesh = (Mesh *)calloc(1, sizeof(Mesh)); info::mesh->domains = (DomainStore *)calloc(1, sizeof(DomainStore)); info::mesh->clusters = (ClusterStore *)calloc(1, sizeof(ClusterStore)); info::mesh->clusters->size = 1; info::mesh->domains->size = nd; info::mesh->domains->cluster.assign(nd, 0);
    std::vector<esint> dd(1, 0), dx; for (int d = b; d < e; d++) { for (int o = b; o < e; o++) if (dualp(d, o)) dx.push_back(o - b); dd.push_back(dx.size()); } info::mesh->domains->localDual = new serializededata<esint, esint>(tarray<esint>(threads, dd), tarray<esint>(threads, dx)); conf.method = FETIConfiguration::METHOD::HYBRID_FETI; }
  DualOperator<double> *F;
  if (gen) {
#ifdef GENERAL
    int of = var % 3, sp = (var / 3) % 3, si = var / 9;
    { auto &c = conf.dualop_totalfeti_explicit_generalschur_cpu_config; using C = std::remove_reference_t<decltype(c)>; c.order_F = of == 1 ? C::MATRIX_ORDER::ROW_MAJOR : of == 2 ? C::MATRIX_ORDER::COL_MAJOR : C::MATRIX_ORDER::AUTO; c.mainloop_update_split = sp == 1 ? C::MAINLOOP_UPDATE_SPLIT::COMBINED : sp == 2 ? C::MAINLOOP_UPDATE_SPLIT::SEPARATE : C::MAINLOOP_UPDATE_SPLIT::AUTO; c.schur_impl = si ? C::SCHUR_IMPL::SPARSE_SOLVER : C::SCHUR_IMPL::AUTO; }
    { auto &c = conf.dualop_hybridfeti_explicit_generalschur_cpu_config; using C = std::remove_reference_t<decltype(c)>; c.order_F = of == 1 ? C::MATRIX_ORDER::ROW_MAJOR : of == 2 ? C::MATRIX_ORDER::COL_MAJOR : C::MATRIX_ORDER::AUTO; c.mainloop_update_split = sp == 1 ? C::MAINLOOP_UPDATE_SPLIT::COMBINED : sp == 2 ? C::MAINLOOP_UPDATE_SPLIT::SEPARATE : C::MAINLOOP_UPDATE_SPLIT::AUTO; c.schur_impl = si ? C::SCHUR_IMPL::SPARSE_SOLVER : C::SCHUR_IMPL::AUTO; }
    if (hyb) F = expl ? (DualOperator<double> *)new HybridFETIExplicitGeneralSchurCpu<double, int>(feti) : (DualOperator<double> *)new HybridFETIImplicitGeneralSparseSolverCpu<double, int>(feti);
    else F = expl ? (DualOperator<double> *)new TotalFETIExplicitGeneralSchurCpu<double, int>(feti) : (DualOperator<double> *)new TotalFETIImplicitGeneralSparseSolverCpu<double, int>(feti);
#endif
  } else if (hyb) F = new HybridFETIImplicit<double>(feti); else F = expl ? (DualOperator<double> *)new TotalFETIExplicit<double>(feti) : (DualOperator<double> *)new TotalFETIImplicit<double>(feti);
  feti.dualOperator = F; Projector<double> *P;
  if (hyb) P = conj ? (Projector<double> *)new HFETIConjugateSymmetric<double>(feti) : (Projector<double> *)new HFETIOrthogonalSymmetric<double>(feti); else P = conj ? (Projector<double> *)new TFETIConjugateSymmetric<double>(feti) : (Projector<double> *)new TFETIOrthogonalSymmetric<double>(feti);
  feti.projector = P; std::vector<Preconditioner<double> *> pc; std::vector<int> pk;
  if (what & 16) { pc.push_back(new Lumped<double>(feti)); pk.push_back(0); } if (what & 32) { pc.push_back(new Dirichlet<double>(feti)); pk.push_back(1); } if (what & 256) { pc.push_back(new DirichletImplicit<double>(feti)); pk.push_back(1); }
#ifdef GENERAL
  if (what & 512) { pc.push_back(new DirichletGeneralSchur<double, int>(feti, 'C')); pk.push_back(1); }
#endif
  F->setup(); for (auto *p : pc) p->setup();
  F->set(step); P->set(step); for (auto *p : pc) p->set(step); int steps = sym_param(8, 1);
  for (int st = 0; st < steps; st++) {
    if (st) { setK(st); feti.updated.K = true; feti.updated.B = false; for (size_t i = 0; i < dn.size(); i++) dir.cluster.vals[i] = dval[1][loc[dn[i]]]; eq.update(step, feti, dir); for (int a = 0; a < A; a++) { int k = act[a]; if (k % (2 * MD) >= MD) cg[a] = dval[1][k / (2 * MD)]; } }
    P->orthonormalizeKernels(step); F->update(step);
    // dense definition
    std::vector<double> Kp(M * M, 0.0); if (!hyb) for (int d = 0; d < D; d++) { int n = nn[d]; std::vector<double> a(n * n), ai; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i * n + j] = kval(d, std::min(i, j), std::max(i, j), st) + (i == j ? rval(d, i) : 0); invert(n, a, ai); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) Kp[(off[d] + i) * M + off[d] + j] = ai[i * n + j]; }
    int KD = 0; std::vector<int> ko(D + 1, 0); for (int d = 0; d < D; d++) { if (hyb) { ko[d] = owner(d) * kdim(0); KD = np * kdim(0); } else ko[d + 1] = KD += kdim(d); } std::vector<double> R(KD * M + 1, 0.0), G(KD * A + 1, 0.0);
    std::vector<double> Rl(KD * M + 1, 0.0), nrm(kdim(0) * kdim(0) + 1, 0.0); for (int d = b; d < e; d++) { auto &rr = conj ? feti.KR1[d - b] : feti.R1[d - b]; for (int k = 0; k < kdim(d); k++) { double s = 0; for (int i = 0; i < nn[d]; i++) { s += rr.vals[k * nn[d] + i] * rr.vals[k * nn[d] + i]; Rl[(ko[d] + k) * M + off[d] + i] = rr.vals[k * nn[d] + i]; } if (!hyb) near(s, 1, "kernel vectors have unit length"); else nrm[k * kdim(0) + k] += s; for (int i = 0; i < nn[d] && kt[d] != 3; i++) { double t = 0; for (int j = 0; j < nn[d]; j++) t += kval(d, std::min(i, j), std::max(i, j), st) * rr.vals[k * nn[d] + j]; near(t, 0, "kernel vectors stay in the kernel"); } for (int q = 0; q < k; q++) { s = 0; for (int i = 0; i < nn[d]; i++) s += rr.vals[k * nn[d] + i] * rr.vals[q * nn[d] + i]; if (!hyb) near(s, 0, "kernel vectors are orthogonal"); else nrm[k * kdim(0) + q] += s; } } }
    if (hyb) for (int k = 0; k < kdim(0); k++) for (int q = 0; q <= k; q++) near(nrm[k * kdim(0) + q], k == q, "kernel vectors of a cluster are orthonormal");
    MPI_Allreduce(Rl.data(), R.data(), KD * M + 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    // hybrid: K with averages over the faces between the domains of a cluster glued, orthogonal to the kernel of the cluster
    if (hyb) for (int r_ = 0; r_ < np; r_++) { int db = rb[r_], de = rb[r_ + 1], m0 = off[db], m = off[de] - m0; std::vector<std::vector<double> > b0; int kc = sing ? kd1(0) : kd2(0);
      for (int d1 = db; d1 < de; d1++) for (int d2 = d1 + 1; d2 < de; d2++) if (dualp(d1, d2)) for (int k = 0; k < kc; k++) { std::vector<double> row(m, 0.0); for (int i = 0; i < nn[d1]; i++) for (int j = 0; j < nn[d2]; j++) if (nodes[d1][i] == nodes[d2][j]) { double w = kt[d1] == 2 ? (k == 0 ? 1.0 : (i % 2 ? 2.0 : -1.0)) : 1.0; row[off[d1] - m0 + i] += w; row[off[d2] - m0 + j] -= w; } b0.push_back(row); }
      if (sing) for (int k = 0; k < kdim(0); k++) { std::vector<double> row(m); for (int i = 0; i < m; i++) row[i] = R[(ko[db] + k) * M + m0 + i]; b0.push_back(row); }
      int z = m + b0.size(); std::vector<double> a(z * z, 0.0), ai; for (int d = db; d < de; d++) for (int i = 0; i < nn[d]; i++) for (int j = 0; j < nn[d]; j++) a[(off[d] - m0 + i) * z + off[d] - m0 + j] = kval(d, std::min(i, j), std::max(i, j), st); for (size_t q = 0; q < b0.size(); q++) for (int i = 0; i < m; i++) a[i * z + m + q] = a[(m + q) * z + i] = b0[q][i];
      invert(z, a, ai); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) Kp[(m0 + i) * M + m0 + j] = ai[i * z + j]; }
    bool modk = hyb && sing; // operators of the hybrid method are defined up to the kernels of the clusters
    std::vector<double> BK(A * M, 0.0), FF(A * A, 0.0); for (int a = 0; a < A; a++) for (int m = 0; m < M; m++) if (BG(a, m) != 0) for (int q = 0; q < M; q++) BK[a * M + q] += BG(a, m) * Kp[m * M + q]; for (int a = 0; a < A; a++) for (int c = 0; c < A; c++) for (int m = 0; m < M; m++) if (BG(c, m) != 0) FF[a * A + c] += BK[a * M + m] * BG(c, m);
    auto mulF = [&](const std::vector<double> &v) { std::vector<double> o(A, 0.0); for (int a = 0; a < A; a++) for (int c = 0; c < A; c++) if (FF[a * A + c] != 0) o[a] += FF[a * A + c] * v[c]; return o; };
    std::vector<double> X(A); for (int a = 0; a < A; a++) X[a] = lam[act[a]]; std::vector<double> FX = mulF(X);
    for (int l = 0; l < L; l++) { int a = at[key[l]]; double s = -cg[a]; for (int m = 0; m < M; m++) if (BK[a * M + m] != 0) s += BK[a * M + m] * ff[st][m]; if (!modk) near(F->d.vals[l], s, "dual right-hand side"); }
    F->apply(x, y); for (int l = 0; l < L; l++) if (!modk) near(y.vals[l], FX[at[key[l]]], "dual operator equals B K+ Bt");
    { Matrix_Dual<double> mx(2), my(2); for (int l = 0; l < L; l++) { mx.vals[l] = x.vals[l]; mx.vals[L + l] = z.vals[l]; my.vals[l] = my.vals[L + l] = 9; } F->apply(mx, my); std::vector<double> zz(A); for (int a = 0; a < A; a++) zz[a] = 7 + act[a] % 5; auto Fz = mulF(zz); for (int l = 0; l < L; l++) { near(my.vals[l], modk ? y.vals[l] : FX[at[key[l]]], "dual operator on a block, first vector"); if (!modk) near(my.vals[L + l], Fz[at[key[l]]], "dual operator on a block, second vector"); } }
    std::vector<Vector_Dense<double> > pr(nd); for (int d = 0; d < nd; d++) { pr[d].resize(nn[b + d]); for (int i = 0; i < nn[b + d]; i++) pr[d].vals[i] = 5; }
    std::vector<double> rhs(M); for (int m = 0; m < M; m++) { rhs[m] = ff[st][m]; for (int a = 0; a < A; a++) if (BG(a, m) != 0) rhs[m] -= BG(a, m) * X[a]; }
    std::vector<double> prim(M, 0.0); for (int m = 0; m < M; m++) for (int q = 0; q < M; q++) if (Kp[m * M + q] != 0) prim[m] += Kp[m * M + q] * rhs[q];
    F->toPrimal(x, pr); for (int d = 0; d < nd; d++) for (int i = 0; i < nn[b + d]; i++) if (!modk) near(pr[d].vals[i], prim[off[b + d] + i], "primal solution K+ (f - Bt x)");
    if (!expl && !hyb) { F->BtL(x, pr); for (int d = 0; d < nd; d++) for (int i = 0; i < nn[b + d]; i++) near(pr[d].vals[i], ff[st][off[b + d] + i] - rhs[off[b + d] + i], "Bt x"); }
    // projector
    for (int k = 0; k < KD; k++) for (int a = 0; a < A; a++) for (int m = 0; m < M; m++) G[k * A + a] -= R[k * M + m] * BG(a, m);
    std::vector<double> S(KD * KD + 1, 0.0), SI; std::vector<double> GF(KD * A + 1, 0.0); for (int k = 0; k < KD; k++) for (int a = 0; a < A; a++) if (conj) { for (int c = 0; c < A; c++) GF[k * A + a] += G[k * A + c] * FF[c * A + a]; } else GF[k * A + a] = G[k * A + a];
    for (int k = 0; k < KD; k++) for (int q = 0; q < KD; q++) for (int a = 0; a < A; a++) S[k * KD + q] += GF[k * A + a] * G[q * A + a]; invert(KD, S, SI);
    P->update(step);
    if (!conj) for (int k = 0; k < KD; k++) { double s = 0; for (int m = 0; m < M; m++) if (R[k * M + m] != 0) s -= R[k * M + m] * ff[st][m]; near(P->e.vals[k], s, "kernel right-hand side"); }
    auto coarse = [&](const std::vector<double> &g) { std::vector<double> o(KD, 0.0); for (int k = 0; k < KD; k++) for (int q = 0; q < KD; q++) if (SI[k * KD + q] != 0) o[k] += SI[k * KD + q] * g[q]; return o; };
    auto mulG = [&](const std::vector<double> &G_, const std::vector<double> &v) { std::vector<double> o(KD, 0.0); for (int k = 0; k < KD; k++) for (int a = 0; a < A; a++) if (G_[k * A + a] != 0) o[k] += G_[k * A + a] * v[a]; return o; };
    auto mulGt = [&](const std::vector<double> &G_, const std::vector<double> &v) { std::vector<double> o(A, 0.0); for (int a = 0; a < A; a++) for (int k = 0; k < KD; k++) if (G_[k * A + a] != 0) o[a] += G_[k * A + a] * v[k]; return o; };
    auto chk = [&](const Vector_Dual<double> &v, const std::vector<double> &w, const char *l_) { for (int l = 0; l < L; l++) near(v.vals[l], w[at[key[l]]], l_); };
    std::vector<double> c0 = coarse(mulG(GF, X)), q0 = mulGt(G, c0), w0(A); for (int a = 0; a < A; a++) w0[a] = X[a] - q0[a];
    P->apply(x, y); chk(y, w0, "projection of the multipliers");
    { auto c1 = coarse(mulG(G, X)), t = mulGt(GF, c1); std::vector<double> w(A); for (int a = 0; a < A; a++) w[a] = X[a] - t[a]; P->applyT(x, y); chk(y, w, "transposed projection of the multipliers"); chk(x, X, "input of the projection is not changed"); }
    { auto c1 = coarse(mulG(G, X)); P->apply_GtintGGtG(x, y); chk(y, mulGt(G, c1), "complementary projection");
      if (KD) { for (int d = 0; d < nd; d++) for (int i = 0; i < nn[b + d]; i++) pr[d].vals[i] = 5; P->apply_RinvGGtG(x, pr); for (int d = b; d < e; d++) for (int i = 0; i < nn[d]; i++) { double s = 0; if (!conj) for (int k = ko[d]; k < ko[d] + kdim(d); k++) s += R[k * M + off[d] + i] * c1[k]; near(pr[d - b].vals[i], s, "rigid body correction"); } } }
    { Vector_Kernel<double> v; std::vector<double> vv(kv, kv + KD); for (int k = 0; k < KD; k++) v.vals[k] = kv[k]; P->apply_GtintGGt(v, y); chk(y, mulGt(G, coarse(vv)), "initial multipliers from the kernel right-hand side");
      for (int d = 0; d < nd; d++) for (int i = 0; i < nn[b + d]; i++) pr[d].vals[i] = 5; if (!conj) P->apply_R(v, pr); if (!conj) for (int d = b; d < e; d++) for (int i = 0; i < nn[d]; i++) { double s = 0; for (int k = ko[d]; k < ko[d] + kdim(d); k++) s += R[k * M + off[d] + i] * kv[k]; near(pr[d - b].vals[i], s, "combination of kernel vectors"); }
      if (lu && KD) { Vector_Kernel<double> a1, a2; P->apply_invL(v, a1); P->apply_invU(a1, a2); if (!conj) { auto c = coarse(vv); for (int k = 0; k < KD; k++) near(a2.vals[k], c[k], "factors of the coarse problem"); P->apply_GtinvU(a1, y); chk(y, mulGt(G, c), "factors applied to multipliers"); P->apply_invLG(x, a1); P->apply_invU(a1, a2); c = coarse(mulG(G, X)); for (int k = 0; k < KD; k++) near(a2.vals[k], c[k], "factors applied to the projected multipliers"); } } }
    if (modk) { // multipliers in balance with the load
      std::vector<double> e0(KD), lv(A); for (int k = 0; k < KD; k++) { e0[k] = 0; for (int m = 0; m < M; m++) if (R[k * M + m] != 0) e0[k] -= R[k * M + m] * ff[st][m]; } auto l0 = mulGt(G, coarse(e0)); for (int a = 0; a < A; a++) lv[a] = l0[a] + w0[a];
      Vector_Dual<double> xv; for (int l = 0; l < L; l++) xv.vals[l] = lv[at[key[l]]]; F->apply(xv, y);
      std::vector<double> g(M), u(M, 0.0); for (int m = 0; m < M; m++) { g[m] = ff[st][m]; for (int a = 0; a < A; a++) if (BG(a, m) != 0) g[m] -= BG(a, m) * lv[a]; } for (int m = 0; m < M; m++) for (int q = 0; q < M; q++) if (Kp[m * M + q] != 0) u[m] += Kp[m * M + q] * g[q];
      std::vector<double> res(A), dl(A, 0.0), dg(A, 0.0); for (int a = 0; a < A; a++) { res[a] = -cg[a]; for (int m = 0; m < M; m++) if (BG(a, m) != 0) res[a] += BG(a, m) * u[m]; } auto pres = mulGt(G, coarse(mulG(G, res)));
      for (int l = 0; l < L; l++) y.vals[l] = F->d.vals[l] - y.vals[l]; P->apply(y, z); for (int l = 0; l < L; l++) { int a = at[key[l]]; near(z.vals[l], res[a] - pres[a], "projected residual of the glued problem"); } for (int l = 0; l < L; l++) z.vals[l] = 7 + key[l] % 5;
      for (int d = 0; d < nd; d++) for (int i = 0; i < nn[b + d]; i++) pr[d].vals[i] = 5; F->toPrimal(xv, pr); for (int k = 0; k < kdim(b); k++) { double s = 0; for (int d = b; d < e; d++) for (int i = 0; i < nn[d]; i++) s += R[(ko[b] + k) * M + off[d] + i] * pr[d - b].vals[i]; for (int d = b; d < e; d++) for (int i = 0; i < nn[d]; i++) pr[d - b].vals[i] -= s * R[(ko[b] + k) * M + off[d] + i]; }
      for (int d = b; d < e; d++) for (int i = 0; i < nn[d]; i++) near(pr[d - b].vals[i], u[off[d] + i], "primal solution of the hybrid method up to the kernel"); }
    for (size_t p_ = 0; p_ < pc.size(); p_++) { pc[p_]->update(step); std::vector<double> t(M, 0.0), kt_(M, 0.0); for (int m = 0; m < M; m++) t[m] = ff[st][m] - rhs[m];
      if (pk[p_] == 0) for (int d = 0; d < D; d++) for (int i = 0; i < nn[d]; i++) for (int j = 0; j < nn[d]; j++) kt_[off[d] + i] += kval(d, std::min(i, j), std::max(i, j), st) * t[off[d] + j];
      else for (int d = 0; d < D; d++) { std::vector<int> I, Sx; for (int i = 0; i < nn[d]; i++) { bool on = false; for (int a = 0; a < A; a++) on |= BG(a, off[d] + i) != 0; (on ? Sx : I).push_back(i); } int ni = I.size(); std::vector<double> kii(ni * ni + 1), kin; for (int i = 0; i < ni; i++) for (int j = 0; j < ni; j++) kii[i * ni + j] = kval(d, std::min(I[i], I[j]), std::max(I[i], I[j]), st); invert(ni, kii, kin); for (int i : Sx) for (int j : Sx) { double v = kval(d, std::min(i, j), std::max(i, j), st); for (int p = 0; p < ni; p++) for (int q = 0; q < ni; q++) v -= kval(d, std::min(i, I[p]), std::max(i, I[p]), st) * kin[p * ni + q] * kval(d, std::min(j, I[q]), std::max(j, I[q]), st); kt_[off[d] + i] += v * t[off[d] + j]; } }
      std::vector<double> w(A, 0.0); for (int a = 0; a < A; a++) for (int m = 0; m < M; m++) if (BG(a, m) != 0) w[a] += BG(a, m) * kt_[m]; pc[p_]->apply(x, y); chk(y, w, pk[p_] ? "Dirichlet preconditioner equals B S Bt" : "lumped preconditioner equals B K Bt"); }
  }
  sym_reach("end");
}
static double bd(const char *n) { double v = sym_double(n); sym_assume((v >= -10) & (v <= 10)); return v; }
extern "C" void harness() {
  topo = sym_param(0, 0); D = sym_param(1, 2); np = sym_param(2, 1); what = sym_param(3, 8); threads = sym_param(4, 1);
  topology();
  rb[0] = 0; for (int r = 1; r < np; r++) rb[r] = sym_choose(nm("rb", r).c_str(), rb[r - 1] + 1, D - (np - r)); rb[np] = D;
  int steps = sym_param(8, 1);
  for (int n = 0; n < N; n++) for (int s = 0; s < steps; s++) if (fixedn[n]) dval[s][n] = bd(nm("dir", s, n).c_str());
  int M = off[D]; if (what & 8) for (int m = 0; m < M; m++) uu[m] = bd(nm("u", m).c_str());
  for (int s = 0; s < steps; s++) for (int m = 0; m < M; m++) ff[s][m] = bd(nm("f", s, m).c_str());
  for (int n = 0; n < N; n++) for (int k = 0; k < 2 * MD; k++) { bool pos = k >= MD ? fixedn[n] : (!fixedn[n] && k >= 1 && k < mult[n]); if (pos) { lam[n * 2 * MD + k] = bd(nm("lam", n, k).c_str()); for (int r = 0; r < np; r++) con[r][n * 2 * MD + k] = bd(nm((std::string("con") + char('a' + r)).c_str(), n, k).c_str()); } }
  for (int i = 0; i < 10; i++) kv[i] = bd(nm("kv", i).c_str());
  if ((what & 65) == 65) { var = sym_choose("variant", 0, 8); if (sym_param(9, 0)) var += 9; }
  if (what & 128) for (int r = 0; r < np; r++) if (rb[r + 1] - rb[r] < 2) sym_reject("hybrid needs more domains per cluster");
  mpi_choose_any = 0; mpi_run(np, rankmain);
}
