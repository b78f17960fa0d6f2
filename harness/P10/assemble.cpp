// distributed linear systems: what the patterns, mappings and synchronisation assemble is the sum of the element contributions
#include "es_env.h"
#include "esinfo/ecfinfo.h"
#include "config/ecf/ecf.h"
#include "esinfo/meshinfo.h"
#include "mesh/mesh.h"
#include "mesh/store/nodestore.h"
#include "mesh/store/elementstore.h"
#include "mesh/store/domainstore.h"
#include "mesh/store/boundaryregionstore.h"
#include "analysis/pattern/pattern.h"
#include "analysis/linearsystem/directsolver.h"
#include "wrappers/mklpdss/w.mkl.pdss.h"
#include "basis/containers/serializededata.h"
#include <cmath>
using namespace espreso;
Element Mesh::edata[(int)Element::CODE::SIZE];
enum { ME = 8, MG = 12, MKN = 4, MDM = 6, MDF = 24 };
// the global problem (shared by the ranks): elements sorted by domains, domains by ranks
SH static int NE, NG, ND, np, dofs, what, T, mult; SH static int en[ME], ec[ME][MKN], edom[ME], drank[MDM], owner[MG], pos[MG]; SH static unsigned nrank[MG], ndom[MG];
SH static int bface[ME], bnode[MG], dnode[MG]; // boundary line on the first two nodes of the element, node region, Dirichlet region
SH static double KE[ME][MDF][MDF], FE[ME][MDF], BE[ME][MDF][MDF], GE[ME][MDF], NV[MG][3], X[MG * 6], Y[MG * 6], DV[MG][6]; SH static int dset[6];
SH static double A[MG * 6][MG * 6], F[MG * 6];
static bool bit(unsigned m, int i) { return (m >> i) & 1; }
static double bd(const char *n) { double v = sym_double(n); if (what & 128) sym_assume((v >= -10) & (v <= 10)); return v; }
static void problem() {
  int topo = sym_param(0, 0); NE = sym_param(1, 3); ND = sym_param(2, 2); np = sym_param(3, 2); dofs = sym_param(4, 1); what = sym_param(5, 1); T = sym_param(6, 1); int per = sym_param(7, 0); mult = sym_param(8, 1);
  NG = 0; for (int e = 0; e < NE; e++) {
    if (topo == 0) { en[e] = 2; ec[e][0] = e; ec[e][1] = e + 1; }
    if (topo == 1) { en[e] = 3; ec[e][0] = e; ec[e][1] = e + 1; ec[e][2] = e + 2; }
    if (topo == 2) { en[e] = 2 + e % 2; for (int i = 0; i < en[e]; i++) ec[e][i] = (e + 2 * i) % 5; }
    if (topo == 3) { en[e] = 4; int x = e % 2, y = e / 2; ec[e][0] = 3 * y + x; ec[e][1] = 3 * y + x + 1; ec[e][2] = 3 * y + x + 4; ec[e][3] = 3 * y + x + 3; }
    if (topo == 4) { en[e] = 2; ec[e][0] = e; ec[e][1] = (e + 1) % NE; }
    if (topo == 5) { en[e] = 2; int m = sym_param(9, 4); ec[e][0] = e < m - 1 ? e : sym_choose(nm("ea", e).c_str(), 0, m - 2); ec[e][1] = e < m - 1 ? e + 1 : sym_choose(nm("eb", e).c_str(), ec[e][0] + 1, m - 1); } // free elements
    for (int i = 0; i < en[e]; i++) NG = std::max(NG, ec[e][i] + 1); }
  // which elements form the domains, which domains form the processes: every contiguous split
  for (int d = 0, e = 0; d < ND; d++) { int left = ND - 1 - d, n = d + 1 == ND ? NE - e : sym_choose(nm("de", d).c_str(), 1, NE - left - e); for (int i = 0; i < n; i++) edom[e++] = d; }
  for (int r = 0, d = 0; r < np; r++) { int left = np - 1 - r, n = r + 1 == np ? ND - d : sym_choose(nm("rd", r).c_str(), 1, ND - left - d); for (int i = 0; i < n; i++) drank[d++] = r; }
  // elements of a domain are sorted by their type
  for (int i = 0; i < NE; i++) for (int j = i + 1; j < NE; j++) if (edom[i] == edom[j] && en[j] < en[i]) { std::swap(en[i], en[j]); for (int k = 0; k < MKN; k++) std::swap(ec[i][k], ec[j][k]); }
  if (per) { int p[MG]; for (int i = 0; i < NG; i++) p[i] = per == 1 ? NG - 1 - i : (i * 2) % (NG | 1); if (per == 2 && NG % 2 == 0) for (int i = 0; i < NG; i++) p[i] = (i + NG / 2) % NG; for (int e = 0; e < NE; e++) for (int k = 0; k < en[e]; k++) ec[e][k] = p[ec[e][k]]; }
  for (int n = 0; n < NG; n++) { nrank[n] = ndom[n] = 0; for (int e = 0; e < NE; e++) for (int k = 0; k < en[e]; k++) if (ec[e][k] == n) { ndom[n] |= 1 << edom[e]; nrank[n] |= 1 << drank[edom[e]]; } owner[n] = 0; while (!bit(nrank[n], owner[n])) owner[n]++; }
  int c = 0; for (int r = 0; r < np; r++) for (int n = 0; n < NG; n++) if (owner[n] == r) pos[n] = c++;
  for (int r = 0; r < np; r++) { bool own = false; for (int n = 0; n < NG; n++) own |= owner[n] == r; if (!own) sym_reject("a process without unknowns"); }
  int df = dofs * mult; for (int e = 0; e < NE; e++) bface[e] = (e % 2 == 0); for (int n = 0; n < NG; n++) bnode[n] = n % 3 != 1;
  int dm = sym_param(10, 1); for (int n = 0; n < NG; n++) dnode[n] = dm < 0 ? sym_choose(nm("dir", n).c_str(), 0, 1) : bit(dm, n); for (int d = 0; d < df; d++) dset[d] = 1;
  if (sym_param(11, 0)) { bool any = false; for (int d = 0; d < dofs; d++) { int s = sym_choose(nm("dset", d).c_str(), 0, 1); any |= s; for (int m = 0; m < mult; m++) dset[m * dofs + d] = s; } if (!any) sym_reject("no component"); }
  bool sv = what & 16; // symbolic matrices, otherwise symbolic vectors
  for (int e = 0; e < NE; e++) { int s = en[e] * df; for (int i = 0; i < s; i++) { FE[e][i] = bd(nm("f", e, i).c_str()); if (bface[e] && i < 2 * df) GE[e][i] = bd(nm("g", e, i).c_str());
    for (int j = 0; j < s; j++) { bool full = what & 8; if (!full && j < i) { KE[e][i][j] = KE[e][j][i]; if (i < 2 * df) BE[e][i][j] = BE[e][j][i]; continue; } KE[e][i][j] = sv ? bd((nm("k", e) + nm("_", i, j)).c_str()) : ((i == j ? 20 : 0) + (e + 3 * i + 2 * j + i * j) % 7 - (i != j) * 3.5); if (bface[e] && i < 2 * df && j < 2 * df) BE[e][i][j] = sv ? bd((nm("b", e) + nm("_", i, j)).c_str()) : (e + 1) * 0.25 * (1 + i + j); } } }
  for (int n = 0; n < NG; n++) for (int d = 0; d < df; d++) { if (d < 3) NV[n][d] = bd(nm("n", n, d).c_str()); X[pos[n] * df + d] = bd(nm("x", pos[n] * df + d).c_str()); Y[pos[n] * df + d] = bd(nm("y", pos[n] * df + d).c_str()); DV[n][d] = bd(nm("v", n, d).c_str()); }
  for (int i = 0; i < NG * df; i++) { F[i] = 0; for (int j = 0; j < NG * df; j++) A[i][j] = 0; }
  // local ordering of an element: components first, then nodes
  for (int e = 0; e < NE; e++) { auto idx = [&](int i, int n) { return pos[ec[e][i % n]] * df + i / n; }; for (int i = 0; i < en[e] * df; i++) { F[idx(i, en[e])] += FE[e][i]; for (int j = 0; j < en[e] * df; j++) A[idx(i, en[e])][idx(j, en[e])] += KE[e][i][j]; }
    if (bface[e]) for (int i = 0; i < 2 * df; i++) { F[idx(i, 2)] += GE[e][i]; for (int j = 0; j < 2 * df; j++) A[idx(i, 2)][idx(j, 2)] += (what & 2) ? 0 : BE[e][i][j]; } }
}
static void arr(serializededata<esint, esint> *&s, const std::vector<std::vector<int>> &v, bool regular1 = false) {
  std::vector<std::vector<esint>> b(T), d(T); b[0].push_back(0); int tot = 0; for (size_t i = 0; i < v.size(); i++) { int t = i * T / v.size(); for (int x : v[i]) d[t].push_back(x); tot += v[i].size(); b[t].push_back(tot); }
  s = regular1 ? new serializededata<esint, esint>(1, tarray<esint>(d)) : new serializededata<esint, esint>(tarray<esint>(b), tarray<esint>(d)); }
static int lnode[MG], gnode[MG], nl, nh;
static int lid(int g) { return lnode[g]; }
template <class S> static void intervals(std::vector<ElementsInterval> &iv, std::vector<esint> &dist, S size, const std::vector<int> &es, int rank) {
  dist.assign(1, 0); int i = 0; for (int d = 0; d < ND; d++) if (drank[d] == rank) { int b = i; while (i < (int)es.size() && edom[es[i]] == d) { i++; if (i == (int)es.size() || edom[es[i]] != d || size(es[i]) != size(es[i - 1])) { ElementsInterval x; x.begin = b; x.end = i; x.domain = d; iv.push_back(x); b = i; } } dist.push_back(iv.size()); } }
static void mesh(int r) {
  Mesh *m = info::mesh = (Mesh *)calloc(1, sizeof(Mesh)); m->dimension = dofs < 2 ? 2 : dofs; m->nodes = new NodeStore(); m->elements = new ElementStore(); m->domains = new DomainStore();
  nl = nh = 0; for (int i = 0; i < NG; i++) for (int n = 0; n < NG; n++) if (pos[n] == i && bit(nrank[n], r)) { lnode[n] = nl; gnode[nl++] = n; nh += owner[n] < r; }
  std::vector<std::vector<int>> rk(nl), dm(nl); NodeStore *N = m->nodes; N->size = nl; N->uniqInfo.nhalo = nh; N->uniqInfo.size = nl - nh; N->uniqInfo.totalSize = NG; N->uniqInfo.offset = 0; N->uniqInfo.position.clear();
  for (int n = 0; n < NG; n++) N->uniqInfo.offset += owner[n] < r; std::vector<int> neigh; for (int q = 0; q < np; q++) { bool s = false; for (int n = 0; n < NG; n++) s |= bit(nrank[n], r) && bit(nrank[n], q); if (s && q != r) m->neighbors.push_back(q); if (s) m->neighborsWithMe.push_back(q); }
  for (int l = 0; l < nl; l++) { int g = gnode[l]; N->uniqInfo.position.push_back(pos[g]); for (int q = 0; q < np; q++) if (bit(nrank[g], q)) rk[l].push_back(q); for (int d = 0; d < ND; d++) if (bit(ndom[g], d)) dm[l].push_back(d); }
  serializededata<esint, esint> *s; arr(s, rk); N->ranks = (serializededata<esint, int> *)s; arr(s, dm); N->domains = (serializededata<esint, int> *)s;
  std::vector<int> es, bs; std::vector<std::vector<int>> cn, bn; m->domains->size = 0; m->domains->offset = 0; m->domains->totalSize = ND; m->domains->elements.assign(1, 0);
  for (int d = 0; d < ND; d++) { m->domains->offset += drank[d] < r; if (drank[d] == r) { m->domains->size++; for (int e = 0; e < NE; e++) if (edom[e] == d) { es.push_back(e); cn.push_back({}); for (int k = 0; k < en[e]; k++) cn.back().push_back(lid(ec[e][k])); if (bface[e]) { bs.push_back(e); bn.push_back({lid(ec[e][0]), lid(ec[e][1])}); } } m->domains->elements.push_back(es.size()); } }
  m->domains->next = m->domains->offset + m->domains->size;
  arr(m->elements->nodes, cn); intervals(m->elements->eintervals, m->elements->eintervalsDistribution, [](int e) { return en[e]; }, es, r);
  const char *names[] = {"ALL_NODES", "FACES", "NODES", "DIR", "DIR2"}; for (int k = 0; k < 5; k++) { BoundaryRegionStore *b = new BoundaryRegionStore(std::string(names[k])); m->boundaryRegions.push_back(b); b->dimension = k == 1; std::vector<std::vector<int>> nn; for (int l = 0; l < nl; l++) { int g = gnode[l]; bool in = k == 0 || (k == 2 && bnode[g]) || (k == 3 && dnode[g]) || (k == 4 && dnode[g] && g % 2 == 0); if (k == 1) for (int e : bs) in |= ec[e][0] == g || ec[e][1] == g; if (in) nn.push_back({l}); } arr(b->nodes, nn, true);
    if (k == 1) { arr(b->elements, bn); intervals(b->eintervals, b->eintervalsDistribution, [](int) { return 2; }, bs, r); } }
}
static HeatTransferLoadStepConfiguration *heat() { auto *h = (HeatTransferLoadStepConfiguration *)calloc(1, sizeof(HeatTransferLoadStepConfiguration)); new (&h->temperature) std::map<std::string, ECFExpression>(); new (&h->translation_motions) std::map<std::string, ECFExpressionVector>(); h->temperature["DIR"]; h->temperature["DIR2"]; if (what & 8) h->translation_motions["R"]; return h; }
static StructuralMechanicsLoadStepConfiguration *mech() { auto *h = (StructuralMechanicsLoadStepConfiguration *)calloc(1, sizeof(StructuralMechanicsLoadStepConfiguration)); typedef std::map<std::string, ECFExpressionOptionalVector> M; new (&h->displacement) M(); h->displacement["DIR"]; h->displacement["DIR2"]; for (int d = 0; d < dofs; d++) if (dset[d]) h->displacement["DIR"].data[d].isset = h->displacement["DIR2"].data[d].isset = true; return h; }
static void ecf() { info::ecf = (ECF *)calloc(1, sizeof(ECF)); new (&info::ecf->heat_transfer.material_set) std::map<std::string, std::string>(); new (&info::ecf->heat_transfer.materials) std::map<std::string, MaterialConfiguration>(); new (&info::ecf->heat_transfer.discretization) std::map<std::string, PhysicsConfiguration::DISCRETIZATION>(); new (&info::ecf->structural_mechanics.discretization) std::map<std::string, PhysicsConfiguration::DISCRETIZATION>(); }
struct Solver : DirectLinearSystemSolver<double> { Solver() {} using DirectLinearSystemSolver<double>::setDirichlet; void set(step::Step &) {} void update(step::Step &) {} bool solve(step::Step &) { return true; } bool postSolve(step::Step &) { return true; } double rhs_without_dirichlet_norm() { return 0; } Pattern<double> *getPattern(HeatTransferLoadStepConfiguration &, int) { return nullptr; } Pattern<double> *getPattern(StructuralMechanicsLoadStepConfiguration &, int) { return nullptr; } Pattern<double> *getPattern(int) { return nullptr; } Matrix_Distributed<double> &a() { return A; } Vector_Distributed<Vector_Dense, double> &B() { return b; } Vector_Distributed<Vector_Sparse, double> &D() { return dirichlet; } };
typedef Vector_Distributed<Vector_Dense, double> VD;
static int df() { return dofs * mult; }
static int gi(int l) { return pos[gnode[l / df()]] * df() + l % df(); } // local DOF -> global DOF
static int gn(int l) { return gnode[l / df()]; }
static bool isdir(int g) { for (int n = 0; n < NG; n++) if (pos[n] == g / df()) return dnode[n] && dset[g % df()]; return false; }
static double dirv(int g) { for (int n = 0; n < NG; n++) if (pos[n] == g / df()) return DV[n][g % df()]; return 0; }
static void fillv(VD &v, int r) { // element and boundary vectors through the mapping
  v.set(0.); size_t i = 0; for (auto &iv : info::mesh->elements->eintervals) { const esint *p = v.mapping.elements[i].position; int c = 0; for (int e = 0; e < NE; e++) if (drank[edom[e]] == r) { if (iv.begin <= c && c < iv.end) for (int k = 0; k < en[e] * df(); k++) v.mapping.elements[i].data[*p++] += FE[e][k]; c++; } i++; }
  i = 0; for (auto &iv : info::mesh->boundaryRegions[1]->eintervals) { const esint *p = v.mapping.boundary[1][i].position; int c = 0; for (int e = 0; e < NE; e++) if (drank[edom[e]] == r && bface[e]) { if (iv.begin <= c && c < iv.end) for (int k = 0; k < 2 * df(); k++) v.mapping.boundary[1][i].data[*p++] += GE[e][k]; c++; } i++; } }
template <class M> static void fillm(M &m, int r, bool upper, bool faces) {
  size_t i = 0; for (auto &iv : info::mesh->elements->eintervals) { const esint *p = m.mapping.elements[i].position; int c = 0; for (int e = 0; e < NE; e++) if (drank[edom[e]] == r) { if (iv.begin <= c && c < iv.end) for (int a = 0; a < en[e] * df(); a++) for (int b = upper ? a : 0; b < en[e] * df(); b++) m.mapping.elements[i].data[*p++] += KE[e][a][b]; c++; } i++; }
  if (!faces) return; i = 0; for (auto &iv : info::mesh->boundaryRegions[1]->eintervals) { const esint *p = m.mapping.boundary[1][i].position; int c = 0; for (int e = 0; e < NE; e++) if (drank[edom[e]] == r && bface[e]) { if (iv.begin <= c && c < iv.end) for (int a = 0; a < 2 * df(); a++) for (int b = 0; b < 2 * df(); b++) m.mapping.boundary[1][i].data[*p++] += BE[e][a][b]; c++; } i++; } }
static void xy(VD &v, double *S) { for (int l = 0; l < nl * df(); l++) v.cluster.vals[l] = S[gi(l)]; }
static void checkv(VD &v, double *S, const char *l) { for (int i = 0; i < nl * df(); i++) sym_assert_eq_d(v.cluster.vals[i], S[gi(i)], l); }
static void ax(double alpha, double beta, double *out) { for (int i = 0; i < NG * df(); i++) { out[i] = beta * Y[i]; for (int j = 0; j < NG * df(); j++) if (A[i][j] != 0) out[i] += alpha * A[i][j] * X[j]; } }
static void dirichletVec(Vector_Distributed<Vector_Sparse, double> &d) { // fill through the mapping (node order of the region, set components)
  for (int i = 0; i < d.cluster.nnz; i++) d.cluster.vals[i] = 12345;
  for (size_t k = 3; k < 5; k++) { auto *reg = info::mesh->boundaryRegions[k]; for (size_t t = 0; t < d.mapping.boundary[k].size(); t++) { auto &mp = d.mapping.boundary[k][t]; const esint *p = mp.position; int filter = 0; for (int q = 0; q < df(); q++) filter |= dset[q] << q; sym_assert(mp.filter == filter, "components of a boundary condition"); for (auto n = reg->nodes->datatarray().cbegin(t); n != reg->nodes->datatarray().cend(t); ++n) for (int q = 0; q < df(); q++) if (dset[q]) mp.data[*p++] = DV[gnode[*n]][q]; } }
  int c = 0; for (int l = 0; l < nl * df(); l++) if (isdir(gi(l))) { sym_assert(c < d.cluster.nnz && d.cluster.indices[c] == l, "prescribed unknowns are listed once and in order"); sym_assert_eq_d(d.cluster.vals[c], dirv(gi(l)), "prescribed values belong to their unknowns"); c++; } sym_assert(c == d.cluster.nnz, "only prescribed unknowns are listed"); }
static void direct(int r) {
  Pattern<double> *P; bool cfg = what & 4; if (!cfg) P = new PatternUniformDirect<double>(dofs); else if (dofs == 1) P = new PatternUniformDirect<double>(*heat(), mult); else P = new PatternUniformDirect<double>(*mech(), mult);
  Solver s; P->set(&s); P->map(s.LinearSystemSolver<double>::A); P->map(s.LinearSystemSolver<double>::b); P->map(s.LinearSystemSolver<double>::x); P->map(s.LinearSystemSolver<double>::dirichlet);
  Matrix_Distributed<double> &m = s.a(); int n = NG * df();
  sym_assert(m.cluster.nrows == nl * df() && m.cluster.ncols == n && m.decomposition->totalSize == n && m.decomposition->end - m.decomposition->begin == (nl - nh) * df(), "sizes of the distributed matrix"); sym_assert(m.shape == Matrix_Shape::FULL, "direct solvers get full matrices");
  m.set(0.); fillm(m, r, false, true); m.synchronize();
  for (int l = nh * df(); l < nl * df(); l++) { int prev = -1; std::vector<int> seen(n, 0); for (int c = m.cluster.rows[l] - Indexing::CSR; c < m.cluster.rows[l + 1] - Indexing::CSR; c++) { int g = m.cluster.cols[c] - Indexing::CSR; sym_assert(prev < g && g < n, "sorted columns without duplicities"); prev = g; seen[g] = 1; sym_assert_eq_d(m.cluster.vals[c], A[gi(l)][g], "entry of the assembled matrix"); } for (int g = 0; g < n; g++) if (!seen[g]) sym_assert(!sym_is_symbolic(0) && A[gi(l)][g] == 0, "no contribution is outside the pattern"); }
  fillv(s.B(), r); s.B().synchronize(); checkv(s.B(), F, "assembled vector on all copies of a node");
  if (what & 32) { VD x, y; x.copyPattern(s.B()); y.copyPattern(s.B()); xy(x, X); xy(y, Y); double out[MG * 6]; m.apply(1.5, &x, -0.5, &y); ax(1.5, -0.5, out); checkv(y, out, "matrix times vector"); xy(y, Y); m.apply(2, &x, 0, &y); ax(2, 0, out); checkv(y, out, "matrix times vector");
    for (int l = 0; l < nh * df(); l++) x.cluster.vals[l] = 77; x.scatter(); checkv(x, X, "owners' values reach all copies"); }
  if (what & 64) { dirichletVec(s.D()); // elimination of prescribed values
    s.setDirichlet(); for (int l = nh * df(); l < nl * df(); l++) { int i = gi(l); double rhs = isdir(i) ? dirv(i) : F[i]; if (!isdir(i)) for (int j = 0; j < n; j++) if (isdir(j)) rhs -= A[i][j] * dirv(j); sym_assert_eq_d(s.B().cluster.vals[l], rhs, "right-hand side after elimination of prescribed values");
      for (int c = m.cluster.rows[l] - Indexing::CSR; c < m.cluster.rows[l + 1] - Indexing::CSR; c++) { int j = m.cluster.cols[c] - Indexing::CSR; sym_assert_eq_d(m.cluster.vals[c], isdir(i) || isdir(j) ? (i == j ? 1. : 0.) : A[i][j], "matrix after elimination of prescribed values"); } } }
  if (what & 128) { // the whole solution process of the parallel direct solver
    MKLPDSSConfiguration *cf = (MKLPDSSConfiguration *)calloc(1, sizeof(MKLPDSSConfiguration)); MKLPDSS<double> *ps = (MKLPDSS<double> *)calloc(1, sizeof(MKLPDSS<double>)); new (ps) MKLPDSS<double>(*cf); ps->set(m); ps->update(m); VD x; x.copyPattern(s.B()); x.set(0.); ps->solve(s.B(), x); x.scatter();
    std::vector<double> lx(n, 0.0), G(n, 0.0); for (int l = nh * df(); l < nl * df(); l++) lx[gi(l)] = x.cluster.vals[l]; MPI_Allreduce(lx.data(), G.data(), n, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); double *GOT = G.data(); checkv(x, GOT, "solution on all copies of a node");
    for (int l = 0; l < nl * df(); l++) { int i = gi(l); if (isdir(i)) sym_assert_near_d(GOT[i], dirv(i), 1e-6, "prescribed values hold in the solution"); else { double res = -F[i]; for (int j = 0; j < n; j++) if (A[i][j] != 0) res += A[i][j] * GOT[j]; sym_assert_near_d(res, 0, 1e-6, "solution satisfies the free equations"); } } }
}
static void feti(int r) {
  bool cfg = what & 4, full = what & 8; PatternUniformFETI<double> *P; if (!cfg) P = new PatternUniformFETI<double>(dofs); else if (dofs == 1) P = new PatternUniformFETI<double>(*heat(), mult); else P = new PatternUniformFETI<double>(*mech(), mult);
  Matrix_FETI<double> m; P->set(&m); P->map(&m); m.set(0.); VD b, x; P->set(&b); P->map(&b); P->set(&x); Vector_Distributed<Vector_Sparse, double> D; if (cfg) { P->set(&D); P->map(&D); dirichletVec(D); }
  DecompositionFETI *dec = m.decomposition; int nloc = nl * df(); std::vector<std::vector<int>> loc(ND, std::vector<int>(nloc, -1)), inv(ND); int l = 0;
  sym_assert(m.shape == (full ? Matrix_Shape::FULL : Matrix_Shape::UPPER), "shape of the domain matrices");
  for (auto dm = dec->dmap->cbegin(); dm != dec->dmap->cend(); ++dm, ++l) { sym_assert(l < nloc, "DOF map has an entry per unknown"); unsigned seen = 0; int prev = -1; for (auto di = dm->begin(); di != dm->end(); ++di) { sym_assert(prev < di->domain && di->domain < ND, "domains of an unknown are sorted"); prev = di->domain; seen |= 1u << di->domain; if (drank[di->domain] == r) { int d = di->domain; sym_assert(dec->ismy(d) && di->index >= 0 && di->index < dec->dsize[d - dec->dbegin], "local index of an unknown"); loc[d][l] = di->index; } else sym_assert(!dec->ismy(di->domain), "ownership of domains"); } sym_assert(seen == ndom[gn(l)], "an unknown is mapped to exactly its domains"); } sym_assert(l == nloc, "DOF map has an entry per unknown");
  for (int d = 0; d < ND; d++) if (drank[d] == r) { int cnt = 0; inv[d].assign(nloc, -1); for (int i = 0; i < nloc; i++) if (loc[d][i] >= 0) { sym_assert(inv[d][loc[d][i]] == -1, "local indices are unique"); inv[d][loc[d][i]] = i; cnt++; } sym_assert(cnt == dec->dsize[d - dec->dbegin], "local indices are complete"); }
  fillm(m, r, !full, false);
  for (int d = 0; d < ND; d++) if (drank[d] == r) { auto &K = m.domains[d - dec->dbegin]; int n = dec->dsize[d - dec->dbegin]; sym_assert(K.nrows == n && K.ncols == n, "size of a domain matrix");
    std::vector<double> O(n * n, 0.0); std::vector<int> st(n * n, 0); for (int e = 0; e < NE; e++) if (edom[e] == d) for (int i = 0; i < en[e] * df(); i++) for (int j = 0; j < en[e] * df(); j++) { int a = loc[d][lid(ec[e][i % en[e]]) * df() + i / en[e]], c = loc[d][lid(ec[e][j % en[e]]) * df() + j / en[e]]; O[a * n + c] += KE[e][i][j]; st[a * n + c] = 1; }
    for (int i = 0; i < n; i++) { int prev = -1; for (int c = K.rows[i] - Indexing::CSR; c < K.rows[i + 1] - Indexing::CSR; c++) { int j = K.cols[c] - Indexing::CSR; sym_assert(prev < j && j < n && (full || i <= j), "sorted columns without duplicities"); prev = j; sym_assert_eq_d(K.vals[c], O[i * n + j], "entry of a domain matrix"); st[i * n + j] = 0; } for (int j = full ? 0 : i; j < n; j++) sym_assert(!st[i * n + j], "no contribution is outside the pattern"); } }
  fillv(b, r); b.synchronize(); checkv(b, F, "assembled vector on all copies of a node");
  if (what & 32) { VD y; y.copyPattern(b); xy(x, X); xy(y, Y); double out[MG * 6]; m.apply(1.5, &x, -0.5, &y); ax(1.5, -0.5, out); checkv(y, out, "matrix times vector"); }
  if (what & 64) { Vector_FETI<Vector_Dense, double> v; v.decomposition = dec; v.domains.resize(dec->dsize.size()); for (size_t d = 0; d < dec->dsize.size(); d++) v.domains[d].resize(dec->dsize[d]);
    VD y; y.copyPattern(b); xy(x, X); auto each = [&](auto fn) { for (int d = 0; d < ND; d++) if (drank[d] == r) for (int i = 0; i < nloc; i++) if (loc[d][i] >= 0) fn(d, i, v.domains[d - dec->dbegin].vals[loc[d][i]]); }; auto nd = [&](int i) { int c = 0; for (int d = 0; d < ND; d++) c += bit(ndom[gn(i)], d); return c; };
    v.set(0.); v.copy(&x); each([&](int d, int i, double &w) { sym_assert_eq_d(w, X[gi(i)], "every domain gets its values"); });
    y.set(0.); y.copy(&v); checkv(y, X, "values return from domains"); v.averageTo(&y); checkv(y, X, "average of equal values");
    x.spliteTo(&v); v.sumTo(&y); checkv(y, X, "split values sum up to the original");
    each([&](int d, int i, double &w) { w = (d + 1) * X[gi(i)] + d * 2; }); v.sumTo(&y); for (int i = 0; i < nloc; i++) { double sum = 0; for (int d = 0; d < ND; d++) if (bit(ndom[gn(i)], d)) sum += (d + 1) * X[gi(i)] + d * 2; sym_assert_eq_d(y.cluster.vals[i], sum, "sum over the domains of an unknown"); }
    v.averageTo(&y); for (int i = 0; i < nloc; i++) { double sum = 0; for (int d = 0; d < ND; d++) if (bit(ndom[gn(i)], d)) sum += (d + 1) * X[gi(i)] + d * 2; sym_assert_near_d(y.cluster.vals[i], sum / nd(i), 1e-6, "average over the domains of an unknown"); }
    x.copyTo(&v); xy(y, Y); y.add(2.5, &v); for (int i = 0; i < nloc; i++) sym_assert_eq_d(y.cluster.vals[i], Y[gi(i)] + 2.5 * X[gi(i)], "adding a domain-wise vector");
    std::vector<double> o(nloc, -1.), z(nloc); v.storeTo(o); for (int i = 0; i < nloc; i++) sym_assert_eq_d(o[i], X[gi(i)], "stored solution"); for (int i = 0; i < nloc; i++) z[i] = Y[gi(i)]; v.setFrom(z); each([&](int d, int i, double &w) { sym_assert_eq_d(w, Y[gi(i)], "restored solution"); });
    if (cfg) { for (int i = 0; i < D.cluster.nnz; i++) D.cluster.vals[i] = i; v.addTo(3., &D); for (int i = 0; i < D.cluster.nnz; i++) sym_assert_eq_d(D.cluster.vals[i], i + 3. * Y[gi(D.cluster.indices[i])], "adding a domain-wise vector to a sparse one"); }
    VD c; c.copyPattern(b); for (int i = 0; i < nloc; i++) c.cluster.vals[i] = 1 + pos[gn(i)]; x.copy(&c); c.copyTo(&v); double e = 0; for (int i = 0; i < NG; i++) e += df() * (1. + i) * (1. + i); sym_assert_near_d(c.norm() * c.norm(), e, 1e-6, "norm counts every unknown once"); sym_assert_near_d(v.norm() * v.norm(), e, 1e-6, "norm counts every unknown once"); }
}
static void rankmain(int r) { es_mpi(); es_threads(T); ecf(); mesh(r); if (what & 2) feti(r); else direct(r); }
extern "C" void harness() { mpi_choose_any = 0; problem(); sym_forbid_reject = 1; mpi_run(np, rankmain); sym_reach("end"); }
