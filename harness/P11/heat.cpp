// heat transfer: assembled matrices, loads, prescribed values and derived results against an independent evaluation of the weak form
#include "fem.h"
#include "analysis/assembler/heattransfer.h"
#include "analysis/assembler/heattransfer/element.h"
#include "math/math.h"
typedef HeatTransferGPC GPC;
#include "fmesh.h"
void BEM3DLaplace(double *, esint, double *, esint, esint *, double) {}
enum { TRANS = 1, SRC = 2, ADV = 4, FLOW = 8, OUT = 16, SYMK = 32, SYML = 64, NF = 128, SYMT = 256, AGAIN = 512, CAP = 1024 };
static int flags, model, cs, depk, depl, dept; // dep*: variables the coefficients depend on: bits X Y Z TEMPERATURE TIME
static double T[ME * MXN], T0[ME * MXN]; static double tcur = .75;
struct Mat { Coef k[3][3], dens, cp, rot[3], cen[3]; } mat[NI]; static Coef src[NI], adv[NI][3], thick[NI], init[NI], flow, flux, htc, text, dir; static double sigma;
struct HT : HeatTransfer { using HeatTransfer::HeatTransfer; using HeatTransfer::elements; };
static HeatTransferConfiguration *S; static HeatTransferLoadStepConfiguration *L;
static void config() {
  info::ecf = (ECF *)calloc(1, sizeof(ECF)); S = new (&info::ecf->heat_transfer) HeatTransferConfiguration(); L = new HeatTransferLoadStepConfiguration(); new (&info::ecf->structural_mechanics.discretization) std::map<std::string, PhysicsConfiguration::DISCRETIZATION>();
  L->type = flags & TRANS ? LoadStepSolverConfiguration::TYPE::TRANSIENT : LoadStepSolverConfiguration::TYPE::STEADY_STATE; L->mode = LoadStepSolverConfiguration::MODE::LINEAR; L->solver = LoadStepSolverConfiguration::SOLVER::MKLPDSS;
  info::ecf->output.results_selection.gradient = info::ecf->output.results_selection.flux = flags & OUT; bool sk = flags & SYMK, sl = flags & SYML; typedef ThermalConductivityConfiguration::MODEL M; static const char *rn[] = {"R1", "R2"};
  for (int i = 0; i < ni; i++) { MaterialConfiguration &mc = S->materials[i ? "MAT2" : "MAT1"]; S->material_set[rn[i]] = i ? "MAT2" : "MAT1"; mc.name = i ? "MAT2" : "MAT1"; mc.thermal_conductivity.model = (M)model; mc.coordinate_system.type = cs == 2 ? CoordinateSystemConfiguration::TYPE::CYLINDRICAL : CoordinateSystemConfiguration::TYPE::CARTESIAN; info::mesh->materials.push_back(&mc);
    for (int r = 0; r < dim; r++) for (int c = 0; c < dim; c++) { bool set = model == (int)M::ISOTROPIC ? r == 0 && c == 0 : model == (int)M::DIAGONAL ? r == c : model == (int)M::SYMMETRIC ? r <= c : true; if (!set) { for (double &x : mat[i].k[r][c].c) x = 0; continue; } mat[i].k[r][c] = coef(nm(nm("k", i).c_str(), r, c).c_str(), depk, sk, r == c ? 3 : .5); setex(mc.thermal_conductivity.values.get(r, c), mat[i].k[r][c], depk); }
    for (int r = 0; r < dim; r++) for (int c = 0; c < dim; c++) { if (model == (int)M::ISOTROPIC && r == c) mat[i].k[r][c] = mat[i].k[0][0]; if (model == (int)M::SYMMETRIC && r > c) mat[i].k[r][c] = mat[i].k[c][r]; }
    mat[i].dens = coef(nm("d", i).c_str(), depk, sk && (flags & TRANS), 2); mat[i].cp = coef(nm("c", i).c_str(), depk & 16, false, 3); if ((flags & TRANS) && !(flags & CAP)) { mat[i].cp = coef("", 0, false, 1); mat[i].cp.c[0] = 1; } if (flags & (TRANS | ADV)) { setex(mc.density, mat[i].dens, depk); setex(mc.heat_capacity, mat[i].cp, mat[i].cp.m); }
    if (cs == 1) for (int d = dim == 2 ? 2 : 0; d < 3; d++) { Coef &r = mat[i].rot[d]; r = coef("", 0, false, 20 + 15 * d); setex(mc.coordinate_system.rotation.data[d], r, 0); }
    if (cs == 2) for (int d = 0; d < 2; d++) { mat[i].cen[d] = coef("", 0, false, -3 - d); setex(mc.coordinate_system.center.data[d], mat[i].cen[d], 0); }
    if (flags & SRC) { src[i] = coef(nm("q", i).c_str(), depl, sl); setex(L->heat_source[rn[i]], src[i], depl); }
    if (flags & ADV) for (int d = 0; d < dim; d++) { adv[i][d] = coef("", depl & 23, false, 1 + d); setex(L->translation_motions[rn[i]].data[d], adv[i][d], depl & 23); }
    if (dim == 2) { thick[i] = coef("", dept, false, 1.5); setex(S->thickness[rn[i]], thick[i], dept); }
    init[i] = coef(nm("i", i).c_str(), depl & 23, sl, 4); setex(S->initial_temperature[rn[i]], init[i], depl & 23); }
  if (flags & FLOW) { flow = coef("flow", depl & 23, sl, 3); flux = coef("flux", depl & 23, sl, 2); setex(L->heat_flow["FACES"], flow, depl & 23); setex(L->heat_flux["FACES"], flux, depl & 23); }
  dir = coef("dir", depl & 23, sl, 6); setex(L->temperature["DIR"], dir, depl & 23); if (flags & ADV) { sigma = sk ? sym_double("sigma") : .25; sym_assume((sigma >= 0) & (sigma <= 1)); S->sigma = sigma; }
}
static double KO[ME * MXN][MXN], MO[ME * MXN][MXN], FO[ME * MXN], FA[ME * MXN]; // rows by nodes, columns by nodes of the same element
static void tensor(int i, const double *x, double Tg, double C[3][3]) { Mat &m = mat[i]; double k[3][3], R[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; for (int r = 0; r < dim; r++) for (int c = 0; c < dim; c++) k[r][c] = m.k[r][c].at(x, Tg, tcur);
  if (cs) { double a[3] = {0, 0, 0}; if (cs == 1) for (int d = dim == 2 ? 2 : 0; d < 3; d++) a[d] = m.rot[d].at(x, Tg, tcur) * M_PI / 180; else a[2] = std::atan2(x[1] - m.cen[1].at(x, Tg, tcur), x[0] - m.cen[0].at(x, Tg, tcur)); double cx = std::cos(a[0]), sx = std::sin(a[0]), cy = std::cos(a[1]), sy = std::sin(a[1]), cz = std::cos(a[2]), sz = std::sin(a[2]); double r[3][3] = {{cz * cy, cz * sy * sx - sz * cx, cz * sy * cx + sz * sx}, {sz * cy, sz * sy * sx + cz * cx, sz * sy * cx - cz * sx}, {-sy, cy * sx, cy * cx}}; for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) R[p][q] = r[p][q]; }
  for (int r = 0; r < dim; r++) for (int c = 0; c < dim; c++) { C[r][c] = 0; for (int p = 0; p < dim; p++) for (int q = 0; q < dim; q++) { double w = R[r][p] * R[c][q]; if (w != 0) C[r][c] += w * k[p][q]; } } }
static bool isdir(int n) { return n % 3 == 1; }
static double area() { double s = 0; for (int e = 0; e < 3; e++) { double xf[MXN][3]; for (int i = 0; i < fa->n; i++) for (int d = 0; d < 3; d++) xf[i][d] = X[e][fn[i]][d]; for (int g = 0; g < qf.n; g++) s += phys(*fa, qf, g, dim, xf).w; } return s; }
static void oracle(bool solution) {
  for (int n = 0; n < NN; n++) { FO[n] = FA[n] = 0; for (int i = 0; i < MXN; i++) KO[n][i] = MO[n][i] = 0; }
  for (int e = 0; e < NE; e++) { int iv = ival[e], n = el->n; for (int g = 0; g < qe.n; g++) { Geo p = phys(*el, qe, g, dim, X[e]); double C[3][3], Tg = 0, th = 1; if ((depk | depl) & 8) for (int i = 0; i < n; i++) Tg += p.N[i] * T[id[e][i]]; if (dim == 2) { th = 0; for (int i = 0; i < n; i++) th += p.N[i] * thick[iv].at(X[e][i], 0, tcur); } tensor(iv, p.x, Tg, C); double w = p.w * th;
      double dens = mat[iv].dens.at(p.x, Tg, tcur), cp = mat[iv].cp.at(p.x, Tg, tcur), q = flags & SRC ? src[iv].at(p.x, Tg, tcur) : 0, u[3] = {0, 0, 0}, uB[MXN], supg = 0, stab = 0;
      if (flags & ADV) { double us = 0, bs = 0; for (int d = 0; d < dim; d++) { u[d] = adv[iv][d].at(p.x, Tg, tcur) * dens * cp; us += u[d] * u[d]; } for (int i = 0; i < n; i++) { uB[i] = 0; for (int d = 0; d < dim; d++) uB[i] += u[d] * p.dN[i][d]; bs += uB[i] * uB[i]; } us = std::sqrt(us); bs = std::sqrt(bs); double he = 2 * us / bs, Pe = us * he / (2 * C[0][0]), tau = std::max(0., 1 - 1 / Pe); supg = he * tau / (2 * us); stab = he * us; }
      for (int i = 0; i < n; i++) { int r = id[e][i]; if (flags & SRC) FO[r] += w * p.N[i] * q; for (int j = 0; j < n; j++) { double gg = 0; for (int a = 0; a < dim; a++) for (int b = 0; b < dim; b++) KO[r][j] += w * p.dN[i][a] * p.dN[j][b] * C[a][b]; for (int a = 0; a < dim; a++) gg += p.dN[i][a] * p.dN[j][a];
          if (flags & ADV) { KO[r][j] += w * (p.N[i] + supg * uB[i]) * uB[j]; KO[r][j] += w * gg * stab * sigma; } if (flags & TRANS) MO[r][j] += w * p.N[i] * p.N[j] * dens * cp; } } } }
  if (flags & FLOW) { double A = area(); for (int e = 0; e < 3; e++) { double xf[MXN][3]; for (int i = 0; i < fa->n; i++) for (int d = 0; d < 3; d++) xf[i][d] = X[e][fn[i]][d]; for (int g = 0; g < qf.n; g++) { Geo p = phys(*fa, qf, g, dim, xf); double th = 1; if (dim == 2) { th = 0; for (int i = 0; i < fa->n; i++) th += p.N[i] * thick[ival[e]].at(xf[i], 0, tcur); } double q = flow.at(p.x, 0, tcur) / A + flux.at(p.x, 0, tcur); for (int i = 0; i < fa->n; i++) FO[id[e][fn[i]]] += p.w * th * p.N[i] * q; } } }
}
static void rankmain(int) {
  CODE = sym_param(0, (int)EC::SQUARE4); flags = sym_param(1, SRC | FLOW | OUT | SYMK); model = sym_param(2, 0); cs = sym_param(3, 0); depk = sym_param(4, 0); depl = sym_param(5, 0); dept = sym_param(6, 0); NE = sym_param(7, 4);
  dim = CODE == (int)EC::TRIANGLE3 || CODE == (int)EC::TRIANGLE6 || CODE == (int)EC::SQUARE4 || CODE == (int)EC::SQUARE8 ? 2 : 3; es_mpi(); es_threads(1); mesh(); config();
  step::Step st; st.substep = 0; st.substeps = 1; step::Time tm; tm.current = tcur; tm.timeIntegrationConstantK = .5; tm.timeIntegrationConstantM = 2;
  HT *ht = new HT(*S, *L); sym_assert(ht->analyze(st), "valid configuration is accepted");
  for (int e = 0; e < NE; e++) for (int i = 0; i < el->n; i++) { int n = id[e][i]; double v = isdir(n) ? dir.at(X[e][i], 0, 0) : init[ival[e]].at(X[e][i], 0, 0); sym_assert_near_d(HeatTransfer::Results::initialTemperature->data[n], v, 1e-6, "initial temperature of a node"); if (dim == 2) sym_assert_near_d(HeatTransfer::Results::thickness->data[n], thick[ival[e]].at(X[e][i], 0, 0), 1e-6, "thickness of a node"); }
  if (flags & FLOW) sym_assert_near_d(info::mesh->boundaryRegions[1]->area, area(), 1e-6, "surface of a boundary region");
  Sys sys; LinearSystemSolver<double> &s = sys; auto *P = new PatternUniformDirect<double>(*L, 1); P->set(&sys); P->map(s.A); P->map(s.b); P->map(s.x); P->map(s.dirichlet);
  Matrix_Base<double> *K = s.A, *M = nullptr; Vector_Base<double> *f = s.b, *nf = nullptr; if (flags & TRANS) { M = K->copyPattern(); P->map(M); } if (flags & NF) { nf = f->copyPattern(); P->map((Vector_Distributed<Vector_Dense, double> *)nf); }
  ht->connect(K, M, f, nf, s.dirichlet);
  for (int n = 0; n < NN; n++) { T[n] = flags & SYMT ? sym_double(nm("T", n).c_str()) : 2 + (n * 5) % 7 * .5; if (flags & SYMT) sym_assume((T[n] >= -10) & (T[n] <= 10)); }
  auto *x = (Vector_Distributed<Vector_Dense, double> *)s.x; for (int n = 0; n < NN; n++) x->cluster.vals[n] = T[n];
  bool again = flags & AGAIN; for (int it = 0; it < 1 + again; it++) { // the next evaluation reflects the current time and temperature
  if (it) { tm.current = tcur = 1.5; for (int n = 0; n < NN; n++) x->cluster.vals[n] = T[n] = 1 - .5 * T[n]; }
  if (!(flags & OUT) || it || ((depk | depl) & 8)) ht->updateSolution(st, x); // temperatures of the previous iteration
  ht->evaluate(st, tm, K, M, f, nf, s.dirichlet); oracle(false);
  auto *A = (Matrix_Distributed<double> *)K; auto *B = (Matrix_Distributed<double> *)M; auto *F = (Vector_Distributed<Vector_Dense, double> *)f; auto *NFv = (Vector_Distributed<Vector_Dense, double> *)nf; auto *D = (Vector_Distributed<Vector_Sparse, double> *)s.dirichlet;
  auto check = [&](Matrix_Distributed<double> *m, double (*O)[MXN], const char *l) { for (int e = 0; e < NE; e++) for (int i = 0; i < el->n; i++) { int r = id[e][i], seen = 0; for (int c = m->cluster.rows[r] - Indexing::CSR; c < m->cluster.rows[r + 1] - Indexing::CSR; c++) for (int j = 0; j < el->n; j++) if (id[e][j] == m->cluster.cols[c] - Indexing::CSR) { seen++; sym_assert_near_d(m->cluster.vals[c], O[r][j], 1e-6, l); } sym_assert(seen == el->n, "pattern of an element"); } };
  check(A, KO, "conductivity matrix"); if (M) check(B, MO, flags & CAP ? "capacity matrix with a heat capacity other than one" : "capacity matrix");
  for (int n = 0; n < NN; n++) sym_assert_near_d(F->cluster.vals[n], FO[n], 1e-6, "thermal load vector");
  if (nf) for (int e = 0; e < NE; e++) for (int i = 0; i < el->n; i++) { int r = id[e][i]; double v = 0; for (int j = 0; j < el->n; j++) { v += KO[r][j] * .5 * T[id[e][j]]; if (M) v += 2 * T[id[e][j]] * MO[r][j]; } sym_assert_near_d(NFv->cluster.vals[r], v, 1e-6, "internal heat of a node"); }
  int c = 0; for (int n = 0; n < NN; n++) if (isdir(n)) { sym_assert(c < D->cluster.nnz && D->cluster.indices[c] == n, "prescribed nodes"); for (int e = 0; e < NE; e++) for (int i = 0; i < el->n; i++) if (id[e][i] == n) sym_assert_near_d(D->cluster.vals[c], dir.at(X[e][i], 0, tcur), 1e-6, "prescribed temperature of a node"); c++; } }
  if (flags & OUT) { ht->updateSolution(st, x); for (int pass = 0; pass < 2; pass++) { // results do not depend on the order of intervals
      if (pass) { if (ni < 2) break; for (int i = ni - 1; i >= 0; i--) ht->elements(SubKernel::SOLUTION, st, i); }
      for (int n = 0; n < NN; n++) sym_assert_eq_d(HeatTransfer::Results::temperature->data[n], T[n], "stored temperature");
      for (int e = 0; e < NE; e++) { double G[3] = {}, H[3] = {}; for (int g = 0; g < qe.n; g++) { Geo p = phys(*el, qe, g, dim, X[e]); double C[3][3], gr[3] = {}, Tg = 0; if (depk & 8) for (int i = 0; i < el->n; i++) Tg += p.N[i] * T[id[e][i]]; tensor(ival[e], p.x, Tg, C); for (int i = 0; i < el->n; i++) for (int d = 0; d < dim; d++) gr[d] += p.dN[i][d] * T[id[e][i]]; for (int d = 0; d < dim; d++) { G[d] += gr[d] / qe.n; for (int b = 0; b < dim; b++) H[d] += C[d][b] * gr[b] / qe.n; } }
        for (int d = 0; d < dim; d++) { sym_assert_near_d(HeatTransfer::Results::gradient->data[e * dim + d], G[d], 1e-6, "temperature gradient of an element"); sym_assert_near_d(HeatTransfer::Results::flux->data[e * dim + d], H[d], 1e-5, "heat flux of an element"); } } } }
}
extern "C" void harness() { mpi_choose_any = 0; sym_forbid_reject = 1; mpi_run(1, rankmain); sym_reach("end"); }
