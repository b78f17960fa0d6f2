// structural mechanics: assembled matrices, loads, prescribed values and derived results against an independent evaluation of the weak form
#include "fem.h"
#include "analysis/assembler/structuralmechanics.h"
#include "analysis/assembler/structuralmechanics/element.h"
#include "math/math.h"
typedef StructuralMechanicsGPC GPC;
#include "fmesh.h"
void BEM3DElasticity(double *, esint, double *, esint, esint *, double, double) {}
void BEM3DElasticityEval(double *, esint, double *, esint, esint *, esint, double *, double, double, double *) {}
enum { TRANS = 1, ACC = 2, ANG = 4, PRES = 8, DIRP = 16, FORCE = 32, SYME = 64, SYML = 128, NL = 256, OUT = 512, AGAIN = 1024, SYMU = 2048, COLL = 4096 };
static bool coll(int i) { return CODE == (int)EC::TRIANGLE3 ? i == 2 : CODE == (int)EC::TETRA4 ? i >= 2 : CODE == (int)EC::PRISMA6 ? i % 3 == 2 : false; } // nodes where the degenerated mapping of the element is singular
enum { STRAIN = 0, AXI = 1, STRESS = 2, THICK = 3, NEO = 1 };
static int flags, behav, depk, depl, dept; static double tcur = .75; static double U[3 * ME * MXN];
struct Mat { Coef E, nu, dens; } mat[NI]; static Coef acc[NI][3], ang[NI][3], thick[NI], vel[NI][3], pres, dpres, pdir[3], force[3], dir[3];
struct SM : StructuralMechanics { using StructuralMechanics::StructuralMechanics; using StructuralMechanics::elements; };
static StructuralMechanicsConfiguration *S; static StructuralMechanicsLoadStepConfiguration *L;
static bool plane() { return dim == 2 && behav != AXI; }
static void setvec(ECFExpressionVector &v, Coef *c, const char *n, int dep, bool sym, double base) { for (int d = 0; d < 3; d++) { c[d] = coef(nm(n, d).c_str(), d < dim || base < 0 ? dep : 0, sym && d < dim, std::fabs(base) + d); setex(v.data[d], c[d], d < dim || base < 0 ? dep : 0); } }
static void config() {
  info::ecf = (ECF *)calloc(1, sizeof(ECF)); S = new (&info::ecf->structural_mechanics) StructuralMechanicsConfiguration(); L = new StructuralMechanicsLoadStepConfiguration(); new (&info::ecf->heat_transfer.discretization) std::map<std::string, PhysicsConfiguration::DISCRETIZATION>();
  L->type = flags & TRANS ? LoadStepSolverConfiguration::TYPE::TRANSIENT : LoadStepSolverConfiguration::TYPE::STEADY_STATE; L->mode = flags & NL ? LoadStepSolverConfiguration::MODE::NONLINEAR : LoadStepSolverConfiguration::MODE::LINEAR; L->corotation = false; L->solver = LoadStepSolverConfiguration::SOLVER::MKLPDSS;
  info::ecf->output.results_selection.stress = flags & OUT; bool se = flags & SYME, sl = flags & SYML; static const char *rn[] = {"R1", "R2"}; if (dim == 2) S->element_behaviour = (StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR)behav;
  for (int i = 0; i < ni; i++) { MaterialConfiguration &mc = S->materials[i ? "MAT2" : "MAT1"]; S->material_set[rn[i]] = mc.name = i ? "MAT2" : "MAT1"; ElasticityPropertiesConfiguration &p = mc.elasticity_properties; info::mesh->materials.push_back(&mc); p.model = ElasticityPropertiesConfiguration::MODEL::ISOTROPIC;
    p.material_model = dim == 3 && behav == NEO ? ElasticityPropertiesConfiguration::MATERIAL_MODEL::NEO_HOOKEAN_CMP : ElasticityPropertiesConfiguration::MATERIAL_MODEL::KIRCHHOFF; mc.coordinate_system.type = CoordinateSystemConfiguration::TYPE::CARTESIAN;
    for (int d = 0; d < 3; d++) { setex(p.young_modulus.get(d, d), coef("", 0, false, 77), 0); setex(p.poisson_ratio.get(d, d), coef("", 0, false, .4), 0); setex(p.shear_modulus.get(d, d), coef("", 0, false, 33), 0); }
    mat[i].E = coef(nm("E", i).c_str(), depk, se, 20); mat[i].nu = coef("", 0, false, .1); mat[i].nu.c[0] = .2 + .1 * i; mat[i].dens = coef(nm("d", i).c_str(), depk, se && (flags & TRANS), 2); setex(p.young_modulus.get(0, 0), mat[i].E, depk); setex(p.poisson_ratio.get(0, 0), mat[i].nu, 0); setex(mc.density, mat[i].dens, depk);
    if (dim == 2) { thick[i] = coef("", dept, false, 1.5); setex(S->thickness[rn[i]], thick[i], dept); }
    setvec(S->initial_velocity[rn[i]], vel[i], nm("v", i).c_str(), depl, sl, 4);
    if (flags & ACC) setvec(L->acceleration[rn[i]], acc[i], nm("a", i).c_str(), depl, sl, 2);
    if (flags & ANG) setvec(L->angular_velocity[rn[i]], ang[i], "", depl, false, -1); }
  if (flags & PRES) { pres = coef("p", depl, sl, 3); setex(L->normal_pressure["FACES"], pres, depl); }
  if (flags & DIRP) { PressureConfiguration &p = L->pressure["FACES"]; dpres = coef("dp", depl, sl, 2); setex(p.pressure, dpres, depl); setvec(p.direction, pdir, "", depl, false, 1); }
  if (flags & FORCE) setvec(L->force["DIR"], force, "f", depl, sl, 5);
  ECFExpressionOptionalVector &o = L->displacement["DIR"]; for (int d = 0; d < dim; d++) if (d != 1) { dir[d] = coef(nm("u", d).c_str(), depl, sl, .5); setex(o.data[d], dir[d], depl); }
}
typedef double Dof[ME * MXN * 3]; static double KO[ME * MXN * 3][MXN * 3], MO[ME * MXN * 3][MXN * 3]; static Dof FO, NO;
struct Law { double E, S[3][3], C[3][3][3][3]; bool unit; }; // second Piola-Kirchhoff stress and its tangent; unit: both to be multiplied by E
static void law(int i, double E, double nu, const double F[3][3], Law &l, bool tangent) {
  double c[3][3] = {}; for (int a = 0; a < dim; a++) for (int b = 0; b < dim; b++) for (int k = 0; k < dim; k++) c[a][b] += F[k][a] * F[k][b]; if (dim == 2) c[2][2] = 1;
  l.E = E; l.unit = true; double la = nu / ((1 + nu) * (1 - 2 * nu)), mu = 1 / (2 + 2 * nu); if (dim == 2 && behav >= STRESS) la = nu / (1 - nu * nu); auto dl = [](int a, int b) { return a == b ? 1. : 0.; };
  double inv[3][3], lg = 0; bool neo = dim == 3 && behav == NEO; if (neo) { double D = det3(c, 3); lg = std::log(D); for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) { int a = (q + 1) % 3, b = (q + 2) % 3, m = (p + 1) % 3, n = (p + 2) % 3; inv[p][q] = (c[a][m] * c[b][n] - c[a][n] * c[b][m]) / D; } }
  double tr = 0; for (int a = 0; a < dim; a++) tr += .5 * (c[a][a] - 1);
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { double e = .5 * (c[a][b] - dl(a, b)); l.S[a][b] = neo ? mu * (dl(a, b) - inv[a][b]) + .5 * la * lg * inv[a][b] : 2 * mu * e; if (!neo && a == b) l.S[a][b] += la * tr;
    if (tangent) for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) l.C[a][b][p][q] = neo ? la * inv[a][b] * inv[p][q] + (mu - .5 * la * lg) * (inv[a][p] * inv[b][q] + inv[a][q] * inv[b][p]) : la * dl(a, b) * dl(p, q) + mu * (dl(a, p) * dl(b, q) + dl(a, q) * dl(b, p)); }
}
static void grad(int e, const Geo &p, double F[3][3]) { for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) F[a][b] = a == b; for (int i = 0; i < el->n; i++) for (int a = 0; a < dim; a++) for (int b = 0; b < dim; b++) if (p.dN[i][b] != 0) F[a][b] += U[id[e][i] * dim + a] * p.dN[i][b]; }
static bool isdir(int n) { return n % 3 == 1; }
static void oracle() {
  static const double ID[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; bool nl = flags & NL; int W = el->n * dim;
  for (int n = 0; n < NN * dim; n++) { FO[n] = NO[n] = 0; for (int i = 0; i < W; i++) KO[n][i] = MO[n][i] = 0; }
  for (int e = 0; e < NE; e++) { int iv = ival[e], n = el->n; for (int g = 0; g < qe.n; g++) { Geo p = phys(*el, qe, g, dim, X[e]); double th = 1, w, F[3][3]; if (plane()) { th = 0; for (int i = 0; i < n; i++) th += p.N[i] * thick[iv].at(X[e][i], 0, tcur); } else if (dim == 2) th = 2 * M_PI * p.x[0]; w = p.w * th;
      double E = mat[iv].E.at(p.x, 0, tcur), nu = mat[iv].nu.at(p.x, 0, tcur), rho = mat[iv].dens.at(p.x, 0, tcur); static Law l; if (nl) grad(e, p, F); law(iv, E, nu, nl ? F : ID, l, true); if (!nl) for (auto &r : F) for (double &x : r) x = &x - &F[0][0] == 0 || &x - &F[0][0] == 4 || &x - &F[0][0] == 8;
      static double B[MXN * 3][3][3], CB[3][3], KS[MXN][MXN], HS[MXN][3]; int D = dim == 2 && behav == AXI ? 3 : dim; for (int i = 0; i < n; i++) for (int d = 0; d < dim; d++) for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) { B[i * dim + d][a][b] = 0; if (nl ? a < dim && b < dim : a == d && b < dim) B[i * dim + d][a][b] = nl ? F[d][a] * p.dN[i][b] : p.dN[i][b]; if (a == 2 && b == 2 && D > dim && d == 0) B[i * dim + d][a][b] = p.N[i] / p.x[0]; }
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { KS[i][j] = 0; if (nl) for (int a = 0; a < dim; a++) for (int b = 0; b < dim; b++) KS[i][j] += p.dN[i][a] * l.S[a][b] * p.dN[j][b]; }
      for (int r = 0; r < W; r++) { for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) { CB[a][b] = 0; for (int s = 0; s < D; s++) for (int t = 0; t < D; t++) { double k = l.C[s][t][a][b]; if (k != 0) CB[a][b] += B[r][s][t] * k; } } int R = id[e][r / dim] * dim + r % dim;
        for (int c = 0; c < W; c++) { double s = 0; for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) s += CB[a][b] * B[c][a][b]; if (r % dim == c % dim) { if (nl) s += KS[r / dim][c / dim]; if (flags & TRANS) MO[R][c] += w * rho * (p.N[r / dim] * p.N[c / dim]); } KO[R][c] += w * s * E; }
        if (nl) { double s = 0; for (int a = 0; a < dim; a++) for (int b = 0; b < dim; b++) s += B[r][a][b] * l.S[a][b]; NO[R] += w * s * E; } }
      for (int i = 0; i < n; i++) { double *f = FO + id[e][i] * dim; double wr = w * rho * p.N[i]; if (flags & ACC) for (int d = 0; d < dim; d++) if (dim == 3 || plane() || d == 1) f[d] += wr * acc[iv][d].at(p.x, 0, tcur);
        if (flags & ANG) { double o[3], oo = 0, ox = 0; for (int d = 0; d < 3; d++) { o[d] = dim == 3 || d == (plane() ? 2 : 1) ? ang[iv][d].at(p.x, 0, tcur) : 0; oo += o[d] * o[d]; ox += o[d] * p.x[d]; } for (int d = 0; d < dim; d++) f[d] += wr * (oo * p.x[d] - ox * o[d]); } } } }
  if (flags & (PRES | DIRP)) for (int e = 0; e < 3; e++) { double xf[MXN][3]; for (int i = 0; i < fa->n; i++) for (int d = 0; d < 3; d++) xf[i][d] = X[e][fn[i]][d]; for (int g = 0; g < qf.n; g++) { Geo p = phys(*fa, qf, g, dim, xf); double th = 1; if (plane()) { th = 0; for (int i = 0; i < fa->n; i++) th += p.N[i] * thick[ival[e]].at(xf[i], 0, tcur); } else if (dim == 2) th = 2 * M_PI * p.x[0];
      double pn = flags & PRES ? pres.at(p.x, 0, tcur) : 0, pd = flags & DIRP ? dpres.at(p.x, 0, tcur) : 0; for (int i = 0; i < fa->n; i++) for (int d = 0; d < dim; d++) { double q = -p.nrm[d] * pn; if (flags & DIRP) q += pd * pdir[d].at(p.x, 0, tcur); FO[id[e][fn[i]] * dim + d] += p.w * th * p.N[i] * q; } } }
  if (flags & FORCE) for (int e = 0; e < NE; e++) for (int i = 0; i < el->n; i++) if (isdir(id[e][i])) for (int d = 0; d < dim; d++) FO[id[e][i] * dim + d] += force[d].at(X[e][i], 0, tcur);
}
static void eig(double A[3][3], int n, double *v) { // Jacobi rotations, descending
  for (int it = 0; it < 40; it++) for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { if (std::fabs(A[p][q]) < 1e-14) continue; double t = .5 * std::atan2(2 * A[p][q], A[q][q] - A[p][p]), c = std::cos(t), s = std::sin(t); for (int k = 0; k < n; k++) { double x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; } for (int k = 0; k < n; k++) { double x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; } }
  for (int i = 0; i < n; i++) v[i] = A[i][i]; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (v[j] > v[i]) std::swap(v[i], v[j]); }
struct Res { double ps[3], pe[3], cs[6], ce[6], vs, ve; void zero() { for (int i = 0; i < 14; i++) ; std::memset(this, 0, sizeof(*this)); } };
static void results(int iv, double F[3][3], const double *x, Res &r, double w) { // stresses and strains of one point, added with weight
  static Law l; double E = mat[iv].E.at(x, 0, tcur), nu = mat[iv].nu.at(x, 0, tcur); law(iv, E, nu, F, l, false); double s[3][3], e[3][3]; for (int a = 0; a < dim; a++) for (int b = 0; b < dim; b++) { s[a][b] = l.S[a][b] * E; e[a][b] = 0; for (int k = 0; k < dim; k++) e[a][b] += .5 * F[k][a] * F[k][b]; if (a == b) e[a][b] -= .5; }
  static const int p3[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {0, 2}}, p2[3][2] = {{0, 0}, {1, 1}, {0, 1}}; for (int k = 0; k < (dim == 3 ? 6 : 3); k++) { const int *q = dim == 3 ? p3[k] : p2[k]; r.cs[k] += w * s[q[0]][q[1]]; r.ce[k] += w * e[q[0]][q[1]]; }
  if (flags & (SYMU | SYME)) return; double v[3]; auto vm = [&]() { double t = 0; for (int a = 0; a < dim; a++) for (int b = a + 1; b < dim; b++) t += (v[a] - v[b]) * (v[a] - v[b]); return std::sqrt(.5 * t); };
  eig(s, dim, v); for (int d = 0; d < dim; d++) r.ps[d] += w * v[d]; r.vs += w * vm(); eig(e, dim, v); for (int d = 0; d < dim; d++) r.pe[d] += w * v[d]; r.ve += w * vm() / (1 + nu); }
static void rankmain(int) {
  CODE = sym_param(0, (int)EC::SQUARE4); flags = sym_param(1, ACC | PRES | SYME); behav = sym_param(2, 0); depk = sym_param(3, 0); depl = sym_param(4, 0); dept = sym_param(5, 0); NE = sym_param(6, 4); degraded = true;
  dim = CODE == (int)EC::TRIANGLE3 || CODE == (int)EC::TRIANGLE6 || CODE == (int)EC::SQUARE4 || CODE == (int)EC::SQUARE8 ? 2 : 3; es_mpi(); es_threads(1); mesh(); config();
  step::Step st; st.substep = 0; st.substeps = 1; st.loadstep = 0; st.iteration = 0; step::Time tm; tm.current = tcur;
  SM *sm = new SM(*S, *L); sym_assert(sm->analyze(st), "valid configuration is accepted"); double zero[3] = {0, 0, 0}; (void)zero;
  for (int e = 0; e < NE; e++) for (int i = 0; i < el->n; i++) { int n = id[e][i]; for (int d = 0; d < dim; d++) sym_assert_near_d(StructuralMechanics::Results::initialVelocity->data[n * dim + d], vel[ival[e]][d].at(X[e][i], 0, 0), 1e-6, "initial velocity of a node"); if (dim == 2) sym_assert_near_d(StructuralMechanics::Results::thickness->data[n], thick[ival[e]].at(X[e][i], 0, 0), 1e-6, "thickness of a node"); }
  Sys sys; LinearSystemSolver<double> &s = sys; auto *P = new PatternUniformDirect<double>(*L, 1); P->set(&sys); P->map(s.A); P->map(s.b); P->map(s.x); P->map(s.dirichlet);
  Matrix_Base<double> *K = s.A, *M = nullptr; Vector_Base<double> *f = s.b, *nf = nullptr; if (flags & TRANS) { M = K->copyPattern(); P->map(M); } if (flags & NL) { nf = f->copyPattern(); P->map((Vector_Distributed<Vector_Dense, double> *)nf); }
  sm->connect(K, M, f, nf, s.dirichlet, nullptr, nullptr); double t = flags & SYMU ? sym_double("t") : 1; if (flags & SYMU) sym_assume((t >= -2) & (t <= 2)); // displacement on a line
  for (int n = 0; n < NN * dim; n++) U[n] = .02 * ((n * 5) % 7 - 3) + t * (.015 * ((n * 3) % 11 - 5));
  auto *x = (Vector_Distributed<Vector_Dense, double> *)s.x; for (int n = 0; n < NN * dim; n++) x->cluster.vals[n] = U[n];
  if (flags & NL) { st.iteration = 1; sm->nextIteration(st, x); }
  auto *A = (Matrix_Distributed<double> *)K; auto *B = (Matrix_Distributed<double> *)M; auto *FV = (Vector_Distributed<Vector_Dense, double> *)f; auto *NV = (Vector_Distributed<Vector_Dense, double> *)nf; auto *D = (Vector_Distributed<Vector_Sparse, double> *)s.dirichlet;
  for (int it = 0; it < 1 + !!(flags & AGAIN); it++) { // the next evaluation reflects the current time and displacement
    if (it) { st.substep = 1; st.substeps = 2; tm.current = tcur = 1.5; for (int n = 0; n < NN * dim; n++) x->cluster.vals[n] = U[n] = .5 * U[n]; if (flags & NL) sm->nextIteration(st, x); }
    sm->evaluate(st, tm, K, M, f, nf, s.dirichlet); oracle(); int W = el->n * dim;
    auto check = [&](Matrix_Distributed<double> *m, double (*O)[MXN * 3], const char *l) { bool full = m->cluster.shape == Matrix_Shape::FULL; for (int e = 0; e < NE; e++) for (int i = 0; i < W; i++) { int r = id[e][i / dim] * dim + i % dim, seen = 0, want = 0; for (int j = 0; j < W; j++) want += full || id[e][j / dim] * dim + j % dim >= r; for (int c = m->cluster.rows[r] - Indexing::CSR; c < m->cluster.rows[r + 1] - Indexing::CSR; c++) for (int j = 0; j < W; j++) if (id[e][j / dim] * dim + j % dim == m->cluster.cols[c] - Indexing::CSR) { seen++; sym_assert_near_d(m->cluster.vals[c], O[r][j], 1e-6, l); } sym_assert(seen == want, "pattern of an element"); } };
    check(A, KO, "stiffness matrix"); if (M) check(B, MO, "mass matrix");
    for (int n = 0; n < NN * dim; n++) sym_assert_near_d(FV->cluster.vals[n], FO[n], 1e-6, "mechanical load vector");
    if (nf) for (int n = 0; n < NN * dim; n++) sym_assert_near_d(NV->cluster.vals[n], NO[n], 1e-6, "internal forces");
    int c = 0; for (int n = 0; n < NN; n++) if (isdir(n)) for (int d = 0; d < dim; d++) if (d != 1) { sym_assert(c < D->cluster.nnz && D->cluster.indices[c] == n * dim + d, "prescribed components"); for (int e = 0; e < NE; e++) for (int i = 0; i < el->n; i++) if (id[e][i] == n) sym_assert_near_d(D->cluster.vals[c], dir[d].at(X[e][i], 0, tcur), 1e-6, "prescribed displacement of a node"); c++; } sym_assert(c == D->cluster.nnz, "prescribed components"); }
  if (flags & OUT) { for (int pass = 0; pass < 2; pass++) { sm->updateSolution(st, x, nullptr, nullptr); for (int n = 0; n < NN * dim; n++) sym_assert_eq_d(StructuralMechanics::Results::displacement->data[n], U[n], "stored displacement");
      typedef StructuralMechanics::Results R; int tn = dim == 3 ? 6 : 3; auto cmp = [&](Res &r, int k, NamedData *ps, NamedData *pe, NamedData *cs, NamedData *ce, NamedData *vs, NamedData *ve, const char *l) { for (int d = 0; d < tn; d++) { sym_assert_near_d(cs->data[k * tn + d], r.cs[d], 1e-5, l); sym_assert_near_d(ce->data[k * tn + d], r.ce[d], 1e-5, l); } if (flags & (SYMU | SYME)) { double a = 0, b = 0; for (int d = 0; d < dim; d++) a += ps->data[k * dim + d] - r.cs[d], b += pe->data[k * dim + d] - r.ce[d]; sym_assert_near_d(a, 0, 1e-5, l); sym_assert_near_d(b, 0, 1e-5, l); return; } for (int d = 0; d < dim; d++) { sym_assert_near_d(ps->data[k * dim + d], r.ps[d], 1e-4, l); sym_assert_near_d(pe->data[k * dim + d], r.pe[d], 1e-4, l); } sym_assert_near_d(vs->data[k], r.vs, 1e-4, l); sym_assert_near_d(ve->data[k], r.ve, 1e-4, l); };
      static Res r; for (int e = 0; e < NE; e++) { r.zero(); for (int g = 0; g < qe.n; g++) { Geo p = phys(*el, qe, g, dim, X[e]); double F[3][3]; grad(e, p, F); results(ival[e], F, p.x, r, 1. / qe.n); } cmp(r, e, R::principalStress, R::principalStrain, R::componentStress, R::componentStrain, R::vonMisesStress, R::vonMisesStrain, "stress and strain of an element");
        if (!(depk & 7) && !el->pyr) for (int i = 0; i < el->n; i++) { if (coll(i) != !!(flags & COLL)) continue; if (flags & COLL) for (int d = 0; d < tn; d++) { double v = R::componentStressAvg->data[id[e][i] * tn + d]; sym_assert(v == v, "stress at a collapsed node of a degenerated element is a number"); } static Quad q; q.n = 1; for (int d = 0; d < 3; d++) q.r[0][d] = el->ref[i][d]; q.w[0] = 1; shape(*el, q.r[0], q.N[0], q.dN[0]); Geo p = phys(*el, q, 0, dim, X[e]); double F[3][3]; grad(e, p, F); r.zero(); results(ival[e], F, p.x, r, 1); cmp(r, id[e][i], R::principalStressAvg, R::principalStrainAvg, R::componentStressAvg, R::componentStrainAvg, R::vonMisesStressAvg, R::vonMisesStrainAvg, "stress and strain of a node"); } } } }
}
extern "C" void harness() { mpi_choose_any = 0; sym_forbid_reject = 1; mpi_run(1, rankmain); sym_reach("end"); }
