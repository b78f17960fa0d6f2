// mesh of a few distorted elements of one type with faces and a node region; empty linear system. Requires GPC (numbers of integration points)
#pragma once
Element Mesh::edata[(int)Element::CODE::SIZE];
// names are looked up in the lists of regions (mesh.cpp itself is not linked)
ElementsRegionStore *Mesh::eregion(const std::string &n) { for (auto r : elementsRegions) if (r->name == n) return r; sym_fail("unknown region"); }
BoundaryRegionStore *Mesh::bregion(const std::string &n) { for (auto r : boundaryRegions) if (r->name == n) return r; sym_fail("unknown region"); }
size_t Mesh::bregionIndex(const std::string &n) { for (size_t i = 0; i < boundaryRegions.size(); i++) if (boundaryRegions[i]->name == n) return i; sym_fail("unknown region"); }
enum { NI = 2, ME = 4 };
static int dim, CODE, NE, NN, ni; static Cell *el, *fa; static Quad qe, qf; static int fn[MXN];
static double X[ME][MXN][3]; static int id[ME][MXN], ival[ME];
template <EC c, size_t n, size_t g, size_t e> static void setq(Quad &q, Cell *&cl) { cl = &cell(c); quad<c, n, g, e>(q); }
#define Q(c, n, e) case (int)EC::c: setq<EC::c, n, GPC::c, e>(q, cl); return
static void select(int code, Quad &q, Cell *&cl) { switch (code) { Q(LINE2, 2, 1); Q(LINE3, 3, 1); Q(TRIANGLE3, 3, 2); Q(TRIANGLE6, 6, 2); Q(SQUARE4, 4, 2); Q(SQUARE8, 8, 2); Q(TETRA4, 4, 3); Q(TETRA10, 10, 3); Q(PYRAMID5, 5, 3); Q(PYRAMID13, 13, 3); Q(PRISMA6, 6, 3); Q(PRISMA15, 15, 3); Q(HEXA8, 8, 3); Q(HEXA20, 20, 3); } }
static int fcode(int alt) { std::vector<int> f; int c; switch ((EC)CODE) { case EC::TRIANGLE3: case EC::SQUARE4: c = (int)EC::LINE2; f = {0, 1}; break; case EC::TRIANGLE6: c = (int)EC::LINE3; f = {0, 1, 3}; break; case EC::SQUARE8: c = (int)EC::LINE3; f = {0, 1, 4}; break;
  case EC::TETRA4: c = (int)EC::TRIANGLE3; f = {0, 1, 2}; break; case EC::TETRA10: c = (int)EC::TRIANGLE6; f = {0, 1, 2, 4, 5, 6}; break; case EC::PRISMA6: c = (int)EC::TRIANGLE3; f = {0, 1, 2}; break; case EC::PRISMA15: c = (int)EC::TRIANGLE6; f = {0, 1, 2, 6, 7, 8}; break;
  case EC::PYRAMID5: c = (int)EC::SQUARE4; f = {0, 1, 2, 3}; break; case EC::PYRAMID13: c = (int)EC::SQUARE8; f = {0, 1, 2, 3, 5, 6, 7, 8}; break; case EC::HEXA8: c = (int)EC::SQUARE4; f = {0, 1, 2, 3}; break; default: c = (int)EC::SQUARE8; f = {0, 1, 2, 3, 8, 9, 10, 11}; }
  for (size_t i = 0; i < f.size(); i++) fn[i] = f[i]; return c; }
static void mesh() {
  Mesh *m = info::mesh = (Mesh *)calloc(1, sizeof(Mesh)); m->dimension = dim; m->nodes = new NodeStore(); m->elements = new ElementStore(); m->domains = new DomainStore(); select(CODE, qe, el); select(fcode(0), qf, fa);
  ni = NE > 3 ? 2 : 1; NN = NE * el->n; NodeStore *N = m->nodes; N->size = NN; N->uniqInfo.nhalo = 0; N->uniqInfo.size = N->uniqInfo.totalSize = NN; N->uniqInfo.offset = 0; m->neighborsWithMe.push_back(0); std::vector<std::vector<int>> rk(NN), dm(NN), cn(NE), bn; std::vector<std::vector<Point>> co(1, std::vector<Point>(NN));
  for (int e = 0; e < NE; e++) { ival[e] = e < 3 ? 0 : 1; for (int i = 0; i < el->n; i++) { int n = id[e][i] = NN - 1 - (e * el->n + i); cn[e].push_back(n); for (int d = 0; d < 3; d++) X[e][i][d] = d < dim ? geo(*el, e, i, d) : 0; co[0][n] = Point(X[e][i][0], X[e][i][1], X[e][i][2]); } }
  for (int n = 0; n < NN; n++) { N->uniqInfo.position.push_back(n); rk[n].push_back(0); dm[n].push_back(0); } serializededata<esint, esint> *s; arr(s, rk); N->ranks = (serializededata<esint, int> *)s; arr(s, dm); N->domains = (serializededata<esint, int> *)s; N->coordinates = new serializededata<esint, Point>(1, tarray<Point>(co));
  m->domains->size = m->domains->totalSize = 1; m->domains->offset = 0; m->domains->next = 1; m->domains->distribution = {0, 1}; m->domains->elements = {0, NE};
  m->elements->distribution.process.size = m->elements->distribution.process.totalSize = NE; arr(m->elements->nodes, cn); for (int i = 0; i < ni; i++) { ElementsInterval x; x.begin = i * 3; x.end = i + 1 < ni ? 3 : NE; x.domain = 0; x.code = CODE; x.material = i; x.region = i + 1; m->elements->eintervals.push_back(x); } m->elements->eintervalsDistribution = {0, ni};
  const char *en[] = {"ALL_ELEMENTS", "R1", "R2"}; for (int i = 0; i <= ni; i++) m->elementsRegions.push_back(new ElementsRegionStore(std::string(en[i])));
  const char *names[] = {"ALL_NODES", "FACES", "DIR"}; for (int e = 0; e < 3; e++) { bn.push_back({}); for (int i = 0; i < fa->n; i++) bn.back().push_back(id[e][fn[i]]); }
  for (int k = 0; k < 3; k++) { BoundaryRegionStore *b = new BoundaryRegionStore(std::string(names[k])); m->boundaryRegions.push_back(b); b->dimension = k == 1 ? dim - 1 : 0; std::vector<std::vector<int>> nn; for (int n = 0; n < NN; n++) { bool in = k == 0 || (k == 2 && n % 3 == 1); if (k == 1) for (auto &f : bn) for (int i : f) in |= i == n; if (in) nn.push_back({n}); } arr(b->nodes, nn, true);
    if (k == 1) { arr(b->elements, bn); ElementsInterval x; x.begin = 0; x.end = 3; x.domain = 0; x.code = fa->code; b->eintervals.push_back(x); b->eintervalsDistribution = {0, 1}; } }
  m->boundary = m->boundaryRegions;
}
struct Sys : DirectLinearSystemSolver<double> { void set(step::Step &) {} void update(step::Step &) {} bool solve(step::Step &) { return true; } bool postSolve(step::Step &) { return true; } double rhs_without_dirichlet_norm() { return 0; } Pattern<double> *getPattern(HeatTransferLoadStepConfiguration &, int) { return nullptr; } Pattern<double> *getPattern(StructuralMechanicsLoadStepConfiguration &, int) { return nullptr; } Pattern<double> *getPattern(int) { return nullptr; } };
