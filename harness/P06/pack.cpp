// serialisation: packed size is exact, unpacking restores every transferred quantity and consumes exactly what was written
#include "sym.h"
#include "basis/containers/serializededata.h"
#include "basis/containers/packer.h"
#include "basis/containers/point.h"
#include "mesh/mesh.h"
#include "mesh/store/nodestore.h"
#include "mesh/store/elementstore.h"
#include "mesh/store/elementsregionstore.h"
#include "mesh/store/boundaryregionstore.h"
#include "mesh/store/contactinterfacestore.h"
#include "mesh/store/bodystore.h"
#include "mesh/store/domainstore.h"
#include "mesh/store/clusterstore.h"
#include "mesh/store/surfacestore.h"
#include "mesh/store/domainsurfacestore.h"
#include "mesh/store/fetidatastore.h"
#include "esinfo/envinfo.h"
#include "esinfo/mpiinfo.h"
#include <cstring>
using namespace espreso;
Element Mesh::edata[(int)Element::CODE::SIZE];
static int seq = 0, N = 2, T = 1, nullp = -1, uniq_ = 0, np = 0;
static std::string nx(const char *b) { return nm(b, seq++); }
static int iv() { return sym_int(nx("i").c_str(), -1000000, 1000000); }
static double dv() { return sym_double(nx("d").c_str()); }
// generators
static void gen(int &x) { x = iv(); }
static void gen(size_t &x) { x = sym_int(nx("z").c_str(), 0, 1000000); }
static void gen(double &x) { x = dv(); }
static void gen(bool &x) { x = sym_bool(nx("b").c_str()); }
static void gen(char &x) { x = sym_u8(nx("c").c_str()); }
static void gen(std::string &s) { int n = N ? 1 + N : 0; s = std::string(n, 'x'); for (int i = 0; i < n; i++) s[i] = sym_u8(nx("s").c_str()); }
static void gen(Point &p) { p.x = dv(); p.y = dv(); p.z = dv(); }
static void gen(ContactInfo &c) { c.gap = iv(); c.angle = iv(); c.self_contact = sym_bool(nx("b").c_str()); }
template <class X> static void gen(std::vector<X> &v, int n = -1);
static void gen(DistributionInfo &d) { gen(d.offset); gen(d.size); gen(d.totalSize); }
static void gend(DistributedDataInfo &d) { gen(d.offset); gen(d.size); gen(d.totalSize); gen(d.next); }
static void gen(ElementsInterval &e) { gen(e.begin); gen(e.end); gen(e.domain); gen(e.code); gen(e.material); gen(e.region); gen(e.einterval); gen(e.thread); gen(e.regions); }
template <class X> static void gen(std::vector<X> &v, int n) { v.clear(); v.resize(n < 0 ? N : n); for (size_t i = 0; i < v.size(); i++) { X x = X(); gen(x); v[i] = x; } }
template <class X> static void gen(serializededata<esint, X> *&s) {
  int k = np++; if (k == nullp || nullp == -2) { s = NULL; return; }
  std::vector<std::vector<X>> d(T); std::vector<std::vector<esint>> b(T); int total = 0; b[0].push_back(0);
  for (int t = 0; t < T; t++) for (int i = 0; i < (t == 0 ? N : t == T - 1 ? 1 : 0); i++) { int c = uniq_ ? 2 : (k + i) % 3; for (int j = 0; j < c; j++) { X x = X(); gen(x); d[t].push_back(x); } total += c; b[t].push_back(total); }
  s = uniq_ ? new serializededata<esint, X>(2, tarray<X>(d)) : new serializededata<esint, X>(tarray<esint>(b), tarray<X>(d)); }
static Element *elem(int k) { return &Mesh::edata[k]; }
static void gen(serializededata<esint, Element *> *&s) { int k = np++; if (k == nullp || nullp == -2) { s = NULL; return; } std::vector<std::vector<Element *>> d(T); int c = 0; for (int t = 0; t < T; t++) for (int i = 0; i < (t == 0 ? N : t == T - 1 ? 1 : 0); i++) d[t].push_back(elem(sym_choose(nm("el", c++).c_str(), 0, 1) ? 3 : 9)); s = new serializededata<esint, Element *>(1, tarray<Element *>(d)); }
static int nelem() { return N + (T > 1); }
// comparisons
#define OK(c) sym_assert(c, l)
static void eq(int a, int b, const char *l) { OK(a == b); }
static void eq(size_t a, size_t b, const char *l) { OK(a == b); }
static void eq(double a, double b, const char *l) { sym_assert_eq_d(a, b, l); }
static void eq(bool a, bool b, const char *l) { OK(a == b); }
static void eq(char a, char b, const char *l) { OK(a == b); }
static void eq(const std::string &a, const std::string &b, const char *l) { OK(a.size() == b.size()); for (size_t i = 0; i < a.size(); i++) OK(a[i] == b[i]); }
static void eq(const Point &a, const Point &b, const char *l) { eq(a.x, b.x, l); eq(a.y, b.y, l); eq(a.z, b.z, l); }
static void eq(const ContactInfo &a, const ContactInfo &b, const char *l) { OK(a.gap == b.gap); OK(a.angle == b.angle); OK(a.self_contact == b.self_contact); }
template <class X> static void eq(const std::vector<X> &a, const std::vector<X> &b, const char *l);
static void eq(const DistributionInfo &a, const DistributionInfo &b, const char *l) { eq(a.offset, b.offset, l); eq(a.size, b.size, l); eq(a.totalSize, b.totalSize, l); }
static void eqd(const DistributedDataInfo &a, const DistributedDataInfo &b, const char *l) { eq((const DistributionInfo &)a, (const DistributionInfo &)b, l); eq(a.next, b.next, l); }
static void eq(const ElementsInterval &a, const ElementsInterval &b, const char *l) { eq(a.begin, b.begin, l); eq(a.end, b.end, l); eq(a.domain, b.domain, l); eq(a.code, b.code, l); eq(a.material, b.material, l); eq(a.region, b.region, l); eq(a.einterval, b.einterval, l); eq(a.thread, b.thread, l); eq(a.regions, b.regions, l); sym_assert(a.regions.empty() || a.regions.data() != b.regions.data(), "unpacked data do not share memory with their source"); }
template <class X> static void eq(const std::vector<X> &a, const std::vector<X> &b, const char *l) { OK(a.size() == b.size()); for (size_t i = 0; i < a.size(); i++) eq(a[i], b[i], l); }
static void eq(Element *a, Element *b, const char *l) { OK(a == b); }
template <class X> static void eq(serializededata<esint, X> *a, serializededata<esint, X> *b, const char *l) {
  OK((a == NULL) == (b == NULL)); if (!a) return; bool el = std::is_same<X, Element *>::value; OK(a->structures() == b->structures()); if (!el) { OK(a->threads() == b->threads()); OK((int)a->edataSize() == (int)b->edataSize()); }
  if (!el) for (size_t t = 0; t <= a->threads(); t++) OK(a->datatarray().distribution()[t] == b->datatarray().distribution()[t]);
  OK(a->datatarray().size() == b->datatarray().size()); auto i = a->begin(); auto j = b->begin(); for (; i != a->end(); ++i, ++j) { OK(j != b->end()); OK(i->size() == j->size()); for (size_t k = 0; k < i->size(); k++) eq((*i)[k], (*j)[k], l); } OK(!(j != b->end())); }
// one round trip: exact buffer, exact consumption
template <class S, class P, class U> static void trip(S size, P pack, U unpack) {
  size_t n = size(); char *buf = new char[n + 1]; buf[n] = 77; char *p = buf; pack(p); sym_assert((size_t)(p - buf) == n, "packed size is exact"); sym_assert(buf[n] == 77, "nothing is written behind the packed data");
  char *cp = new char[n]; memcpy(cp, buf, n); memset(buf, 0x5a, n); const char *q = cp; unpack(q); sym_assert((size_t)(q - cp) == n, "unpacking reads everything that was packed"); delete[] cp; delete[] buf; }
template <class X> static void utripInto(const X &a, X &b, const char *l) { trip([&] { return utils::packedSize(a); }, [&](char *&p) { utils::pack(a, p); }, [&](const char *&p) { utils::unpack(b, p); }); eq(a, b, l); }
template <class X> static void utrip(X &a, const char *l) { X b = X(); utripInto(a, b, l); }
template <class X> static void ftrip(const X &a, X &b) { trip([&] { return a.packedFullSize(); }, [&](char *&p) { a.packFull(p); }, [&](const char *&p) { b.unpackFull(p); }); }
static void gen(NodeUniquenessInfo &u) { gen(u.nhalo); gen(u.offset); gen(u.size); gen(u.totalSize); gen(u.position); }
static void eq(const NodeUniquenessInfo &a, const NodeUniquenessInfo &b, const char *l) { eq(a.nhalo, b.nhalo, l); eq(a.offset, b.offset, l); eq(a.size, b.size, l); eq(a.totalSize, b.totalSize, l); eq(a.position, b.position, l); }
template <class D> static D *gdata(int named) { D *d = new D(1 + iv() * 0, NamedData::DataType::VECTOR, ""); d->dimension = iv(); d->updated = iv(); d->dataType = (NamedData::DataType)sym_int(nx("dt").c_str(), 0, 4); d->restriction = (step::TYPE)sym_int(nx("rs").c_str(), 0, 3); if (named) { d->name = "n"; d->name[0] = sym_u8(nx("s").c_str()); } gen(d->data); return d; }
template <class D> static void eqdata(const std::vector<D *> &a, const std::vector<D *> &b, bool head, bool full) { const char *l = "named results"; size_t j = 0; for (size_t i = 0; i < a.size(); i++) { if (!full && a[i]->name.empty()) continue; OK(j < b.size()); eq(a[i]->dimension, b[j]->dimension, l); if (full) eq(a[i]->updated, b[j]->updated, l); OK(a[i]->dataType == b[j]->dataType); eq(a[i]->name, b[j]->name, l); OK(a[i]->restriction == b[j]->restriction); if (!head) eq(a[i]->data, b[j]->data, l); OK(&b[j]->store == &b[j]->data); j++; } OK(j == b.size()); }
#define F(f) gen(a.f)
#define C(f) eq(a.f, b.f, #f)
template <class ST> static void dataTrips(const ST &a) { ST b; trip([&] { return a.packedDataHeaderSize(); }, [&](char *&p) { a.packDataHeader(p); }, [&](const char *&p) { b.unpackDataHeader(p); }); eqdata(a.data, b.data, true, false); size_t n = a.packedDataSize(); char *buf = new char[n]; char *p = buf; a.packData(p); sym_assert((size_t)(p - buf) <= n, "packed size is sufficient"); size_t w = p - buf; const char *q = buf; b.unpackData(q); sym_assert((size_t)(q - buf) == w, "unpacking reads everything that was packed"); delete[] buf; eqdata(a.data, b.data, false, false); }
static void region(RegionStore &a) { F(name); F(nodes); F(nodeInfo); }
static void regioneq(RegionStore &a, RegionStore &b) { C(name); C(nodes); C(nodeInfo); }
static void bregion(BoundaryRegionStore &a) { region(a); F(originalDimension); F(dimension); F(area); F(elements); F(triangles); F(epointers); F(emembership); F(eintervals); F(eintervalsDistribution); }
static void bregioneq(BoundaryRegionStore &a, BoundaryRegionStore &b, bool full) { regioneq(a, b); C(originalDimension); C(dimension); if (full) C(area); C(elements); if (full) C(triangles); C(epointers); C(emembership); C(eintervals); if (full) C(eintervalsDistribution); }
extern "C" void harness() {
  int op = sym_param(0, 0), mx = sym_param(1, 2), mt = sym_param(2, 2), ptrs = sym_param(3, 0); sym_forbid_reject = 1;
  N = sym_choose("n", 0, mx); T = sym_choose("threads", 1, mt); uniq_ = sym_choose("uniform", 0, 1); nullp = ptrs ? sym_choose("null", -2, ptrs - 1) : -1; info::env::OMP_NUM_THREADS = T; info::mpi::size = 1;
  for (int i = 0; i < (int)Element::CODE::SIZE; i++) Mesh::edata[i].code = (Element::CODE)i;
  switch (op) {
  case 0: { int x; double d; bool bo; char c; size_t z; Point p; gen(x); gen(d); gen(bo); gen(c); gen(z); gen(p); utrip(x, "int"); utrip(d, "double"); utrip(bo, "bool"); utrip(c, "char"); utrip(z, "size"); utrip(p, "point"); std::string s; gen(s); utrip(s, "string"); std::vector<int> v; gen(v); utrip(v, "vector"); std::vector<std::vector<double>> vv; gen(vv); utrip(vv, "vector of vectors"); std::vector<std::string> vs; gen(vs); utrip(vs, "strings");
    // over existing content
    std::vector<int> o(3, 5); utripInto(v, o, "vector replaced"); std::vector<std::string> os(2, "old"); utripInto(vs, os, "strings replaced"); std::string ot = "old content"; utripInto(s, ot, "string replaced"); std::vector<ElementsInterval> ei; gen(ei); utrip(ei, "intervals"); break; }
  case 1: { serializededata<esint, int> *a; serializededata<esint, Point> *b; gen(a); gen(b); serializededata<esint, int> *c = NULL; serializededata<esint, Point> *d = NULL; utripInto(a, c, "container"); utripInto(b, d, "container of points"); seq = 1000; nullp = -1; serializededata<esint, int> *e; N = 3 - N % 3; gen(e); utripInto(a, e, "replaced container");
    if (a) { N = 1; serializededata<esint, int> *f; gen(f); trip([&] { return a->packedSize(); }, [&](char *&p) { a->pack(p); }, [&](const char *&p) { f->unpack(p); }); eq(a, f, "container unpacked over another"); } break; }
  case 2: { std::vector<int> v; gen(v); size_t al[2] = {0, 64}; tarray<int> a(T, v, al[sym_choose("al", 0, 1)]), b(1, (size_t)sym_choose("old", 0, 2), 7, al[sym_choose("al2", 0, 1)]); trip([&] { return a.packedSize(); }, [&](char *&p) { a.pack(p); }, [&](const char *&p) { b.unpack(p); }); sym_assert(b.size() == v.size(), "array size"); eq(a.distribution(), b.distribution(), "distribution"); for (size_t i = 0; i < v.size(); i++) sym_assert(b[i] == v[i], "array values"); tarray<int> c(b); sym_assert(c.size() == v.size() && c.end() - c.begin() == (long)v.size(), "copy after unpacking"); break; }
  case 3: { NodeStore a, b; F(size); F(uniqInfo); F(distribution); F(IDs); F(elements); F(originCoordinates); F(coordinates); F(ranks); F(domains); int nd = sym_choose("nd", 0, 1); if (nd) { a.data.push_back(gdata<NodeData>(1)); a.data.push_back(gdata<NodeData>(0)); } ftrip(a, b); C(size); C(uniqInfo); C(distribution); C(IDs); C(elements); C(originCoordinates); C(coordinates); C(ranks); C(domains); eqdata(a.data, b.data, false, true);
    dataTrips(a); if (a.IDs && a.coordinates) { NodeStore c; trip([&] { return a.packedSize(); }, [&](char *&p) { a.pack(p); }, [&](const char *&p) { c.unpack(p); }); { auto &b = c; C(size); C(uniqInfo); C(IDs); C(coordinates); } } break; }
  case 4: { ElementStore a, b; F(distribution.threads); gend(a.distribution.process); F(distribution.code); F(IDs); F(nodes); F(centers); F(body); F(contact); F(material); F(regions); F(faceNeighbors); F(edgeNeighbors); F(stiffness); F(epointers); F(eintervals); F(eintervalsDistribution); a.distribution.process.size = nelem(); int nd = sym_choose("nd", 0, 1); if (nd) { a.data.push_back(gdata<ElementData>(0)); a.data.push_back(gdata<ElementData>(1)); } ftrip(a, b); C(distribution.threads); eqd(a.distribution.process, b.distribution.process, "process"); C(distribution.code); C(IDs); C(nodes); C(centers); C(body); C(contact); C(material); C(regions); C(faceNeighbors); C(edgeNeighbors); C(stiffness); C(epointers); C(eintervals); C(eintervalsDistribution); eqdata(a.data, b.data, false, true);
    dataTrips(a); if (a.nodes && a.epointers) { a.distribution.threads = a.epointers->datatarray().distribution(); ElementStore c; c.distribution.process.size = nelem(); trip([&] { return a.packedSize(); }, [&](char *&p) { a.pack(p); }, [&](const char *&p) { c.unpack(p); }); { auto &b = c; C(nodes); C(epointers); C(body); C(contact); C(eintervals); } } break; }
  case 5: { ElementsRegionStore a("r"); region(a); F(elements); F(eintervals); F(bodies); F(bodyElements); F(bodyFaces); F(contact); ElementsRegionStore b("old"); ftrip(a, b); regioneq(a, b); C(elements); C(eintervals); C(bodies); C(bodyElements); C(bodyFaces); C(contact); if (a.nodes && a.elements) { ElementsRegionStore c(""); trip([&] { return a.packedSize(); }, [&](char *&p) { a.pack(p); }, [&](const char *&p) { c.unpack(p); }); { auto &b = c; regioneq(a, b); C(elements); C(eintervals); } } break; }
  case 6: { BoundaryRegionStore a("r"), b("old"); bregion(a); ftrip(a, b); bregioneq(a, b, true); if (a.nodes && a.elements && a.epointers) { BoundaryRegionStore c(""); trip([&] { return a.packedSize(); }, [&](char *&p) { a.pack(p); }, [&](const char *&p) { c.unpack(p); }); bregioneq(a, c, false); } ContactInterfaceStore x("c", 3), y("d", 4); nullp = -1; N = 1; bregion(x); gen(x.interfaceIndex); ftrip(x, y); bregioneq(x, y, true); eq(x.interfaceIndex, y.interfaceIndex, "interface"); break; }
  case 7: { BodyStore a, b; gend(a); ftrip(a, b); eqd(a, b, "bodies"); { ClusterStore a, b; gend(a); ftrip(a, b); eqd(a, b, "clusters"); } { DomainStore a, b; gend(a); F(distribution); F(nodes); F(elements); F(cluster); F(dual); F(localDual); ftrip(a, b); eqd(a, b, "domains"); C(distribution); C(nodes); C(elements); C(cluster); C(dual); C(localDual); } { FETIDataStore a, b; F(corners); F(surfaceFixPoints); F(sFixPointsDistribution); F(innerFixPoints); F(iFixPointsDistribution); ftrip(a, b); C(corners); C(surfaceFixPoints); C(sFixPointsDistribution); C(innerFixPoints); C(iFixPointsDistribution); } { DomainSurfaceStore a, b; F(nodes); F(enodes); F(dnodes); F(denodes); F(coordinates); F(edistribution); F(epointers); ftrip(a, b); C(nodes); C(enodes); C(dnodes); C(denodes); C(coordinates); C(edistribution); C(epointers); } break; }
  case 8: { SurfaceStore a, b; F(parents); F(fID); F(contact); F(body); F(triangles); F(enodes); F(nIDs); F(coordinates); F(base); F(normal); F(parameters); F(nelements); F(IDs); F(neighbors); F(tdistribution); F(edistribution); F(offset); F(size); F(totalSize); F(epointers); F(ecounters); ftrip(a, b); C(parents); C(fID); C(contact); C(body); C(triangles); C(enodes); C(nIDs); C(coordinates); C(base); C(normal); C(parameters); C(nelements); C(IDs); C(neighbors); C(tdistribution); C(edistribution); C(offset); C(size); C(totalSize); C(epointers); C(ecounters); break; }
  case 9: { int x; std::string s; std::vector<double> v; std::vector<std::string> vs; gen(x); gen(s); gen(v); gen(vs); int x0 = x; auto s0 = s; auto v0 = v; auto vs0 = vs; Packer p(x, s), q(v, vs); p += q; p.pack(); size_t n = p.size(); sym_assert(n == utils::packedSize(x) + utils::packedSize(s) + utils::packedSize(v) + utils::packedSize(vs), "size of the packed record"); x = 1; s = "other"; v.assign(3, 1.); vs.assign(1, "z"); p.unpack(); eq(x, x0, "value"); eq(s, s0, "text"); eq(v, v0, "values"); eq(vs, vs0, "texts"); break; }
  }
  sym_reach("end");
}
