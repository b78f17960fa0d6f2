// Mini-MPI: interpreted model of the MPI calls espreso uses.  All ranks live in one
// engine process (coroutines); state shared between the ranks is in symshared memory.
#define OMPI_OMIT_MPI1_COMPAT_DECLS 0
struct ompi_predefined_communicator_t { int id, n; int *world; };
struct ompi_predefined_datatype_t { int size, kind; };
struct ompi_predefined_op_t { int kind; void (*fn)(void *, void *, int *, void *); };
struct ompi_predefined_group_t { int n; int *world; };
struct ompi_predefined_request_t { int x; };
struct ompi_predefined_info_t { int x; };
#include <mpi.h>
#include "sym.h"
#include <vector>
#include <cstring>
#include <cstdlib>
typedef ompi_predefined_communicator_t C; typedef ompi_predefined_datatype_t T; typedef ompi_predefined_op_t O; typedef ompi_predefined_group_t G;
enum K { KB, KC, KSC, KS, KI, KU, KL, KUL, KF, KD, KDC };
extern "C" {
SYM_SHARED C ompi_mpi_comm_world = {0, 1, nullptr}; SYM_SHARED C ompi_mpi_comm_self = {-1, 1, nullptr}; SYM_SHARED C ompi_mpi_comm_null = {-2, 0, nullptr};
#define TY(n, s, k) SYM_SHARED T n = {s, k};
TY(ompi_mpi_byte, 1, KB) TY(ompi_mpi_char, 1, KC) TY(ompi_mpi_signed_char, 1, KSC) TY(ompi_mpi_unsigned_char, 1, KB) TY(ompi_mpi_short, 2, KS) TY(ompi_mpi_int, 4, KI) TY(ompi_mpi_unsigned, 4, KU) TY(ompi_mpi_long, 8, KL) TY(ompi_mpi_unsigned_long, 8, KUL)
TY(ompi_mpi_long_long_int, 8, KL) TY(ompi_mpi_unsigned_long_long, 8, KUL) TY(ompi_mpi_float, 4, KF) TY(ompi_mpi_double, 8, KD) TY(ompi_mpi_c_double_complex, 16, KDC) TY(ompi_mpi_dblcplex, 16, KDC) TY(ompi_mpi_cxx_dblcplex, 16, KDC) TY(ompi_mpi_uint64_t, 8, KUL) TY(ompi_mpi_int64_t, 8, KL) TY(ompi_mpi_int32_t, 4, KI) TY(ompi_mpi_datatype_null, 0, 0) TY(ompi_mpi_cxx_bool, 1, KB) TY(ompi_mpi_c_bool, 1, KB)
#define OPD(n, k) SYM_SHARED O n = {k, nullptr};
OPD(ompi_mpi_op_max, 1) OPD(ompi_mpi_op_min, 2) OPD(ompi_mpi_op_sum, 3) OPD(ompi_mpi_op_land, 4) OPD(ompi_mpi_op_lor, 5) OPD(ompi_mpi_op_band, 6) OPD(ompi_mpi_op_bor, 7) OPD(ompi_mpi_op_prod, 8) OPD(ompi_mpi_op_null, 0)
SYM_SHARED ompi_predefined_request_t ompi_request_null = {0}; SYM_SHARED ompi_predefined_info_t ompi_mpi_info_null = {0}; SYM_SHARED G ompi_mpi_group_null = {0, nullptr};
SYM_SHARED int mpi_sync_send = 0;   // 1: standard-mode sends complete only when received
SYM_SHARED int mpi_choose_any = 1;  // 1: every available sender is explored for wildcard receives
}
static C *c_(MPI_Comm c) { return (C *)c; } static T *t_(MPI_Datatype t) { return (T *)t; } static O *o_(MPI_Op o) { return (O *)o; }
struct Msg { int src, dst, comm, tag; char *data; long n; struct Req *sreq; bool taken; };
struct Req { bool done, isrecv; int src, tag, comm, owner; void *buf; long cap; int rsrc, rtag; long rn; };
struct Slot { int comm, seq, arrived, left, kind; bool done; struct A { bool in; const void *s; void *r; long n, rn; T *t, *rt; O *op; int root; const int *sc, *sd, *rc, *rd; int a, b; void *out; } *a; };
struct St { std::vector<Msg *> msgs; std::vector<Req *> recvs; std::vector<Slot *> slots; int ncomm = 1; int n = 1; std::vector<std::vector<int>> seq; std::vector<std::pair<std::vector<int>, C *>> groups; };
SYM_SHARED static St *S = nullptr;
static int me() { int r = sym_rank(); return r < 0 ? 0 : r; }
static St *st() { if (!S) { S = new St(); ompi_mpi_comm_world.world = (int *)calloc(16, 4); for (int i = 0; i < 16; i++) ompi_mpi_comm_world.world[i] = i; } return S; }
extern "C" void mpi_run(int n, void (*fn)(int)) { st(); S->n = n; ompi_mpi_comm_world.n = n; S->seq.clear(); S->slots.clear(); sym_run_ranks(n, fn);
  for (auto *m : S->msgs) if (!m->taken) sym_fail("a message was never received"); S->msgs.clear(); S->recvs.clear(); ompi_mpi_comm_world.n = 1; S->n = 1; }
static int crank(C *c) { if (c->id == -1) return 0; for (int i = 0; i < c->n; i++) if (c->world[i] == me()) return i; return -1; }
static int wof(C *c, int r) { return c->id == -1 ? me() : c->world[r]; }
static int cid(C *c) { return c->id == -1 ? -1000 - me() : c->id; }
static bool match(Msg *m, Req *r) { return !m->taken && m->dst == r->owner && m->comm == r->comm && (r->src == -1 || r->src == m->src) && (r->tag == -1 || r->tag == m->tag); }
static void deliver(Msg *m, Req *r) { if (m->n > r->cap) sym_fail("MPI: message longer than the receive buffer"); if (m->n) memcpy(r->buf, m->data, m->n); r->rsrc = m->src; r->rtag = m->tag; r->rn = m->n; r->done = true; m->taken = true; if (m->sreq) m->sreq->done = true; sym_progress(); }
static void gc() { auto &v = S->msgs; size_t k = 0; for (size_t i = 0; i < v.size(); i++) if (!v[i]->taken) v[k++] = v[i]; else { free(v[i]->data); delete v[i]; } v.resize(k); }
static void *post(const void *b, long n, MPI_Comm cc, int dst, int tag, Req *rq) {
  st(); C *c = c_(cc); if (dst < 0 || dst >= (c->id == -1 ? 1 : c->n)) sym_fail("MPI: invalid destination rank"); if (tag < 0) sym_fail("MPI: invalid tag"); if (n < 0) sym_fail("MPI: negative count");
  Msg *m = new Msg(); m->src = crank(c); m->dst = wof(c, dst); m->comm = cid(c); m->tag = tag; m->n = n; m->data = (char *)malloc(n ? n : 1); if (n) memcpy(m->data, b, n); m->sreq = rq; m->taken = false;
  S->msgs.push_back(m); sym_progress();
  for (size_t i = 0; i < S->recvs.size(); i++) { Req *r = S->recvs[i]; if (!r->done && match(m, r)) { deliver(m, r); S->recvs.erase(S->recvs.begin() + i); break; } }
  return m; }
// the sender chosen by a wildcard receive is an input variable (native replay reads it, too)
static Msg *pick(int owner, std::vector<Msg *> &cand) { char nmb[16] = "any_r0"; nmb[5] = '0' + owner; int v = sym_int(nmb, 0, 15); for (size_t i = 0; i + 1 < cand.size(); i++) if (v == cand[i]->src) return cand[i]; sym_assume(v == cand.back()->src); return cand.back(); }
static Msg *findMsg(int owner, int comm, int src, int tag) {
  Req q; q.owner = owner; q.comm = comm; q.src = src; q.tag = tag;
  std::vector<Msg *> cand; for (auto *m : S->msgs) if (match(m, &q)) { bool dup = false; for (auto *x : cand) if (x->src == m->src) dup = true; if (!dup) cand.push_back(m); }
  if (cand.empty()) return nullptr; if (src != -1) return cand[0]; if (!mpi_choose_any) cand.resize(1);
  // choose the lowest `k`-th source; order by source so that the choice is schedule independent
  for (size_t i = 0; i < cand.size(); i++) for (size_t j = i + 1; j < cand.size(); j++) if (cand[j]->src < cand[i]->src) { Msg *t = cand[i]; cand[i] = cand[j]; cand[j] = t; }
  return pick(owner, cand); }
static void postRecv(Req *r, void *b, long cap, MPI_Comm cc, int src, int tag) { st(); C *c = c_(cc); if (src != -1 && (src < 0 || src >= (c->id == -1 ? 1 : c->n))) sym_fail("MPI: invalid source rank"); r->done = false; r->isrecv = true; r->src = src; r->tag = tag; r->comm = cid(c); r->owner = me(); r->buf = b; r->cap = cap;
  Msg *m = findMsg(me(), r->comm, src, tag); if (m) { deliver(m, r); return; } S->recvs.push_back(r); sym_progress(); }
static void setst(MPI_Status *s, int src, int tag, long n) { if (s != MPI_STATUS_IGNORE && s != MPI_STATUSES_IGNORE) { s->MPI_SOURCE = src; s->MPI_TAG = tag; s->MPI_ERROR = 0; s->_ucount = n; } }
// ---- collectives: executed by the last process to arrive
static bool toBool(bool b) { return b; }
template <class V> static void red(V *o, const V *i, long n, int k) { for (long q = 0; q < n; q++) switch (k) { case 1: o[q] = i[q] > o[q] ? i[q] : o[q]; break; case 2: o[q] = i[q] < o[q] ? i[q] : o[q]; break; case 3: o[q] += i[q]; break; case 8: o[q] *= i[q]; break; case 4: o[q] = o[q] && i[q]; break; case 5: o[q] = o[q] || i[q]; break; default: sym_fail("MPI model: operation"); } }
template <class V> static void redi(V *o, const V *i, long n, int k) { if (k == 6) { for (long q = 0; q < n; q++) o[q] &= i[q]; } else if (k == 7) { for (long q = 0; q < n; q++) o[q] |= i[q]; } else red(o, i, n, k); }
static void apply(T *t, O *op, void *out, void *in, long n) {
  if (op->fn) { int len = n; MPI_Datatype d = (MPI_Datatype)t; op->fn(in, out, &len, &d); return; }
  switch (t->kind) { case KB: redi((unsigned char *)out, (unsigned char *)in, n, op->kind); break; case KC: case KSC: redi((signed char *)out, (signed char *)in, n, op->kind); break; case KS: redi((short *)out, (short *)in, n, op->kind); break; case KI: redi((int *)out, (int *)in, n, op->kind); break; case KU: redi((unsigned *)out, (unsigned *)in, n, op->kind); break; case KL: redi((long *)out, (long *)in, n, op->kind); break; case KUL: redi((unsigned long *)out, (unsigned long *)in, n, op->kind); break; case KF: red((float *)out, (float *)in, n, op->kind); break; case KD: red((double *)out, (double *)in, n, op->kind); break; case KDC: if (op->kind != 3) sym_fail("MPI model: complex op"); red((double *)out, (double *)in, 2 * n, 3); break; default: sym_fail("MPI model: type"); } }
enum { CBAR = 1, CBC, CRED, CARED, CSCAN, CEXSCAN, CGATHER, CAGATHER, CGATHERV, CAGATHERV, CSCATTER, CSCATTERV, CA2A, CA2AV, CDUP, CSPLIT };
static void exec(Slot *s, C *c) {
  int n = c->n; auto *a = s->a; if (n == 0) return;
  auto cp = [](void *d, const void *q, long b) { if (b && d != q) memmove(d, q, b); };
  switch (s->kind) {
  case CBAR: break;
  case CBC: for (int i = 0; i < n; i++) { if (a[i].root != a[0].root) sym_fail("MPI: roots differ"); long w = a[i].n * a[i].t->size, r = a[a[0].root].n * a[a[0].root].t->size; if (w < r) sym_fail("MPI: broadcast truncated"); if (w != r) sym_fail("MPI: broadcast sizes differ"); cp(a[i].r, a[a[0].root].r, r); } break;
  case CRED: case CARED: { long b = a[0].n * a[0].t->size; char *acc = (char *)malloc(b ? b : 1); for (int i = 0; i < n; i++) { if (a[i].n != a[0].n || a[i].t->size != a[0].t->size || a[i].op->kind != a[0].op->kind) sym_fail("MPI: reductions differ between processes"); const void *in = a[i].s == MPI_IN_PLACE ? a[i].r : a[i].s; if (!i) cp(acc, in, b); else { char *tmp = (char *)malloc(b ? b : 1); cp(tmp, in, b); apply(a[0].t, a[0].op, acc, tmp, a[0].n); free(tmp); } }
    for (int i = 0; i < n; i++) if (s->kind == CARED || i == a[0].root) cp(a[i].r, acc, b); free(acc); break; }
  case CSCAN: case CEXSCAN: { long b = a[0].n * a[0].t->size; char *acc = (char *)malloc(b ? b : 1), *tmp = (char *)malloc(b ? b : 1); for (int i = 0; i < n; i++) { if (a[i].n != a[0].n || a[i].t->size != a[0].t->size || a[i].op->kind != a[0].op->kind) sym_fail("MPI: scans differ between processes"); const void *in = a[i].s == MPI_IN_PLACE ? a[i].r : a[i].s; cp(tmp, in, b); if (s->kind == CEXSCAN && i) cp(a[i].r, acc, b); if (!i) cp(acc, tmp, b); else { // acc = acc op tmp with acc the lower ranks
      apply(a[0].t, a[0].op, tmp, acc, a[0].n); cp(acc, tmp, b); } if (s->kind == CSCAN) cp(a[i].r, acc, b); } free(acc); free(tmp); break; }
  case CGATHER: case CAGATHER: for (int q = 0; q < n; q++) if (s->kind == CAGATHER || q == a[0].root) for (int i = 0; i < n; i++) { long b = a[q].rn * a[q].rt->size; if (a[i].s != MPI_IN_PLACE && a[i].n * a[i].t->size != b) sym_fail("MPI: gather sizes differ"); cp((char *)a[q].r + i * b, a[i].s == MPI_IN_PLACE ? (s->kind == CAGATHER ? (char *)a[i].r + i * b : (char *)a[q].r + i * b) : (char *)a[i].s, b); } break;
  case CGATHERV: case CAGATHERV: for (int q = 0; q < n; q++) if (s->kind == CAGATHERV || q == a[0].root) for (int i = 0; i < n; i++) { long z = a[q].rt->size, b = a[q].rc[i] * z; if (a[i].s != MPI_IN_PLACE && a[i].n * a[i].t->size > b) sym_fail("MPI: gatherv truncated"); if (a[i].s != MPI_IN_PLACE) b = a[i].n * a[i].t->size; cp((char *)a[q].r + a[q].rd[i] * z, a[i].s == MPI_IN_PLACE ? (char *)a[i].r + a[i].rd[i] * z : (char *)a[i].s, b); } break;
  case CSCATTER: for (int i = 0; i < n; i++) { long b = a[i].rn * a[i].rt->size; if (a[a[0].root].n * a[a[0].root].t->size != b) sym_fail("MPI: scatter sizes differ"); cp(a[i].r, (char *)a[a[0].root].s + i * b, b); } break;
  case CSCATTERV: for (int i = 0; i < n; i++) { auto &r = a[a[0].root]; long z = r.t->size, b = r.sc[i] * z; if (a[i].rn * a[i].rt->size < b) sym_fail("MPI: scatterv truncated"); cp(a[i].r, (char *)r.s + r.sd[i] * z, b); } break;
  case CA2A: for (int q = 0; q < n; q++) for (int i = 0; i < n; i++) { long b = a[q].rn * a[q].rt->size; if (a[i].n * a[i].t->size != b) sym_fail("MPI: alltoall sizes differ"); cp((char *)a[q].r + i * b, (char *)a[i].s + q * b, b); } break;
  case CA2AV: for (int q = 0; q < n; q++) for (int i = 0; i < n; i++) { long b = (long)a[i].sc[q] * a[i].t->size; if ((long)a[q].rc[i] * a[q].rt->size < b) sym_fail("MPI: alltoallv truncated"); cp((char *)a[q].r + (long)a[q].rd[i] * a[q].rt->size, (char *)a[i].s + (long)a[i].sd[q] * a[i].t->size, b); } break;
  case CDUP: { C *k = new C{S->ncomm++, n, c->world}; for (int i = 0; i < n; i++) a[i].out = k; break; }
  case CSPLIT: { for (int i = 0; i < n; i++) a[i].out = nullptr; for (int i = 0; i < n; i++) { if (a[i].out) continue; if (a[i].a == MPI_UNDEFINED) { a[i].out = &ompi_mpi_comm_null; continue; } C *k = new C{S->ncomm++, 0, (int *)calloc(n, 4)}; std::vector<int> m; for (int j = 0; j < n; j++) if (a[j].a == a[i].a) m.push_back(j);
      for (size_t p = 0; p < m.size(); p++) for (size_t q = p + 1; q < m.size(); q++) if (a[m[q]].b < a[m[p]].b || (a[m[q]].b == a[m[p]].b && m[q] < m[p])) { int t = m[p]; m[p] = m[q]; m[q] = t; }
      for (int j : m) { k->world[k->n++] = c->world[j]; a[j].out = k; } } break; }
  } }
static C selfcomm() { C s; s.id = -1; s.n = 1; s.world = nullptr; return s; }
static Slot::A blank() { Slot::A a; memset(&a, 0, sizeof a); return a; }
static void *coll(int kind, MPI_Comm cc, Slot::A d) {
  st(); C *c = c_(cc); if (c->id == -2) sym_fail("MPI: null communicator");
  int world = me(); std::vector<int> one(1, world); C tmp{-1, 1, one.data()}; if (c->id == -1) { Slot s; s.kind = kind; Slot::A arr[1] = {d}; s.a = arr; exec(&s, &tmp); return arr[0].out; }
  int r = crank(c); if (r < 0) sym_fail("MPI: not a member of the communicator");
  while ((int)S->seq.size() <= c->id) S->seq.emplace_back(16, 0);
  int q = S->seq[c->id][r]++; Slot *s = nullptr; for (auto *x : S->slots) if (x->comm == c->id && x->seq == q) s = x;
  if (!s) { s = new Slot(); s->comm = c->id; s->seq = q; s->arrived = 0; s->left = c->n; s->done = false; s->kind = kind; s->a = (Slot::A *)calloc(c->n, sizeof(Slot::A)); S->slots.push_back(s); }
  if (s->kind != kind) sym_fail("MPI: processes call different collective operations");
  d.in = true; s->a[r] = d; sym_progress();
  if (++s->arrived == c->n) { exec(s, c); s->done = true; sym_progress(); }
  while (!s->done) sym_block();
  void *o = s->a[r].out; if (--s->left == 0) { for (size_t i = 0; i < S->slots.size(); i++) if (S->slots[i] == s) { S->slots.erase(S->slots.begin() + i); break; } free(s->a); delete s; }
  return o; }
extern "C" {
int MPI_Init(int *, char ***) { return 0; } int MPI_Init_thread(int *, char ***, int r, int *p) { *p = r; return 0; } int MPI_Finalize() { return 0; } int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { st(); *r = crank(c_(c)); return 0; } int MPI_Comm_size(MPI_Comm c, int *s) { st(); *s = c_(c)->id == -1 ? 1 : c_(c)->n; return 0; }
int MPI_Abort(MPI_Comm, int) { sym_reject("MPI_Abort"); } double MPI_Wtime() { return 0; }
int MPI_Get_processor_name(char *n, int *l) { n[0] = 'x'; n[1] = 0; *l = 1; return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { if (mpi_sync_send) { Req r; r.done = false; post(b, (long)n * t_(t)->size, c, dst, tag, &r); while (!r.done) sym_block(); } else post(b, (long)n * t_(t)->size, c, dst, tag, nullptr); return 0; }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { Req r; r.done = false; post(b, (long)n * t_(t)->size, c, dst, tag, &r); while (!r.done) sym_block(); return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) { Req *r = new Req(); r->isrecv = false; r->done = !mpi_sync_send; *q = (MPI_Request)r; post(b, (long)n * t_(t)->size, c, dst, tag, mpi_sync_send ? r : nullptr); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q) { Req *r = new Req(); *q = (MPI_Request)r; postRecv(r, b, (long)n * t_(t)->size, c, src, tag); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) { if (src == MPI_ANY_SOURCE) sym_yield(); Req r; postRecv(&r, b, (long)n * t_(t)->size, c, src, tag); while (!r.done) sym_block(); setst(s, r.rsrc, r.rtag, r.rn); gc(); return 0; }
int MPI_Wait(MPI_Request *q, MPI_Status *s) { if (*q == MPI_REQUEST_NULL) return 0; Req *r = (Req *)*q; while (!r->done) sym_block(); if (r->isrecv) setst(s, r->rsrc, r->rtag, r->rn); delete r; *q = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *s) { for (int i = 0; i < n; i++) MPI_Wait(q + i, s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : s + i); return 0; }
int MPI_Waitany(int n, MPI_Request *q, int *k, MPI_Status *s) { for (;;) { bool any = false; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { any = true; if (((Req *)q[i])->done) { *k = i; return MPI_Wait(q + i, s); } } if (!any) { *k = MPI_UNDEFINED; return 0; } sym_block(); } }
int MPI_Test(MPI_Request *q, int *f, MPI_Status *s) { if (*q == MPI_REQUEST_NULL) { *f = 1; return 0; } sym_yield(); *f = ((Req *)*q)->done; if (*f) MPI_Wait(q, s); return 0; }
int MPI_Probe(int src, int tag, MPI_Comm cc, MPI_Status *s) { st(); if (src == MPI_ANY_SOURCE) sym_yield(); for (;;) { Msg *m = findMsg(me(), cid(c_(cc)), src, tag); if (m) { setst(s, m->src, m->tag, m->n); return 0; } sym_block(); } }
int MPI_Iprobe(int src, int tag, MPI_Comm cc, int *f, MPI_Status *s) { st(); sym_yield(); Msg *m = findMsg(me(), cid(c_(cc)), src, tag); *f = m != nullptr; if (m) setst(s, m->src, m->tag, m->n); return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { long z = t_(t)->size; *n = z && s->_ucount % z == 0 ? (int)(s->_ucount / z) : MPI_UNDEFINED; return 0; }
int MPI_Sendrecv(const void *b, int n, MPI_Datatype t, int dst, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *s) { Req r; postRecv(&r, rb, (long)rn * t_(rt)->size, c, src, rtag); post(b, (long)n * t_(t)->size, c, dst, stag, nullptr); while (!r.done) sym_block(); setst(s, r.rsrc, r.rtag, r.rn); return 0; }
int MPI_Barrier(MPI_Comm c) { coll(CBAR, c, blank()); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { auto a = blank(); a.r = b; a.n = n; a.t = t_(t); a.root = root; coll(CBC, c, a); return 0; }
static Slot::A mkred(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root) { auto a = blank(); a.s = s; a.r = r; a.n = n; a.t = t_(t); a.op = o_(o); a.root = root; return a; }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { coll(CRED, c, mkred(s, r, n, t, o, root)); return 0; }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll(CARED, c, mkred(s, r, n, t, o, 0)); return 0; }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request *q) { coll(CARED, c, mkred(s, r, n, t, o, 0)); Req *x = new Req(); x->isrecv = false; x->done = true; *q = (MPI_Request)x; return 0; }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll(CSCAN, c, mkred(s, r, n, t, o, 0)); return 0; }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll(CEXSCAN, c, mkred(s, r, n, t, o, 0)); return 0; }
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { auto a = blank(); a.s = s; a.n = n; a.t = t_(t); a.r = r; a.rn = rn; a.rt = t_(rt); a.root = root; coll(CGATHER, c, a); return 0; }
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { auto a = blank(); a.s = s; a.n = n; a.t = t_(t); a.r = r; a.rn = rn; a.rt = t_(rt); coll(CAGATHER, c, a); return 0; }
int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c) { auto a = blank(); a.s = s; a.n = n; a.t = t_(t); a.r = r; a.rc = rc; a.rd = rd; a.rt = t_(rt); a.root = root; coll(CGATHERV, c, a); return 0; }
int MPI_Allgatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { auto a = blank(); a.s = s; a.n = n; a.t = t_(t); a.r = r; a.rc = rc; a.rd = rd; a.rt = t_(rt); coll(CAGATHERV, c, a); return 0; }
int MPI_Scatter(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { auto a = blank(); a.s = s; a.n = n; a.t = t_(t); a.r = r; a.rn = rn; a.rt = t_(rt); a.root = root; coll(CSCATTER, c, a); return 0; }
int MPI_Scatterv(const void *s, const int *sc, const int *sd, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { auto a = blank(); a.s = s; a.sc = sc; a.sd = sd; a.t = t_(t); a.r = r; a.rn = rn; a.rt = t_(rt); a.root = root; coll(CSCATTERV, c, a); return 0; }
int MPI_Alltoall(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { auto a = blank(); a.s = s; a.n = n; a.t = t_(t); a.r = r; a.rn = rn; a.rt = t_(rt); coll(CA2A, c, a); return 0; }
int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype t, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { auto a = blank(); a.s = s; a.sc = sc; a.sd = sd; a.t = t_(t); a.r = r; a.rc = rc; a.rd = rd; a.rt = t_(rt); coll(CA2AV, c, a); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { if (c_(c)->id == -1) { *o = c; return 0; } *o = (MPI_Comm)coll(CDUP, c, blank()); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) { if (c_(c)->id == -1) { *o = c; return 0; } auto a = blank(); a.a = color; a.b = key; *o = (MPI_Comm)coll(CSPLIT, c, a); return 0; }
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *o) { return MPI_Comm_split(c, 0, key, o); }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { C *k = c_(c); G *x = new G{k->n, k->world}; if (k->id == -1) { x->n = 1; x->world = (int *)malloc(4); x->world[0] = me(); } *g = (MPI_Group)x; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) { G *p = (G *)g; G *x = new G{n, (int *)malloc(n ? n * 4 : 4)}; for (int i = 0; i < n; i++) { if (r[i] < 0 || r[i] >= p->n) sym_fail("MPI: invalid rank in a group"); x->world[i] = p->world[r[i]]; } *o = (MPI_Group)x; return 0; }
int MPI_Group_free(MPI_Group *g) { *g = (MPI_Group)&ompi_mpi_group_null; return 0; }
int MPI_Comm_create_group(MPI_Comm, MPI_Group g, int, MPI_Comm *o) { st(); G *p = (G *)g; std::vector<int> w(p->world, p->world + p->n); C *k = nullptr; for (auto &x : S->groups) if (x.first == w) k = x.second; if (!k) { k = new C{S->ncomm++, p->n, (int *)malloc(p->n * 4 + 4)}; memcpy(k->world, w.data(), p->n * 4); S->groups.push_back({w, k}); } MPI_Barrier((MPI_Comm)k); *o = (MPI_Comm)k; return 0; }
SYM_SHARED static int tagub = 0x7fffffff;
int MPI_Comm_get_attr(MPI_Comm, int, void *v, int *f) { *(void **)v = &tagub; *f = 1; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) { *o = (MPI_Datatype) new T{n * t_(t)->size, n == 1 ? t_(t)->kind : 99}; return 0; } int MPI_Type_commit(MPI_Datatype *) { return 0; } int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return 0; } int MPI_Type_size(MPI_Datatype t, int *s) { *s = t_(t)->size; return 0; }
int MPI_Op_create(MPI_User_function *f, int, MPI_Op *o) { *o = (MPI_Op) new O{100, (void (*)(void *, void *, int *, void *))f}; return 0; } int MPI_Op_free(MPI_Op *o) { *o = MPI_OP_NULL; return 0; }
}
extern "C" MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return 0; }
