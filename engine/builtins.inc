// builtin functions of symx (included by symx.cpp)
static std::map<std::tuple<std::string, u32, u64, u32, u64>, Val> ufMemo;
static Val symMath(const std::string &n, Val a, Val b, u32 w) {
  if (g_ieee) unsupported("symbolic " + n + " in ieee mode");
  if (n.find("pow") != std::string::npos && !b.s) { double k = fpval(b.c, w); if (k == std::floor(k) && std::fabs(k) <= 8) { Val x = cv(fpbits(1, w)); for (int q = 0; q < (int)std::fabs(k); q++) x = vFBin(FMUL, x, a, w); if (k < 0) { if (decide(vFCmp(FEQ, x, cv(0), w))) return cv(fpbits(INFINITY, w)); return vFBin(FDIV, cv(fpbits(1, w)), x, w); } return x; }
    if (k == 0.5) return doSqrt(a, w); }
  auto key = std::make_tuple(n, a.s ? a.s->id : 0, a.s ? 0 : a.c, b.s ? b.s->id : 0, b.s ? 0 : b.c);
  auto it = ufMemo.find(key); if (it != ufMemo.end()) return it->second;
  note("transcendental " + n + " treated as an uninterpreted function"); Val r = freshReal("$uf", w); ufMemo[key] = r; return r;
}
#define A0 vNorm(x.a[0])
#define A1 vNorm(x.a[1])
#define A2 vNorm(x.a[2])
#define BI(name) static void name(CallCtx &x)
static u64 cA(CallCtx &x, int i, u32 w = 64) { Val v = vNorm(x.a[i]); return v.s ? concretize(v, w) : v.c; }
BI(bi_nop) {}
BI(bi_zero) { x.ret[0] = cv(0); }
BI(bi_malloc) { u64 n = cA(x, 0); u64 p = heapAlloc(n, 16, "heap", 0xAA); x.ret[0] = cv(p); }
BI(bi_new) { u64 n = cA(x, 0); u64 p = heapAlloc(n, 16, "new", 0xAA); if (!p) { note("operator new: out of memory request " + std::to_string(n)); violation("memory error", "operator new with absurd size " + std::to_string(n), nullptr); endPath(3); } x.ret[0] = cv(p); }
BI(bi_newal) { u64 n = cA(x, 0), al = cA(x, 1); x.ret[0] = cv(heapAlloc(n, al, "new", 0xAA)); }
BI(bi_calloc) { u64 n = cA(x, 0) * cA(x, 1); x.ret[0] = cv(heapAlloc(n, 16, "heap", 0)); }
BI(bi_memalign) { u64 al = cA(x, 0), n = cA(x, 1); x.ret[0] = cv(heapAlloc(n, al, "heap", 0xAA)); }
BI(bi_posix_memalign) { u64 pp = cA(x, 0), al = cA(x, 1), n = cA(x, 2); checkAccess(pp, 8, true); u64 p = heapAlloc(n, al, "heap", 0xAA); rawWrite(pp, LI64, cv(p)); x.ret[0] = cv(p ? 0 : 12); }
static void doFree(u64 p) { if (!p) return; if (!inArena(p)) { free((void *)p); return; } Obj *o = objAt(p); if (!o || o->base != p || !o->heap) { violation("memory error", "invalid free", nullptr); endPath(3); } if (!o->alive) { violation("memory error", "double free", nullptr); endPath(3); } arenaFree(p); }
BI(bi_free) { doFree(cA(x, 0)); }
BI(bi_realloc) { u64 p = cA(x, 0), n = cA(x, 1); if (!p) { x.ret[0] = cv(heapAlloc(n, 16, "heap", 0xAA)); return; } Obj *o = objAt(p); if (!o || o->base != p || !o->alive) { violation("memory error", "invalid realloc", nullptr); endPath(3); } u64 os = o->size; u64 q = heapAlloc(n, 16, "heap", 0xAA); copyMem(q, p, std::min(os, n)); doFree(p); x.ret[0] = cv(q); }
BI(bi_memcpy) { u64 k = cA(x, 2), d = cA(x, 0), s = cA(x, 1); if (k) { checkAccess(s, k, false); checkAccess(d, k, true); copyMem(d, s, k); } x.ret[0] = cv(d); }
BI(bi_memset) { u64 k = cA(x, 2), d = cA(x, 0); Val v = A1; if (v.s) v = vExtract(v, 0, 8, 32); if (k) { checkAccess(d, k, true); for (u64 i = 0; i < k; i++) rawWrite(d + i, LI8, v.s ? v : cv(v.c & 255)); } x.ret[0] = cv(d); }
BI(bi_memcmp) { u64 k = cA(x, 2), a = cA(x, 0), b = cA(x, 1); if (!k) { x.ret[0] = cv(0); return; } checkAccess(a, k, false); checkAccess(b, k, false);
  if (!symIn(a, k) && !symIn(b, k)) { x.ret[0] = cv((u64)memcmp((void *)a, (void *)b, k) & 0xffffffff); return; }
  Val r = cv(0); for (i64 i = k - 1; i >= 0; i--) { Val p = readByte(a + i), q = readByte(b + i); Val ne = vNot(vCmp(EQ, p, q, 8)); r = vIte(ne, vBin(SUB, vZext(p, 8, 32), vZext(q, 8, 32), 32), r, 32, false); } x.ret[0] = r; }
static Val mkRangeInt(const std::string &n, i64 lo, i64 hi, u32 w) {
  if (lo > hi) endPath(2);
  u64 span = (u64)(hi - lo); if (span == 0) { mkVar(n, 1, false); return cv((u64)lo & maskw(w)); }
  if (w == 64 && span == ~0ull) { return Val{0, mkVar(n, 64, false)}; }
  // variable as narrow as the range: value = lo + zext(v)
  u32 b = 64 - __builtin_clzll(span); if (b > w) b = w; Val v{0, mkVar(n, b, false)};
  if (span != maskw(b)) { Val c = vCmp(ULE, v, cv(span), b); PC.push_back(c.s); addKnown(c.s, true); }
  return vBin(ADD, vZext(v, b, w), cv((u64)lo & maskw(w)), w);
}
// the replay file stores the raw variable; sym_int reconstructs lo + v
BI(bi_sym_int) { x.ret[0] = mkRangeInt(cstr(cA(x, 0)), sx(cA(x, 1, 32), 32), sx(cA(x, 2, 32), 32), 32); }
BI(bi_sym_long) { x.ret[0] = mkRangeInt(cstr(cA(x, 0)), (i64)cA(x, 1), (i64)cA(x, 2), 64); }
BI(bi_sym_choose) { Val v = mkRangeInt(cstr(cA(x, 0)), sx(cA(x, 1, 32), 32), sx(cA(x, 2, 32), 32), 32); x.ret[0] = cv(concretize(v, 32)); }
BI(bi_sym_bool) { Val v{0, mkVar(cstr(cA(x, 0)), 1, false)}; x.ret[0] = v; }
BI(bi_sym_u8) { x.ret[0] = Val{0, mkVar(cstr(cA(x, 0)), 8, false)}; }
BI(bi_sym_u32) { x.ret[0] = Val{0, mkVar(cstr(cA(x, 0)), 32, false)}; }
BI(bi_sym_u64) { x.ret[0] = Val{0, mkVar(cstr(cA(x, 0)), 64, false)}; }
BI(bi_sym_double) { x.ret[0] = Val{0, mkVar(cstr(cA(x, 0)), 64, true)}; }
BI(bi_sym_bytes) { u64 p = cA(x, 0), n = cA(x, 1); std::string nm = cstr(cA(x, 2)); checkAccess(p, n, true); for (u64 i = 0; i < n; i++) rawWrite(p + i, LI8, Val{0, mkVar(nm + "[" + std::to_string(i) + "]", 8, false)}); }
BI(bi_sym_assume) { Val c = A0; if (c.s && c.s->w > 1) c = vNot(vCmp(EQ, c, cv(0), c.s->w)); doAssume(c); }
BI(bi_sym_assert) { Val c = A0; if (c.s && c.s->w > 1) c = vNot(vCmp(EQ, c, cv(0), c.s->w)); else if (!c.s) c = cv(c.c != 0); doAssert(c, cstr(cA(x, 1))); }
BI(bi_sym_assert_eq_d) { Val a = A0, b = A1; std::string l = cstr(cA(x, 2)); if (!a.s && !b.s) { double p = asD(a.c), q = asD(b.c); bool ok = (p == q) || std::fabs(p - q) <= 1e-9 * std::max({1.0, std::fabs(p), std::fabs(q)}); doAssert(cv(ok), l); } else { if ((!a.s && !std::isfinite(asD(a.c))) || (!b.s && !std::isfinite(asD(b.c)))) doAssert(cv(0), l); doAssert(vFCmp(FEQ, a, b, 64), l); } }
// |a-b| <= tol
BI(bi_sym_assert_near_d) { Val a = A0, b = A1, t = A2; std::string l = cstr(cA(x, 3)); Val d = vFBin(FSUB, a, b, 64); if (!d.s) doAssert(cv(std::fabs(asD(d.c)) <= asD(t.c)), l); else { Val p = vFCmp(FLE, d, t, 64), q = vFCmp(FLE, vFNeg(t, 64), d, 64); doAssert(vBin(AND, p, q, 1), l); } }
BI(bi_sym_reach) { int s = evalReachSlot(cstr(cA(x, 0))); sh->reach[s]++; }
BI(bi_sym_observe_i) { std::string n = cstr(cA(x, 0)); if (optTraces) observed.push_back({n, {A1, LI64}}); }
BI(bi_sym_observe_d) { std::string n = cstr(cA(x, 0)); if (optTraces) observed.push_back({n, {A1, LD}}); }
BI(bi_sym_reject) { endPath(1); }
BI(bi_sym_done) { endPath(0); }
BI(bi_sym_fail) { violation("assertion failed", cstr(cA(x, 0)), nullptr); endPath(3); }
BI(bi_sym_param) { u64 i = cA(x, 0, 32); x.ret[0] = i < optArgs.size() ? cv((u64)optArgs[i] & 0xffffffff) : A1; }
BI(bi_sym_native) { x.ret[0] = cv(0); }
BI(bi_sym_conc) { x.ret[0] = cv(concretize(A0, 64)); }
BI(bi_sym_is_symbolic) { x.ret[0] = cv(A0.s != nullptr); }
BI(bi_sym_ite_d) { Val c = A0; if (c.s && c.s->w > 1) c = vNot(vCmp(EQ, c, cv(0), c.s->w)); else if (!c.s) c = cv(c.c != 0); x.ret[0] = vIte(c, A1, A2, 64, true); }
BI(bi_sym_ite_i) { Val c = A0; if (c.s && c.s->w > 1) c = vNot(vCmp(EQ, c, cv(0), c.s->w)); else if (!c.s) c = cv(c.c != 0); x.ret[0] = vIte(c, A1, A2, 64, false); }
BI(bi_sym_print) { std::string s = cstr(cA(x, 0)); Val v = A1; fprintf(stderr, "[p%d] %s %s\n", getpid(), s.c_str(), v.s ? exprStr(v.s, 6).c_str() : std::to_string((i64)v.c).c_str()); }
BI(bi_sym_print_d) { std::string s = cstr(cA(x, 0)); Val v = A1; fprintf(stderr, "[p%d] %s %s\n", getpid(), s.c_str(), v.s ? exprStr(v.s, 6).c_str() : std::to_string(asD(v.c)).c_str()); }
static void pushFrame(DFunc *f, DCall *call, const Val *args, size_t nargs, std::vector<std::pair<Val, Leaf>> *va);
static bool switchRank();
BI(bi_run_ranks) {
  u64 n = cA(x, 0, 32); u64 fn = cA(x, 1); auto it = faddr.find(fn); if (it == faddr.end()) unsupported("sym_run_ranks callee"); if ((int)n > optRanks) unsupported("more ranks than configured");
  if (cur != mainRank) unsupported("nested sym_run_ranks");
  while (ranks.size() < n) ranks.push_back(newRank(ranks.size(), ranks.size() + 1));
  nactive = n; for (u64 i = 0; i < n; i++) { Rank *r = ranks[i]; r->status = 0; r->blockedAt = 0; cur = r; Val a = cv(i); pushFrame(it->second, nullptr, &a, 1, nullptr); }
  curRankIdx = 0; cur = ranks[0]; x.handled = true;
}
BI(bi_sym_rank) { x.ret[0] = cv(cur == mainRank ? (u64)0xffffffff : (u64)cur->id); }
static void advance(CallCtx &x) { Frame &f = *x.f; if (x.c->norm) { Edge *e = x.c->norm; Val *regs = x.regs, *pool = x.pool; if (!e->cps.empty()) { std::vector<Val> t; for (auto &c : e->cps) for (int i = 0; i < c.n; i++) t.push_back(c.s >= 0 ? regs[c.s + i] : pool[~c.s + i]); size_t k = 0; for (auto &c : e->cps) for (int i = 0; i < c.n; i++) regs[c.d + i] = t[k++]; } f.pc = e->target; } else f.pc++; }
BI(bi_sym_yield) { if (nactive == 0) return; advance(x); x.handled = true; switchRank(); }
BI(bi_sym_block) { // wait until another rank makes progress
  if (nactive == 0) { violation("deadlock", "blocking call outside a parallel run", nullptr); endPath(3); }
  advance(x); x.handled = true; cur->status = 1; cur->blockedAt = epoch_;
  if (!switchRank()) { violation("deadlock", "all processes wait", nullptr); endPath(3); } }
BI(bi_sym_progress) { epoch_++; }
BI(bi_sym_switch_any) { // nondeterministic scheduling: continue here or let the next runnable rank go
  if (nactive == 0) return; }
// C++ runtime
BI(bi_guard_acquire) { u64 p = cA(x, 0); x.ret[0] = cv(*(u8 *)p == 0); }
BI(bi_guard_release) { u64 p = cA(x, 0); *(u8 *)p = 1; }
BI(bi_alloc_exc) { u64 n = cA(x, 0); x.ret[0] = cv(heapAlloc(n + 64, 16, "exception", 0)); }
BI(bi_throw) { x.handled = true; Val o = A0, t = A1; doThrow(o, t); }
BI(bi_rethrow) { x.handled = true; doThrow(cur->excObj, cur->excTi); }
BI(bi_begin_catch) { x.ret[0] = A0; }
template <class T> static void throwStd(CallCtx &x, const char *dflt) { std::string m = x.a.empty() ? dflt : cstr(cA(x, 0)); u64 p = heapAlloc(128, 16, "exception", 0); new ((void *)p) T(m); x.handled = true; doThrow(cv(p), cv((u64)&typeid(T))); }
BI(bi_thr_len) { throwStd<std::length_error>(x, ""); } BI(bi_thr_oor) { throwStd<std::out_of_range>(x, ""); } BI(bi_thr_inv) { throwStd<std::invalid_argument>(x, ""); } BI(bi_thr_logic) { throwStd<std::logic_error>(x, ""); } BI(bi_thr_run) { throwStd<std::runtime_error>(x, ""); } BI(bi_thr_badarr) { throwStd<std::runtime_error>(x, "bad_array_new_length"); }
BI(bi_abort) { violation("abort", "program terminated abnormally", nullptr); endPath(3); }
BI(bi_exit) { endPath(1); }
BI(bi_assert_fail) { violation("assert", cstr(cA(x, 0)), nullptr); endPath(3); }
BI(bi_math1) { std::string n = x.c->callee->getName().str(); Val a = A0; u32 w = x.c->ret->leaves[0].bits; if (a.s) x.ret[0] = symMath(n, a, cv(0), w); else { void *p = dlsym(RTLD_DEFAULT, n.c_str()); if (w == 64) x.ret[0] = cv(dB(((double (*)(double))p)(asD(a.c)))); else x.ret[0] = cv(fB(((float (*)(float))p)(asF(a.c)))); } }
BI(bi_math2) { std::string n = x.c->callee->getName().str(); Val a = A0, b = A1; u32 w = 64; if (a.s || b.s) x.ret[0] = symMath(n, a, b, w); else { void *p = dlsym(RTLD_DEFAULT, n.c_str()); x.ret[0] = cv(dB(((double (*)(double, double))p)(asD(a.c), asD(b.c)))); } }
BI(bi_sqrt) { x.ret[0] = doSqrt(A0, 64); }
BI(bi_errno) { static u64 p = 0; if (!p) p = (u64)&errno; x.ret[0] = cv(p); }
BI(bi_printf) { x.ret[0] = cv(0); }
// formatted output into memory: symbolic characters of strings are kept, symbolic numbers are enumerated
static std::vector<Val> format(CallCtx &x, u64 f, size_t k) {
  std::vector<Val> out; std::string fmt = cstr(f);
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { out.push_back(cv((u8)fmt[i])); continue; }
    std::string sp = "%"; i++; while (i < fmt.size() && strchr("-+ #0123456789.*'", fmt[i])) { if (fmt[i] == '*') { sp += std::to_string((int)cA(x, k++, 32)); } else sp += fmt[i]; i++; }
    std::string len; while (i < fmt.size() && strchr("hlLqjzt", fmt[i])) len += fmt[i++]; if (i >= fmt.size()) break; char c = fmt[i]; char b[600]; b[0] = 0; int n = 0;
    if (c == '%') { out.push_back(cv('%')); continue; }
    if (k >= x.a.size()) unsupported("printf arguments");
    if (c == 's') { u64 p = cA(x, k++); std::vector<Val> t; size_t w = 0, pr = ~0ull; bool left = false; { const char *q = sp.c_str() + 1; while (*q && strchr("-+ #0'", *q)) { if (*q == '-') left = true; q++; } w = strtoul(q, (char **)&q, 10); if (*q == '.') pr = strtoul(q + 1, nullptr, 10); }
      for (u64 a = p; t.size() < pr; a++) { if (inArena(a)) checkAccess(a, 1, false); Val v = readByte(a); if (v.s) { Val z = vCmp(EQ, v, cv(0), 8); if (concretize(z, 1)) break; } else if (!v.c) break; t.push_back(v); if (t.size() > 100000) break; }
      if (!left) for (size_t q = t.size(); q < w; q++) out.push_back(cv(' ')); out.insert(out.end(), t.begin(), t.end()); if (left) for (size_t q = t.size(); q < w; q++) out.push_back(cv(' ')); continue; }
    if (strchr("diouxXc", c)) { bool lng = len.find_first_of("lqjzt") != std::string::npos; u64 v = cA(x, k++, lng ? 64 : 32); if (lng) { n = snprintf(b, 600, (sp + "ll" + c).c_str(), (long long)v); } else n = snprintf(b, 600, (sp + len + c).c_str(), (int)v); }
    else if (strchr("feEgGaA", c)) { Val v = vNorm(x.a[k++]); if (v.s) unsupported("formatted output of a symbolic real number"); n = snprintf(b, 600, (sp + c).c_str(), asD(v.c)); }
    else if (c == 'p') { n = snprintf(b, 600, "%p", (void *)cA(x, k++)); }
    else unsupported("printf conversion");
    for (int q = 0; q < n && q < 599; q++) out.push_back(cv((u8)b[q]));
  }
  return out; }
BI(bi_snprintf) { u64 d = cA(x, 0), n = cA(x, 1); auto o = format(x, cA(x, 2), 3); if (n) { size_t k = std::min<size_t>(o.size(), n - 1); checkAccess(d, k + 1, true); for (size_t i = 0; i < k; i++) rawWrite(d + i, LI8, o[i]); rawWrite(d + k, LI8, cv(0)); } x.ret[0] = cv(o.size()); }
BI(bi_sprintf) { u64 d = cA(x, 0); auto o = format(x, cA(x, 1), 2); checkAccess(d, o.size() + 1, true); for (size_t i = 0; i < o.size(); i++) rawWrite(d + i, LI8, o[i]); rawWrite(d + o.size(), LI8, cv(0)); x.ret[0] = cv(o.size()); }
BI(bi_host_strtod) { u64 p = cA(x, 0), e = cA(x, 1); std::string t = cstr(p); char *q; double v = strtod(t.c_str(), &q); if (e) { checkAccess(e, 8, true); rawWrite(e, LI64, cv(p + (q - t.c_str()))); } u64 u; memcpy(&u, &v, 8); x.ret[0] = cv(u); }
static void initBuiltins() {
  auto &b = builtins;
  for (auto n : {"malloc"}) b[n] = bi_malloc; for (auto n : {"_Znwm", "_Znam"}) b[n] = bi_new; for (auto n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) b[n] = bi_malloc;
  for (auto n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) b[n] = bi_newal;
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) b[n] = bi_free;
  b["calloc"] = bi_calloc; b["realloc"] = bi_realloc; b["aligned_alloc"] = bi_memalign; b["memalign"] = bi_memalign; b["posix_memalign"] = bi_posix_memalign;
  b["memcpy"] = bi_memcpy; b["memmove"] = bi_memcpy; b["memset"] = bi_memset; b["memcmp"] = bi_memcmp; b["bcmp"] = bi_memcmp;
  b["sym_int"] = bi_sym_int; b["sym_long"] = bi_sym_long; b["sym_choose"] = bi_sym_choose; b["sym_bool"] = bi_sym_bool; b["sym_u8"] = bi_sym_u8; b["sym_u32"] = bi_sym_u32; b["sym_u64"] = bi_sym_u64; b["sym_double"] = bi_sym_double; b["sym_bytes"] = bi_sym_bytes;
  b["sym_assume"] = bi_sym_assume; b["sym_assert"] = bi_sym_assert; b["sym_assert_eq_d"] = bi_sym_assert_eq_d; b["sym_assert_near_d"] = bi_sym_assert_near_d; b["sym_reach"] = bi_sym_reach; b["sym_observe_i"] = bi_sym_observe_i; b["sym_observe_d"] = bi_sym_observe_d; b["sym_reject"] = bi_sym_reject; b["sym_done"] = bi_sym_done; b["sym_fail"] = bi_sym_fail; b["sym_param"] = bi_sym_param; b["sym_native"] = bi_sym_native; b["sym_conc"] = bi_sym_conc; b["sym_is_symbolic"] = bi_sym_is_symbolic; b["sym_ite_d"] = bi_sym_ite_d; b["sym_ite_i"] = bi_sym_ite_i; b["sym_print"] = bi_sym_print; b["sym_print_d"] = bi_sym_print_d;
  b["sym_run_ranks"] = bi_run_ranks; b["sym_rank"] = bi_sym_rank; b["sym_yield"] = bi_sym_yield; b["sym_block"] = bi_sym_block; b["sym_progress"] = bi_sym_progress;
  b["__cxa_guard_acquire"] = bi_guard_acquire; b["__cxa_guard_release"] = bi_guard_release; b["__cxa_guard_abort"] = bi_nop; b["__cxa_atexit"] = bi_zero; b["__cxa_thread_atexit"] = bi_zero; b["atexit"] = bi_zero;
  b["__cxa_allocate_exception"] = bi_alloc_exc; b["__cxa_free_exception"] = bi_nop; b["__cxa_throw"] = bi_throw; b["__cxa_rethrow"] = bi_rethrow; b["__cxa_begin_catch"] = bi_begin_catch; b["__cxa_end_catch"] = bi_nop; b["__cxa_get_exception_ptr"] = bi_begin_catch;
  b["_ZSt20__throw_length_errorPKc"] = bi_thr_len; b["_ZSt20__throw_out_of_rangePKc"] = bi_thr_oor; b["_ZSt24__throw_out_of_range_fmtPKcz"] = bi_thr_oor; b["_ZSt24__throw_invalid_argumentPKc"] = bi_thr_inv; b["_ZSt19__throw_logic_errorPKc"] = bi_thr_logic; b["_ZSt21__throw_runtime_errorPKc"] = bi_thr_run; b["_ZSt28__throw_bad_array_new_lengthv"] = bi_thr_badarr; b["_ZSt17__throw_bad_allocv"] = bi_thr_badarr; b["_ZSt25__throw_bad_function_callv"] = bi_thr_badarr; b["_ZSt16__throw_bad_castv"] = bi_thr_badarr;
  b["abort"] = bi_abort; b["_ZSt9terminatev"] = bi_abort; b["__cxa_pure_virtual"] = bi_abort; b["exit"] = bi_exit; b["_exit"] = bi_exit; b["__assert_fail"] = bi_assert_fail; b["__cxa_call_unexpected"] = bi_abort;
  for (auto n : {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "log", "log10", "log2", "exp2", "cbrt", "sinf", "cosf", "expf", "logf"}) b[n] = bi_math1; for (auto n : {"pow", "atan2", "fmod", "hypot"}) b[n] = bi_math2; b["sqrt"] = bi_sqrt;
  b["snprintf"] = bi_snprintf; b["sprintf"] = bi_sprintf; b["sym_host_strtod"] = bi_host_strtod;
  b["printf"] = bi_printf; b["puts"] = bi_printf; b["putchar"] = bi_printf; b["fflush"] = bi_zero; b["__errno_location"] = bi_errno;
}
