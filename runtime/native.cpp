// native replay runtime: same harness, real compiler, values from a file
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <vector>
#include <string>
static std::map<std::string, std::string> vals; static std::map<std::string, int> cnt; static std::vector<long> params; static FILE *obs = nullptr;
static std::string key(const char *n) { int k = cnt[n]++; std::string s = n; if (k) s += "#" + std::to_string(k); return s; }
static unsigned long long raw(const char *n) { std::string k = key(n); auto it = vals.find(k); if (it == vals.end()) return 0; return strtoull(it->second.c_str(), nullptr, 10); }
static int width(unsigned long long span) { int b = 0; while (b < 64 && (span >> b)) b++; return b; }
#ifdef SYM_MPI
#include <mpi.h>
static int mpi_rank_ = -1;
#endif
[[noreturn]] static void quit(int c) { fflush(stdout); fflush(stderr); if (obs) fflush(obs); _Exit(c); }
extern "C" {
long sym_long(const char *n, long lo, long hi) { unsigned long long v = raw(n); return lo == hi ? lo : (long)((unsigned long long)lo + v); }
int sym_int(const char *n, int lo, int hi) { return (int)sym_long(n, lo, hi); }
int sym_choose(const char *n, int lo, int hi) { return (int)sym_long(n, lo, hi); }
bool sym_bool(const char *n) { return raw(n) & 1; }
uint8_t sym_u8(const char *n) { return raw(n); }
uint32_t sym_u32(const char *n) { return raw(n); }
uint64_t sym_u64(const char *n) { return raw(n); }
double sym_double(const char *n) { std::string k = key(n); auto it = vals.find(k); return it == vals.end() ? 0 : strtod(it->second.c_str(), nullptr); }
void sym_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) { std::string s = std::string(name) + "[" + std::to_string(i) + "]"; ((unsigned char *)p)[i] = raw(s.c_str()); } }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY: assumption not satisfied\n"); quit(20); } }
[[noreturn]] void sym_fail(const char *l) { fprintf(stderr, "REPLAY-VIOLATION: %s\n", l); quit(42); }
void sym_assert(bool c, const char *l) { if (!c) sym_fail(l); }
void sym_assert_eq_d(double a, double b, const char *l) { bool ok = a == b || std::fabs(a - b) <= 1e-7 * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); if (!ok) { fprintf(stderr, "REPLAY: %.17g vs %.17g\n", a, b); sym_fail(l); } }
void sym_assert_near_d(double a, double b, double t, const char *l) { if (!(std::fabs(a - b) <= t * (1 + 1e-6) + 1e-13)) { fprintf(stderr, "REPLAY: %.17g vs %.17g\n", a, b); sym_fail(l); } }
void sym_reach(const char *) {}
void sym_observe_i(const char *l, long v) { if (obs) fprintf(obs, "!obs %s %ld\n", l, v); }
void sym_observe_d(const char *l, double v) { if (obs) fprintf(obs, "!obs %s %.12g\n", l, v); }
[[noreturn]] void sym_reject(const char *m) { fprintf(stderr, "REPLAY: rejected: %s\n", m ? m : ""); quit(10); }
[[noreturn]] void sym_done() { quit(0); }
int sym_param(int i, int d) { return i < (int)params.size() ? (int)params[i] : d; }
int sym_native() { return 1; }
long sym_conc(long v) { return v; }
double sym_ite_d(bool c, double a, double b) { return c ? a : b; }
long sym_ite_i(bool c, long a, long b) { return c ? a : b; }
bool sym_is_symbolic(long) { return false; }
void sym_print(const char *l, long v) { fprintf(stderr, "%s %ld\n", l, v); }
void sym_print_d(const char *l, double v) { fprintf(stderr, "%s %.17g\n", l, v); }
#ifdef SYM_MPI
int mpi_sync_send = 0, mpi_choose_any = 1;
static int anysrc(int src) { if (src != MPI_ANY_SOURCE) return src; std::string n = "any_r" + std::to_string(mpi_rank_); std::string k = n; if (cnt[n]) k += "#" + std::to_string(cnt[n]); if (!vals.count(k)) return src; cnt[n]++; return (int)strtol(vals[k].c_str(), nullptr, 10); }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return mpi_sync_send ? PMPI_Ssend(b, n, t, d, tag, c) : PMPI_Send(b, n, t, d, tag, c); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { return mpi_sync_send ? PMPI_Issend(b, n, t, d, tag, c, q) : PMPI_Isend(b, n, t, d, tag, c, q); }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *s) { return PMPI_Probe(anysrc(src), tag, c, s); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) { return PMPI_Recv(b, n, t, anysrc(src), tag, c, s); }
void sym_run_ranks(int n, void (*fn)(int));
void mpi_run(int n, void (*fn)(int)) { sym_run_ranks(n, fn); }
void sym_run_ranks(int n, void (*fn)(int)) { int s, r; MPI_Comm_size(MPI_COMM_WORLD, &s); MPI_Comm_rank(MPI_COMM_WORLD, &r); if (s != n) { fprintf(stderr, "REPLAY: needs %d processes (NRANKS=%d)\n", n, n); quit(30 + n); } fn(r); MPI_Barrier(MPI_COMM_WORLD); }
int sym_rank() { return mpi_rank_; }
#else
void sym_run_ranks(int n, void (*fn)(int)) { for (int i = 0; i < n; i++) fn(i); }
int sym_rank() { return 0; }
#endif
// glibc does not require the size to be a multiple of the alignment, the sanitizer does
void *aligned_alloc(size_t a, size_t n) { void *p = nullptr; return posix_memalign(&p, a < sizeof(void *) ? sizeof(void *) : a, n) ? nullptr : p; }
void sym_file_put(const char *n, const void *d, size_t k) { FILE *f = fopen(n, "wb"); if (!f) return; if (k) fwrite(d, 1, k, f); fclose(f); }
long sym_file_len(const char *n) { FILE *f = fopen(n, "rb"); if (!f) return -1; fseek(f, 0, SEEK_END); long k = ftell(f); fclose(f); return k; }
void sym_file_read(const char *n, size_t o, void *d, size_t k) { FILE *f = fopen(n, "rb"); if (!f) return; fseek(f, o, SEEK_SET); if (fread(d, 1, k, f)) {} fclose(f); }
void sym_file_del(const char *n) { remove(n); }
void sym_yield() {} void sym_block() {} void sym_progress() {}
}
int main(int argc, char **argv) {
#if defined(SYM_MPI) && !defined(SYM_MPI_LIB)
  int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &prov); MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank_);
#endif
  FILE *f = argc > 1 ? fopen(argv[1], "r") : nullptr; char line[4096];
  if (f) { while (fgets(line, sizeof line, f)) { if (line[0] == '#' || line[0] == '!') continue; char *e = line + strlen(line); while (e > line && (e[-1] == '\n' || e[-1] == '\r')) *--e = 0; char *sp2 = strrchr(line, ' '); if (!sp2) continue; *sp2 = 0; char *sp1 = strrchr(line, ' '); if (!sp1) continue; *sp1 = 0; vals[line] = sp2 + 1; } fclose(f); }
  if (argc > 2 && strcmp(argv[2], "-")) obs = fopen(argv[2], "w");
  for (int i = 3; i < argc; i++) params.push_back(atol(argv[i]));
  fprintf(stderr, "REPLAY-STARTED\n"); fflush(stderr);
  harness();
#if defined(SYM_MPI) && !defined(SYM_MPI_LIB)
  MPI_Finalize();
#endif
  if (obs) fclose(obs);
  quit(0);
}
