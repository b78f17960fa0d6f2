// Harness API.  In the symbolic executor these are builtins; in native replay
// builds they read the solver's assignment from a file (native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int sym_int(const char *name, int lo, int hi);
long sym_long(const char *name, long lo, long hi);
int sym_choose(const char *name, int lo, int hi);          // forks over the values
bool sym_bool(const char *name);
uint8_t sym_u8(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
double sym_double(const char *name);
void sym_bytes(void *p, size_t n, const char *name);
void sym_assume(bool c);
void sym_assert(bool c, const char *label);
void sym_assert_eq_d(double a, double b, const char *label);
void sym_assert_near_d(double a, double b, double tol, const char *label);
void sym_reach(const char *label);
void sym_observe_i(const char *label, long v);
void sym_observe_d(const char *label, double v);
[[noreturn]] void sym_reject(const char *msg);
[[noreturn]] void sym_done();
[[noreturn]] void sym_fail(const char *label);
int sym_param(int i, int dflt);
int sym_native();
long sym_conc(long v);
double sym_ite_d(bool c, double a, double b);
long sym_ite_i(bool c, long a, long b);
bool sym_is_symbolic(long v);
void sym_print(const char *l, long v);
void sym_print_d(const char *l, double v);
void sym_file_put(const char *name, const void *data, size_t n);   // files visible to the code (native: in the scratch directory)
long sym_file_len(const char *name);
void sym_file_read(const char *name, size_t off, void *out, size_t n);
void sym_file_del(const char *name);
void sym_run_ranks(int n, void (*fn)(int));
int sym_rank();
void sym_yield();
void sym_block();
void sym_progress();
extern int sym_forbid_reject; // when nonzero an espreso error is a violation
void harness();
}
#define SYM_SHARED __attribute__((section("symshared")))
#define SH __attribute__((section("symshared")))
#include <string>
static inline std::string nm(const char *b, long i) { return std::string(b) + std::to_string(i); }
static inline std::string nm(const char *b, long i, long j) { return std::string(b) + std::to_string(i) + "_" + std::to_string(j); }
