// logging, profiler and environment of espreso replaced by stubs
#include "sym.h"
#include "esinfo/eslog.h"
#include <cstdarg>
extern "C" { SYM_SHARED int sym_forbid_reject = 0; }
namespace espreso { namespace eslog {
LoggerBase *logger = nullptr;
void init(LoggerBase *) {} void initFiles() {} void reinit() {} void printRunInfo(int *, char ***) {} void finish() {}
void always() {} void start(const char *, const char *) {} void checkpoint(const char *) {} void accumulated(const char *) {} void end(const char *) {} void ln() {} void nextStep(int) {}
void startln(const char *, const char *) {} void checkpointln(const char *) {} void accumulatedln(const char *) {} void endln(const char *) {}
void param(const char *, const int &) {} void param(const char *, const long &) {} void param(const char *, const long unsigned int &) {} void param(const char *, const double &) {} void param(const char *, const char *) {}
void info(const char *) {} void solver(const char *) {} void linearsolver(const char *) {} void duration(const char *) {} void warning(const char *) {} void storedata(const char *) {}
[[noreturn]] static void stop(const char *kind, const char *m) { if (sym_forbid_reject) sym_fail(m); sym_reject(m); }
void failure(const char *m) { stop("failure", m); } void internalFailure(const char *m) { stop("internal failure", m); } void error(const char *m) { stop("error", m); } void globalerror(const char *m) { stop("global error", m); }
double time() { return 0; } double duration() { return 0; }
} }
extern "C" int omp_get_max_threads() { return 1; }
extern "C" int omp_get_thread_num() { return 0; }
extern "C" int omp_get_num_threads() { return 1; }
extern "C" int omp_in_parallel() { return 0; }
extern "C" int omp_get_level() { return 0; }
extern "C" double omp_get_wtime() { return 0; }
