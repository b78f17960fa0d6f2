// parallel reading and writing of files: every byte once, in order, for any sizes, chunks, stripes and readers/writers
#include "es_env.h"
#include "esinfo/ecfinfo.h"
#include "basis/io/inputfile.h"
#include "basis/io/outputfile.h"
#include <cstdlib>
#include <vector>
using namespace espreso;
namespace espreso { namespace utils { void callusleep(int) {} } }
SH static int op, np, nf, ng, mode, sub; SH static int fsz[3]; SH static unsigned char cont[3][64]; SH static size_t minchunk, overlap, stripe; SH static int glen[3][3][6]; SH static unsigned char gdat[3][3][6][24];
static void ecf(bool out) { info::ecf = (ECF *)calloc(1, sizeof(ECF)); info::ecf->input.stripe_size = info::ecf->output.stripe_size = stripe; int m = mode; if (m > 2) m = 2; info::ecf->input.loader = m == 0 ? InputConfiguration::LOADER::MPI : m == 1 ? InputConfiguration::LOADER::MPI_COLLECTIVE : InputConfiguration::LOADER::POSIX; info::ecf->output.writer = m == 0 ? OutputConfiguration::WRITER::MPI : OutputConfiguration::WRITER::MPI_COLLECTIVE; (void)out; }
static std::string fn(int f) { return nm("file", f); }
static void rin(int rank) {
  es_mpi(); ecf(false); MPITools::setSubset(sub); if (rank == 0) for (int f = 0; f < nf; f++) sym_file_put(fn(f).c_str(), cont[f], fsz[f]); Communication::barrier();
  if (op == 2) { Metadata m; m.read("file0"); sym_assert(m.end - m.begin == fsz[0], "metadata size"); for (int i = 0; i < fsz[0]; i++) sym_assert((unsigned char)m.begin[i] == cont[0][i], "metadata content"); return; }
  InputFilePack p(minchunk, overlap); std::vector<std::string> names; for (int f = 0; f < nf; f++) names.push_back(fn(f)); p.commitFiles(names); p.prepare(); p.read(); int f = 0;
  while (p.next()) {
    sym_assert(f < nf, "number of files"); auto &d = p.distribution; sym_assert((int)d.size() == np + 1, "distribution size"); sym_assert(d[0] == 0 && (int)d[np] == fsz[f], "the whole file is distributed");
    for (int r = 0; r < np; r++) sym_assert(d[r] <= d[r + 1], "chunks are ordered"); size_t n = d[rank + 1] - d[rank]; sym_assert((size_t)(p.end - p.begin) == n, "size of the chunk"); sym_assert((size_t)(p.hardend - p.end) == overlap, "size of the overlap");
    for (size_t i = 0; i < n; i++) sym_assert((unsigned char)p.begin[i] == cont[f][d[rank] + i], "content of the chunk"); if (n) for (size_t i = 0; i < overlap; i++) { size_t k = d[rank + 1] + i; sym_assert((unsigned char)p.end[i] == ((int)k < fsz[f] ? cont[f][k] : 0), "overlap continues with the following bytes"); }
    f++; }
  sym_assert(f == nf, "number of files"); }
static void rout(int rank) {
  es_mpi(); ecf(true); MPITools::setSubset(sub); OutputFilePack p;
  for (int f = 0; f < nf; f++) { for (int g = 0; g < ng; g++) { int n = glen[f][g][rank]; if (n > 2) { p.insert(n - 2, gdat[f][g][rank]); for (int i = 0; i < 2; i++) OutputFile::buffer[i] = gdat[f][g][rank][n - 2 + i]; p.insert(2); } else for (int i = 0; i < n; i++) p.insert(1, (char)gdat[f][g][rank][i]); p.groupData(); } p.commitFile(fn(f)); }
  p.reorder(); p.write(); Communication::barrier();
  if (rank == 0) for (int f = 0; f < nf; f++) { std::vector<unsigned char> w; for (int g = 0; g < ng; g++) for (int r = 0; r < np; r++) w.insert(w.end(), gdat[f][g][r], gdat[f][g][r] + glen[f][g][r]); long n = sym_file_len(fn(f).c_str()); if (w.empty()) { sym_assert(n <= 0, "an empty file"); continue; } sym_assert(n == (long)w.size(), "size of the written file"); std::vector<unsigned char> b(w.size()); sym_file_read(fn(f).c_str(), 0, b.data(), b.size()); for (size_t i = 0; i < w.size(); i++) sym_assert(b[i] == w[i], "the file is the ordered concatenation of the parts"); }
}
extern "C" void harness() {
  op = sym_param(0, 0); np = sym_param(1, 2); nf = sym_param(2, 1); ng = sym_param(3, 1); int maxs = sym_param(4, 8); minchunk = sym_param(5, 2); overlap = sym_param(6, 1); stripe = sym_param(7, 2); sym_forbid_reject = 1;
  sub = sym_choose("subset", 1, np); mode = sym_choose("mode", 0, op == 1 ? 1 : 2); mpi_choose_any = 0;
  if (op != 1) { for (int f = 0; f < nf; f++) { fsz[f] = sym_choose(nm("size", f).c_str(), 0, maxs); for (int i = 0; i < fsz[f]; i++) cont[f][i] = sym_u8(nm("c", f, i).c_str()); } mpi_run(np, rin); }
  else { for (int f = 0; f < nf; f++) for (int g = 0; g < ng; g++) for (int r = 0; r < np; r++) { int n = glen[f][g][r] = sym_choose((nm("len", f, g) + nm("_", r)).c_str(), 0, maxs); for (int i = 0; i < n; i++) gdat[f][g][r][i] = sym_u8((nm("b", f, g) + nm("_", r, i)).c_str()); } mpi_run(np, rout); }
  sym_reach("end");
}
