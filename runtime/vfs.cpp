// files in memory shared by all ranks: FILE*, MPI-IO and stream models of the symbolic build use them
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
struct ompi_predefined_communicator_t { int id, n; int *world; };
#include <mpi.h>
struct VF { char *name; char *data; size_t n, cap; VF *next; };
SYM_SHARED static VF *files = nullptr;
static VF *find(const char *n) { for (VF *f = files; f; f = f->next) if (!strcmp(f->name, n)) return f; return nullptr; }
static VF *make(const char *n) { VF *f = find(n); if (f) return f; f = new VF(); f->name = (char *)malloc(strlen(n) + 1); strcpy(f->name, n); f->data = nullptr; f->n = f->cap = 0; f->next = files; files = f; return f; }
static void wr(VF *f, size_t off, const void *d, size_t k) { size_t e = off + k; if (e > f->cap) { size_t c = f->cap ? f->cap : 64; while (c < e) c *= 2; char *p = (char *)malloc(c); if (f->n) memcpy(p, f->data, f->n); free(f->data); f->data = p; f->cap = c; } if (off > f->n) memset(f->data + f->n, 0, off - f->n); if (k) memcpy(f->data + off, d, k); if (e > f->n) f->n = e; }
extern "C" {
int sym_file_exists(const char *n) { return find(n) != nullptr; }
size_t sym_file_size(const char *n) { VF *f = find(n); return f ? f->n : 0; }
long sym_file_len(const char *n) { VF *f = find(n); return f ? (long)f->n : -1; }
void sym_file_read(const char *n, size_t off, void *o, size_t k) { VF *f = find(n); if (f && off < f->n) memcpy(o, f->data + off, k < f->n - off ? k : f->n - off); }
void sym_file_write(const char *n, const void *d, size_t k, int app) { VF *f = make(n); if (!app) f->n = 0; wr(f, f->n, d, k); }
void sym_file_put(const char *n, const void *d, size_t k) { sym_file_write(n, d, k, 0); }
void sym_file_del(const char *n) { VF **p = &files; while (*p) { if (!strcmp((*p)->name, n)) { *p = (*p)->next; return; } p = &(*p)->next; } }
struct HF { VF *f; size_t pos; bool append; };
FILE *fopen(const char *n, const char *m) { VF *f = find(n); if (m[0] == 'r' && !f) return nullptr; if (m[0] != 'r') f = make(n); if (m[0] == 'w') f->n = 0; HF *h = new HF(); h->f = f; h->pos = 0; h->append = m[0] == 'a'; return (FILE *)h; }
int fclose(FILE *p) { delete (HF *)p; return 0; }
int fseek(FILE *p, long o, int w) { HF *h = (HF *)p; h->pos = w == SEEK_SET ? o : w == SEEK_CUR ? h->pos + o : h->f->n + o; return 0; }
long ftell(FILE *p) { return ((HF *)p)->pos; }
size_t fread(void *d, size_t s, size_t k, FILE *p) { HF *h = (HF *)p; size_t n = s * k, l = h->pos < h->f->n ? h->f->n - h->pos : 0; if (n > l) n = l; if (n) memcpy(d, h->f->data + h->pos, n); h->pos += n; return s ? n / s : 0; }
size_t fwrite(const void *d, size_t s, size_t k, FILE *p) { HF *h = (HF *)p; if (h->append) h->pos = h->f->n; wr(h->f, h->pos, d, s * k); h->pos += s * k; return k; }
int fputs(const char *s, FILE *p) { fwrite(s, 1, strlen(s), p); return 0; }
char *fgets(char *s, int n, FILE *p) { HF *h = (HF *)p; int k = 0; while (k + 1 < n && h->pos < h->f->n) { char c = h->f->data[h->pos++]; s[k++] = c; if (c == '\n') break; } if (!k) return nullptr; s[k] = 0; return s; }
int feof(FILE *p) { HF *h = (HF *)p; return h->pos >= h->f->n; }
int remove(const char *n) { if (!find(n)) return -1; sym_file_del(n); return 0; }
struct MF { VF *f; MPI_Comm c; bool coll; };
int MPI_File_open(MPI_Comm c, const char *n, int mode, MPI_Info, MPI_File *out) { VF *f = find(n); if (!f && !(mode & MPI_MODE_CREATE)) return 1; if (!f) f = make(n); MF *m = new MF(); m->f = f; m->c = c; m->coll = c != MPI_COMM_SELF; if (m->coll) MPI_Barrier(c); *out = (MPI_File)m; return 0; }
int MPI_File_close(MPI_File *p) { MF *m = (MF *)*p; if (m->coll) MPI_Barrier(m->c); delete m; *p = nullptr; return 0; }
int MPI_File_get_size(MPI_File p, MPI_Offset *s) { *s = ((MF *)p)->f->n; return 0; }
int MPI_File_set_size(MPI_File p, MPI_Offset s) { MF *m = (MF *)p; if (m->coll) MPI_Barrier(m->c); if ((size_t)s < m->f->n) m->f->n = s; else wr(m->f, s, "", 0); if (m->coll) MPI_Barrier(m->c); return 0; }
static int rd(MF *m, MPI_Offset o, void *b, long n) { if (n < 0) sym_fail("MPI-IO: negative count"); size_t l = (size_t)o < m->f->n ? m->f->n - o : 0; if ((size_t)n < l) l = n; if (l) memcpy(b, m->f->data + o, l); return 0; }
static long tb(int n, MPI_Datatype t) { int s; MPI_Type_size(t, &s); return (long)n * s; }
int MPI_File_read_at(MPI_File p, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *) { return rd((MF *)p, o, b, tb(n, t)); }
int MPI_File_read_at_all(MPI_File p, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *) { MPI_Barrier(((MF *)p)->c); return rd((MF *)p, o, b, tb(n, t)); }
int MPI_File_write_at(MPI_File p, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *) { if (n < 0) sym_fail("MPI-IO: negative count"); if (n) wr(((MF *)p)->f, o, b, tb(n, t)); return 0; }
int MPI_File_write_at_all(MPI_File p, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *s) { MPI_Barrier(((MF *)p)->c); int r = MPI_File_write_at(p, o, b, n, t, s); MPI_Barrier(((MF *)p)->c); return r; }
int MPI_File_delete(const char *n, MPI_Info) { if (!find(n)) return 1; sym_file_del(n); return 0; }
}
