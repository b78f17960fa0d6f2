// C library models (interpreted, therefore symbolic-aware)
#include <stddef.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int tolower(int c) { return lo(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && lo(*a) == lo(*b)) { a++; b++; } return lo((unsigned char)*a) - lo((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && lo(*a) == lo(*b)) { a++; b++; n--; } return n ? lo((unsigned char)*a) - lo((unsigned char)*b) : 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)); return r; }
char *strstr(const char *h, const char *n) { if (!*n) return (char *)h; for (; *h; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; } return 0; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
static unsigned long long su(const char *s, char **e, int base, int *neg) {
  const char *p = s; while (isspace((unsigned char)*p)) p++; *neg = 0; if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long long v = 0; int any = 0; for (;; p++) { int d; if (*p >= '0' && *p <= '9') d = *p - '0'; else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10; else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10; else break; if (d >= base) break; v = v * base + d; any = 1; }
  if (e) *e = (char *)(any ? p : s); return v; }
long strtol(const char *s, char **e, int b) { int n; unsigned long long v = su(s, e, b, &n); return n ? -(long)v : (long)v; }
long long strtoll(const char *s, char **e, int b) { int n; unsigned long long v = su(s, e, b, &n); return n ? -(long long)v : (long long)v; }
unsigned long strtoul(const char *s, char **e, int b) { int n; unsigned long long v = su(s, e, b, &n); return n ? -v : v; }
unsigned long long strtoull(const char *s, char **e, int b) { int n; unsigned long long v = su(s, e, b, &n); return n ? -v : v; }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }

// numbers: text without symbolic characters is converted by the host, otherwise in exact arithmetic
extern double sym_host_strtod(const char *, char **); extern _Bool sym_is_symbolic(long);
double strtod(const char *s, char **e) {
  const char *p = s, *q; int any = 0, sy = 0; while (isspace((unsigned char)*p)) p++;
  for (q = p; *q && !isspace((unsigned char)*q); q++) if (sym_is_symbolic(*q)) sy = 1; if (sym_is_symbolic(*q)) sy = 1;
  if (!sy) return sym_host_strtod(s, e);
  int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  double v = 0; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); p++; any = 1; }
  if (*p == '.') { p++; double k = 1; while (isdigit((unsigned char)*p)) { k = k * 10; v = v + (*p - '0') / k; p++; any = 1; } }
  if (!any) { if (e) *e = (char *)s; return 0; }
  if (*p == 'e' || *p == 'E') { const char *r = p + 1; int en = 0, x = 0; if (*r == '-') { en = 1; r++; } else if (*r == '+') r++; if (isdigit((unsigned char)*r)) { while (isdigit((unsigned char)*r)) { x = x * 10 + (*r - '0'); r++; if (x > 400) x = 400; } p = r; while (x--) v = en ? v / 10 : v * 10; } }
  if (e) *e = (char *)p; return neg ? -v : v; }
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
double atof(const char *s) { return strtod(s, 0); }
