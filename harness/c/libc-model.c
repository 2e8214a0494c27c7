/* Plain C versions of the C-library functions the runtime uses, executed symbolically (engine only).
 * L_f stands for the undefined function f unless the harness defines H_f. */
#include <stddef.h>
#include <errno.h>
#include <stdarg.h>
#include "sym.h"
size_t L_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t L_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *L_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *L_stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *L_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *L_strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
char *L_strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; while (n-- && (*d = *s)) { d++; s++; } *d = 0; return r; }
int L_strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int L_strncmp(const char *a, const char *b, size_t n) { if (!n) return 0; while (--n && *a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
char *L_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *L_strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
int L_memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i]; return 0; }
int L_bcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return 1; return 0; }
void *L_memchr(const void *s, int c, size_t n) { const unsigned char *x = s; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return NULL; }
void L_bcopy(const void *s, void *d, size_t n) { __builtin_memmove(d, s, n); }
void L_bzero(void *d, size_t n) { __builtin_memset(d, 0, n); }
int L_isdigit(int c) { return c >= '0' && c <= '9'; }
int L_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int L_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int L_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern void *malloc(size_t);
char *L_strdup(const char *s) { size_t n = L_strlen(s) + 1; char *p = malloc(n); __builtin_memcpy(p, s, n); return p; }
char *L___strdup(const char *s) { return L_strdup(s); }
long L_strtol(const char *s, char **e, int base) {
  const char *p = s; long v = 0; int neg = 0, any = 0, nd = 0, over = 0;
  while (L_isspace((unsigned char)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { base = 16; p += 2; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  for (;; p++) { int d; char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; nd++; if (nd > 18 && !over && (unsigned long)v * base + d > 0x7fffffffffffffffUL) over = 1; if (nd > 18 && v > 0x7fffffffffffffffL / base) over = 1; v = over ? v : v * base + d; any = 1; }
  if (e) *e = (char *)(any ? p : s);
  if (over) { errno = ERANGE; return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; }
  return neg ? -v : v; }
unsigned long L_strtoul(const char *s, char **e, int base) { return (unsigned long)L_strtol(s, e, base); }
int L_atoi(const char *s) { return (int)L_strtol(s, NULL, 10); }
long L_atol(const char *s) { return L_strtol(s, NULL, 10); }
static unsigned short ctab[384]; static const unsigned short *cptr; 
const unsigned short **L___ctype_b_loc(void) {
  if (!cptr) { for (int i = 0; i < 128; i++) { unsigned short m = 0; int up = i >= 'A' && i <= 'Z', lo = i >= 'a' && i <= 'z', dg = i >= '0' && i <= '9';
      if (up) m |= 1 << 8; if (lo) m |= 1 << 9; if (up || lo) m |= 1 << 10; if (dg) m |= 1 << 11; if (dg || (i >= 'a' && i <= 'f') || (i >= 'A' && i <= 'F')) m |= 1 << 12; if (i == ' ' || (i >= 9 && i <= 13)) m |= 1 << 13; if (i >= 32 && i < 127) m |= 1 << 14; if (i > 32 && i < 127) m |= 1 << 15; if (i == ' ' || i == 9) m |= 1; if (i < 32 || i == 127) m |= 2; if (i > 32 && i < 127 && !up && !lo && !dg) m |= 4; if (up || lo || dg) m |= 8; ctab[128 + i] = m; } cptr = ctab + 128; }
  return &cptr; }
/* formatted output into a buffer: %s %d %i %u %x %X %c %p %ld %lu %lx %% with width, 0 and precision on strings */
int L_vsnprintf(char *o, size_t n, const char *f, va_list ap) {
  size_t k = 0;
#define PUT(c) do { char c_ = (c); if (k + 1 < n) o[k] = c_; k++; } while (0)
  for (; *f; f++) {
    if (*f != '%') { PUT(*f); continue; }
    f++; int zero = 0, left = 0, w = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '#' || *f == ' ' || *f == '+') ; else break; }
    while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '*') { w = va_arg(ap, int); f++; }
    if (*f == '.') { prec = 0; f++; if (*f == '*') { prec = va_arg(ap, int); f++; } while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { if (*f != 'h') lng = 1; f++; }
    if (*f == '%') { PUT('%'); continue; }
    if (*f == 'c') { int c = va_arg(ap, int); PUT(c); continue; }
    if (*f == 's') { const char *s = va_arg(ap, const char *); size_t l = prec >= 0 ? L_strnlen(s, prec) : L_strlen(s); if (!left) for (size_t i = l; i < (size_t)w; i++) PUT(' '); for (size_t i = 0; i < l; i++) PUT(s[i]); if (left) for (size_t i = l; i < (size_t)w; i++) PUT(' '); continue; }
    char b[40]; int m = 0, neg = 0; unsigned long v; int base = 10;
    if (*f == 'd' || *f == 'i') { long x = lng ? va_arg(ap, long) : va_arg(ap, int); x = sym_concrete(x); if (x < 0) { neg = 1; v = -(unsigned long)x; } else v = x; }
    else { v = lng || *f == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); v = sym_concrete(v); if (*f == 'x' || *f == 'X' || *f == 'p') base = 16; else if (*f == 'o') base = 8; }
    do { int d = v % base; b[m++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
    int l = m + neg; if (!left && !zero) for (int i = l; i < w; i++) PUT(' '); if (neg) PUT('-'); if (zero && !left) for (int i = l; i < w; i++) PUT('0'); while (m) PUT(b[--m]); if (left) for (int i = l; i < w; i++) PUT(' ');
  }
  if (n) o[k < n ? k : n - 1] = 0;
  return (int)k; }
int L_snprintf(char *o, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = L_vsnprintf(o, n, f, ap); va_end(ap); return r; }
int L_sprintf(char *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = L_vsnprintf(o, (size_t)1 << 40, f, ap); va_end(ap); return r; }
int L_vsprintf(char *o, const char *f, va_list ap) { return L_vsnprintf(o, (size_t)1 << 40, f, ap); }
