/* C model of the libc functions Apex uses, executed symbolically together with
 * the implementation.  Locale "C"; allocation never fails (stated assumption). */
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include "ctype_tab.h"
typedef long ssize_t;
void *malloc(size_t); void *realloc(void *, size_t); void free(void *); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); void *memmove(void *, const void *, size_t);
void abort(void) __attribute__((noreturn));
unsigned long sv_conc(unsigned long);

/* ---- ctype ---- */
static const unsigned short ct_b[384] = CT_B; static const int ct_l[384] = CT_L; static const int ct_u[384] = CT_U;
static const unsigned short *ct_bp = ct_b + 128; static const int *ct_lp = ct_l + 128; static const int *ct_up = ct_u + 128;
const unsigned short **__ctype_b_loc(void) { return &ct_bp; }
const int **__ctype_tolower_loc(void) { return &ct_lp; }
const int **__ctype_toupper_loc(void) { return &ct_up; }
int tolower(int c) { return c >= -128 && c < 256 ? ct_l[c + 128] : c; }
int toupper(int c) { return c >= -128 && c < 256 ? ct_u[c + 128] : c; }
#define IS(n, bit) int n(int c) { return ct_b[c + 128] & (unsigned short)(bit); }
IS(isupper, 256) IS(islower, 512) IS(isalpha, 1024) IS(isdigit, 2048) IS(isxdigit, 4096) IS(isspace, 8192) IS(isprint, 16384) IS(isgraph, 32768) IS(isblank, 1) IS(iscntrl, 2) IS(ispunct, 4) IS(isalnum, 8)

/* ---- strings ---- */
size_t strlen(const char *s) { const char *p = s; while (*p) p++; return p - s; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return *a - *b; return 0; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = ct_l[(unsigned char)*a + 128], y = ct_l[(unsigned char)*b + 128]; if (x != y) return x - y; if (!*a) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = ct_l[(unsigned char)*a + 128], y = ct_l[(unsigned char)*b + 128]; if (x != y) return x - y; if (!*a) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strchrnul(const char *s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char *)s; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }
char *strstr(const char *h, const char *n) { if (!*n) return (char *)h; for (; *h; h++) { if (*h != *n) continue; const char *a = h, *b = n; while (*b && *a == *b) a++, b++; if (!*b) return (char *)h; } return 0; }
char *strcasestr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (!strncasecmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
void *memmem(const void *hp, size_t hl, const void *np, size_t nl) { const char *h = hp, *n = np; if (!nl) return (void *)h; for (size_t i = 0; i + nl <= hl; i++) { size_t j = 0; while (j < nl && h[i + j] == n[j]) j++; if (j == nl) return (void *)(h + i); } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; if (i < n) memset(d + i, 0, n - i); return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t n) { size_t k = strnlen(s, n); char *p = malloc(k + 1); memcpy(p, s, k); p[k] = 0; return p; }
size_t strspn(const char *s, const char *set) { size_t i = 0; for (; s[i]; i++) { const char *p = set; while (*p && *p != s[i]) p++; if (!*p) break; } return i; }
size_t strcspn(const char *s, const char *set) { size_t i = 0; for (; s[i]; i++) { const char *p = set; while (*p && *p != s[i]) p++; if (*p) break; } return i; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : 0; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return 0; s += strspn(s, d); if (!*s) { *sv = 0; return 0; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = 0; return s; }
static char *tok_state; char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok_state); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
void *__memcpy_chk(void *d, const void *s, size_t n, size_t dn) { return memcpy(d, s, n); }
char *__strcpy_chk(char *d, const char *s, size_t n) { return strcpy(d, s); }

/* ---- numbers ---- */
static unsigned long strto(const char *s, char **end, int base, int *neg) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  *neg = 0; if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { base = 16; p += 2; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0, ov = 0; /* digits are concretised: one path per number */
  for (;; p++) { int d; unsigned char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = 1; c = sv_conc(c); d = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; if (v > (0x7fffffffffffffffUL - d) / base) ov = 1; v = v * base + d; }
  if (end) *end = (char *)(any ? p : s);
  if (ov) v = *neg ? 0x8000000000000000UL : 0x7fffffffffffffffUL;
  return v;
}
long strtol(const char *s, char **e, int b) { int n; unsigned long v = strto(s, e, b, &n); return n ? -(long)v : (long)v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { int n; unsigned long v = strto(s, e, b, &n); return n ? -v : v; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
int abs(int x) { return x < 0 ? -x : x; }
double strtod(const char *s, char **end) {
  const char *p = s; while (isspace((unsigned char)*p)) p++; int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  double v = 0; int any = 0; for (; *p >= '0' && *p <= '9'; p++) { v = v * 10 + (double)sv_conc(*p - '0'); any = 1; }
  if (*p == '.') { double sc = 0.1; const char *q = p + 1; for (; *q >= '0' && *q <= '9'; q++) { v += sc * (double)sv_conc(*q - '0'); sc /= 10; any = 1; } if (any) p = q; }
  if (end) *end = (char *)(any ? p : s); return neg ? -v : v; }
double atof(const char *s) { return strtod(s, 0); }

/* ---- printf family ---- */
typedef struct { char *b; size_t n, cap; } sink;
static void put(sink *o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
int vsnprintf(char *buf, size_t cap, const char *f, va_list ap) {
  sink o = {buf, 0, cap};
  for (; *f; f++) {
    if (*f != '%') { put(&o, *f); continue; }
    f++; int left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0, alt = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') {} else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 't' || *f == 'j') lng = 1; else if (*f == 'h') {} else break; }
    char tmp[80]; const char *s = tmp; size_t n = 0; int isnum = 0;
    switch (*f) {
    case '%': put(&o, '%'); continue;
    case 'c': tmp[0] = (char)va_arg(ap, int); n = 1; break;
    case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; n = prec >= 0 ? strnlen(s, prec) : strlen(s); break;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': case 'o': {
      unsigned long v; int neg = 0; isnum = 1;
      if (*f == 'd' || *f == 'i') { long x = lng ? va_arg(ap, long) : va_arg(ap, int); x = (long)sv_conc((unsigned long)x); neg = x < 0; v = neg ? -(unsigned long)x : x; }
      else { v = (lng || *f == 'p') ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); v = sv_conc(v); }
      unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10; char t2[32]; int k = 0;
      const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
      do { t2[k++] = dg[v % base]; v /= base; } while (v);
      while (k < prec && k < 30) t2[k++] = '0';
      if (neg) tmp[n++] = '-'; else if (plus) tmp[n++] = '+';
      if (*f == 'p' || (alt && base == 16)) { tmp[n++] = '0'; tmp[n++] = 'x'; }
      if (zero && !left && prec < 0) while ((int)(n + k) < width && n + k < 60) { tmp[n++] = '0'; }
      while (k) tmp[n++] = t2[--k];
      break; }
    case 'f': case 'g': case 'e': {
      double d = va_arg(ap, double); if (prec < 0) prec = 6; if (d < 0) { tmp[n++] = '-'; d = -d; }
      double sc = 1; for (int i = 0; i < prec; i++) sc *= 10; unsigned long v = (unsigned long)(d * sc + 0.5); unsigned long ip = v / (unsigned long)sc, fp = v % (unsigned long)sc;
      char t2[32]; int k = 0; do { t2[k++] = '0' + ip % 10; ip /= 10; } while (ip); while (k) tmp[n++] = t2[--k];
      if (prec) { tmp[n++] = '.'; for (int i = prec - 1; i >= 0; i--) { t2[i] = '0' + fp % 10; fp /= 10; } for (int i = 0; i < prec; i++) tmp[n++] = t2[i]; }
      if (*f == 'g') { while (n && tmp[n - 1] == '0') n--; if (n && tmp[n - 1] == '.') n--; }
      break; }
    default: abort();
    }
    if (!left) for (size_t i = n; i < (size_t)width; i++) put(&o, ' ');
    for (size_t i = 0; i < n; i++) put(&o, s[i]);
    if (left) for (size_t i = n; i < (size_t)width; i++) put(&o, ' ');
  }
  if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 0x7fffffff, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 0x7fffffff, f, ap); va_end(ap); return r; }
int vasprintf(char **out, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(0, 0, f, a2); va_end(a2); *out = malloc(n + 1); return vsnprintf(*out, n + 1, f, ap); }
int asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(out, f, ap); va_end(ap); return r; }

/* ---- sorting ---- */
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = base; char *t = malloc(sz ? sz : 1);
  for (size_t i = 1; i < n; i++) { memcpy(t, b + i * sz, sz); size_t j = i; while (j > 0 && cmp(b + (j - 1) * sz, t) > 0) { memcpy(b + j * sz, b + (j - 1) * sz, sz); j--; } memcpy(b + j * sz, t, sz); }
  free(t);
}

/* ---- environment, time ---- */
static struct { char *k, *v; } env_tab[16]; static int env_n;
int setenv(const char *k, const char *v, int o) { for (int i = 0; i < env_n; i++) if (!strcmp(env_tab[i].k, k)) { if (o) env_tab[i].v = strdup(v); return 0; } if (env_n < 16) { env_tab[env_n].k = strdup(k); env_tab[env_n].v = strdup(v); env_n++; } return 0; }
int unsetenv(const char *k) { for (int i = 0; i < env_n; i++) if (!strcmp(env_tab[i].k, k)) { env_tab[i] = env_tab[env_n - 1]; env_n--; return 0; } return 0; }
char *getenv(const char *k) { for (int i = 0; i < env_n; i++) if (!strcmp(env_tab[i].k, k)) return env_tab[i].v; return 0; }
long time(long *t) { if (t) *t = 1700000000; return 1700000000; }
int gettimeofday(void *tv, void *tz) { long *p = tv; p[0] = 1700000000; p[1] = 0; return 0; }
int clock_gettime(int c, void *ts) { long *p = ts; p[0] = 1700000000; p[1] = 0; return 0; }
static int errno_v; int *__errno_location(void) { return &errno_v; }
int getpid(void) { return 4242; }
int isatty(int fd) { return 0; }
int fileno(void *f) { return 3; }
char *strerror(int e) { return "error"; }
void srand(unsigned s) {}
int rand(void) { return 4; }
int tcgetattr_unused;

/* ---- in-memory files ---- */
typedef struct mfile { char *name; char *data; size_t len; int is_dir; } mfile;
static mfile fs[16]; static int fs_n;
typedef struct MF { char *b; size_t len, cap, pos; int wr, eof, discard; mfile *m; char **mp; size_t *ml; } MF;
static MF std_in = {0, 0, 0, 0, 0, 0, 1}, std_out = {0, 0, 0, 0, 1, 0, 1}, std_err = {0, 0, 0, 0, 1, 0, 1};
MF *stdin = &std_in, *stdout = &std_out, *stderr = &std_err;
char *sv_out_buf; size_t sv_out_len, sv_out_cap; int sv_out_capture;
static mfile *fs_find(const char *n) { while (n[0] == '.' && n[1] == '/') n += 2; for (int i = 0; i < fs_n; i++) if (!strcmp(fs[i].name, n)) return &fs[i]; return 0; }
void sv_file(const char *name, const void *data, size_t n) { mfile *m = fs_find(name); if (!m) { if (fs_n == 16) abort(); m = &fs[fs_n++]; m->name = strdup(name); m->is_dir = 0; } m->data = malloc(n + 1); memcpy(m->data, data, n); m->data[n] = 0; m->len = n; }
void sv_dir(const char *name) { if (fs_n == 16) abort(); mfile *m = &fs[fs_n++]; m->name = strdup(name); m->data = 0; m->len = 0; m->is_dir = 1; }
int sv_fs_root(const char *p) { if (!*p) return 0; for (; *p; p++) if (*p != '/' && !(*p == '.' && (p[1] == '/' || !p[1] || (p[1] == '.' && (p[2] == '/' || !p[2]))))) return 0; else if (*p == '.' && p[1] == '.') p++; return 1; } /* / . .. and the like always exist */
MF *fopen(const char *n, const char *mode) {
  mfile *m = fs_find(n); MF *f;
  if (mode[0] == 'r') { if (!m && !sv_fs_root(n)) { errno_v = 2; return 0; } if (!m || m->is_dir) { f = malloc(sizeof *f); memset(f, 0, sizeof *f); f->b = ""; return f; } /* a directory opens for reading and reads as nothing */ f = malloc(sizeof *f); memset(f, 0, sizeof *f); f->b = m->data; f->len = m->len; return f; }
  if (!m) { sv_file(n, "", 0); m = fs_find(n); }
  f = malloc(sizeof *f); memset(f, 0, sizeof *f); f->wr = 1; f->m = m; if (mode[0] == 'a') { f->b = malloc(m->len + 1); memcpy(f->b, m->data, m->len); f->len = f->cap = m->len; } return f; }
static void mf_put(MF *f, const char *s, size_t n) { if (f->discard) return; if (f->len + n + 1 > f->cap) { f->cap = (f->len + n + 1) * 2; f->b = realloc(f->b, f->cap); } memcpy(f->b + f->len, s, n); f->len += n; f->b[f->len] = 0; }
static void mf_sync(MF *f) { if (f->wr && f->m) { f->m->data = malloc(f->len + 1); if (f->len) memcpy(f->m->data, f->b, f->len); f->m->data[f->len] = 0; f->m->len = f->len; } if (f->mp) { if (!f->b) { f->b = malloc(1); f->b[0] = 0; f->cap = 1; } *f->mp = f->b; *f->ml = f->len; } }
MF *open_memstream(char **p, size_t *l) { MF *f = malloc(sizeof *f); memset(f, 0, sizeof *f); f->wr = 1; f->mp = p; f->ml = l; return f; }
MF *tmpfile(void) { MF *f = malloc(sizeof *f); memset(f, 0, sizeof *f); f->wr = 1; return f; }
int fclose(MF *f) { mf_sync(f); if (f->discard) return 0; if (f->wr && !f->mp) free(f->b); free(f); return 0; }
int fflush(MF *f) { if (f) mf_sync(f); return 0; }
size_t fwrite(const void *p, size_t s, size_t n, MF *f) { mf_put(f, p, s * n); return n; }
int fputs(const char *s, MF *f) { mf_put(f, s, strlen(s)); return 1; }
int fputc(int c, MF *f) { char t = c; mf_put(f, &t, 1); return c; }
int putc(int c, MF *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int puts(const char *s) { fputs(s, stdout); return fputc('\n', stdout); }
int vfprintf(MF *f, const char *fmt, va_list ap) { if (f->discard) return 0; char *t; int n = vasprintf(&t, fmt, ap); mf_put(f, t, n); free(t); return n; }
int fprintf(MF *f, const char *fmt, ...) { if (f->discard) return 0; va_list ap; va_start(ap, fmt); int n = vfprintf(f, fmt, ap); va_end(ap); return n; }
int printf(const char *fmt, ...) { return 0; }
size_t fread(void *p, size_t s, size_t n, MF *f) { size_t w = s * n, a = f->len - f->pos; if (w > a) { w = a; f->eof = 1; } memcpy(p, f->b + f->pos, w); f->pos += w; return s ? w / s : 0; }
int fgetc(MF *f) { if (f->pos >= f->len) { f->eof = 1; return -1; } return (unsigned char)f->b[f->pos++]; }
int getc(MF *f) { return fgetc(f); }
int ungetc(int c, MF *f) { if (f->pos) f->pos--; return c; }
char *fgets(char *b, int n, MF *f) { int i = 0; while (i < n - 1) { int c = fgetc(f); if (c < 0) break; b[i++] = c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
ssize_t getline(char **lp, size_t *np, MF *f) { size_t st = f->pos; if (st >= f->len) { f->eof = 1; return -1; } size_t e = st; while (e < f->len && f->b[e] != '\n') e++; if (e < f->len) e++; size_t n = e - st; if (!*lp || *np < n + 1) { *lp = realloc(*lp, n + 1); *np = n + 1; } memcpy(*lp, f->b + st, n); (*lp)[n] = 0; f->pos = e; return n; }
int fseek(MF *f, long o, int w) { f->pos = w == 0 ? o : w == 1 ? f->pos + o : f->len + o; f->eof = 0; return 0; }
long ftell(MF *f) { return f->pos; }
void rewind(MF *f) { f->pos = 0; f->eof = 0; }
int feof(MF *f) { return f->eof; }
int ferror(MF *f) { return 0; }
int sv_fs_lookup(const char *n, size_t *len, int *dir) { mfile *m = fs_find(n); if (!m) return 0; *len = m->len; *dir = m->is_dir; return 1; }
int sv_fs_count(void) { return fs_n; }
const char *sv_fs_name(int i) { return fs[i].name; }
char *getcwd(char *b, size_t n) { if (!b) b = malloc(8); strcpy(b, "/cwd"); return b; }
char *realpath(const char *p, char *r) { mfile *m = fs_find(p); if (!m) return 0; if (r) return strcpy(r, p); return strdup(p); }
char *dirname(char *p) { char *s = strrchr(p, '/'); if (!s) return "."; if (s == p) { p[1] = 0; return p; } *s = 0; return p; }
char *__xpg_basename(char *p) { char *s = strrchr(p, '/'); return s ? s + 1 : p; }
char *basename(char *p) { char *s = strrchr(p, '/'); return s ? s + 1 : p; }
void __assert_fail(const char *a, const char *f, unsigned l, const char *fn) { abort(); }
void __stack_chk_fail(void) { abort(); }
/* ---- scanf family (the conversions Apex uses) ---- */
int vsscanf(const char *s, const char *f, va_list ap) {
  int n = 0; const char *p = s;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*p)) p++; continue; }
    if (*f != '%') { if (*p != *f) return n ? n : (*p ? 0 : -1); p++; continue; }
    f++; int width = 0, lng = 0, sup = 0; if (*f == '*') { sup = 1; f++; } while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0'); while (*f == 'l' || *f == 'z') { lng++; f++; }
    if (*f != 'c' && *f != '[') while (isspace((unsigned char)*p)) p++;
    if (!*p) return n ? n : -1;
    char *e;
    switch (*f) {
    case 'd': case 'u': { long v = strtol(p, &e, 10); if (e == p) return n; p = e; if (!sup) { if (lng) *va_arg(ap, long *) = v; else *va_arg(ap, int *) = (int)v; n++; } break; }
    case 'x': { unsigned long v = strtoul(p, &e, 16); if (e == p) return n; p = e; if (!sup) { if (lng) *va_arg(ap, unsigned long *) = v; else *va_arg(ap, unsigned *) = (unsigned)v; n++; } break; }
    case 'f': { double v = strtod(p, &e); if (e == p) return n; p = e; if (!sup) { if (lng) *va_arg(ap, double *) = v; else *va_arg(ap, float *) = (float)v; n++; } break; }
    case 's': { char *d = sup ? 0 : va_arg(ap, char *); int k = 0; while (*p && !isspace((unsigned char)*p) && (!width || k < width)) { if (d) d[k] = *p; k++; p++; } if (d) { d[k] = 0; n++; } break; }
    case 'c': if (!sup) { *va_arg(ap, char *) = *p; n++; } p++; break;
    default: abort();
    }
  }
  return n;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
