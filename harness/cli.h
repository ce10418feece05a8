/* The command line program: main of cli/main.c under stand-ins for its output streams, the library and the outside. */
#include <stdarg.h>
#include <errno.h>
#include "apex/apex.h"
int apex_main(int argc, char *argv[]);
/* output: the file opened for writing and standard output, on a medium that holds so many bytes */
typedef struct { B b; size_t room; int buffered, err, open; } OS; static OS OF = {.room = ~0ul}, SO = {.room = ~0ul}; static char ofobj; static const char *of_name, *no_open; static int of_opened; static B SE;
#define OUTF ((FILE *)&ofobj)
static OS *os(FILE *f) { return f == OUTF ? &OF : f == stdout ? &SO : 0; }
static int os_put(OS *o, const char *s, size_t n) { sv_assert(o != &OF || o->open, "only an open file is written to"); if (!o->buffered && o->b.n + n > o->room) { size_t k = o->room > o->b.n ? o->room - o->b.n : 0; b_mem(&o->b, s, k); o->err = 1; return 1; } b_mem(&o->b, s, n); return 0; }
static int os_flush(OS *o) { if (o->b.n > o->room) { o->b.n = o->room; o->b.p[o->b.n] = 0; o->err = 1; return EOF; } return 0; }
FILE *m_fopen(const char *p, const char *m) { if (m[0] == 'w' || m[0] == 'a') { if (no_open) { errno = EACCES; return 0; } sv_assert(!of_opened, "the output file is opened once"); of_opened = 1; of_name = p; OF.open = 1; return OUTF; } return fopen(p, m); }
int m_fclose(FILE *f) { OS *o = os(f); if (!o) return fclose(f); sv_assert(o->open || o == &SO, "a file is closed once"); o->open = 0; return os_flush(o); }
int m_fflush(FILE *f) { OS *o = f ? os(f) : &SO; return o ? os_flush(o) : 0; }
int m_ferror(FILE *f) { OS *o = os(f); return o ? o->err : ferror(f); }
int m_fputs(const char *s, FILE *f) { OS *o = os(f); if (!o) return 1; return os_put(o, s, strlen(s)) ? EOF : 1; }
int m_fputc(int c, FILE *f) { OS *o = os(f); char x = c; if (!o) return c; return os_put(o, &x, 1) ? EOF : c; }
int m_putchar(int c) { return m_fputc(c, stdout); }
int m_puts(const char *s) { m_fputs(s, stdout); return m_fputc('\n', stdout); }
size_t m_fwrite(const void *p, size_t s, size_t n, FILE *f) { OS *o = os(f); if (!o) return n; return os_put(o, p, s * n) ? 0 : n; }
static int vput(FILE *f, const char *m, va_list a) { char *t; OS *o = os(f); if (!o) { (void)a; b_lit(&SE, m); return 0; } int k = vasprintf(&t, m, a); k = os_put(o, t, k) ? -1 : k; free(t); return k; }
int m_fprintf(FILE *f, const char *m, ...) { va_list a; va_start(a, m); int k = vput(f, m, a); va_end(a); return k; }
int m_printf(const char *m, ...) { va_list a; va_start(a, m); int k = vput(stdout, m, a); va_end(a); return k; }
/* git and curl */
static const char *git_top; static void *git_pipe; FILE *m_popen(const char *c, const char *m); int m_pclose(FILE *f);
/* standard input */
static const char *in_data; static size_t in_len, in_pos, in_step = 4096; static int in_fail;
ssize_t m_read(int fd, void *p, size_t n) { sv_assert(fd == 0, "standard input is read"); if (in_fail) { errno = EIO; return -1; } size_t k = in_len - in_pos; if (k > n) k = n; if (k > in_step) k = in_step; memcpy(p, in_data + in_pos, k); in_pos += k; return (ssize_t)k; }
static const char *answer; static int asked; char *m_fgets(char *b, int n, FILE *f) { if (f == (FILE *)git_pipe) { if (!git_top || !*git_top) return 0; snprintf(b, (size_t)n, "%s\n", git_top); return b; } if (f != stdin) return fgets(b, n, f); asked++; if (!answer) return 0; snprintf(b, (size_t)n, "%s", answer); return b; }
int m_isatty(int fd) { (void)fd; return 0; } int m_fileno(FILE *f) { return f == stdin ? 0 : f == stdout ? 1 : 2; }
static int run(int n, char **a) { char *v[24]; v[0] = "apex"; for (int i = 0; i < n; i++) v[i + 1] = a[i]; v[n + 1] = 0; return apex_main(n + 1, v); }
static OS *out_of(int file) { return file ? &OF : &SO; }
#define CLI_RUN(...) ({ char *a_[] = {__VA_ARGS__}; run((int)(sizeof a_ / sizeof *a_), a_); })
