/* Native side: replays solver models.  argv: file with lines of hex inputs.
 * Each input runs in its own child; prints one result line per input. */
#define _GNU_SOURCE
#include "sv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <dlfcn.h>
static unsigned char in[4096]; static size_t in_n, in_pos; static FILE *rep;
static unsigned char next(void) { return in_pos < in_n ? in[in_pos++] : 0; }
static void hex(FILE *f, const void *p, size_t n) { for (size_t i = 0; i < n; i++) fprintf(f, "%02x", ((const unsigned char *)p)[i]); }
void sv_sym_(void *p, size_t n, const char *nm) { (void)nm; for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = next(); }
void sv_restrict_(void *p, size_t n, const char *s, size_t k) { for (size_t i = 0; i < n; i++) if (!memchr(s, ((unsigned char *)p)[i], k)) { fprintf(rep, "assume\n"); fflush(rep); _exit(0); } }
void sv_exclude_(void *p, size_t n, const char *s, size_t k) { for (size_t i = 0; i < n; i++) if (memchr(s, ((unsigned char *)p)[i], k)) { fprintf(rep, "assume\n"); fflush(rep); _exit(0); } }
int sv_choice(int n) { int v = next(); return v < n ? v : 0; }
void sv_assume_(int c) { if (!c) { fprintf(rep, "assume\n"); fflush(rep); _exit(0); } }
void sv_fail(const char *m) { fprintf(rep, "assert %s\n", m); fflush(rep); _exit(77); }
void sv_assert_(int c, const char *m) { if (!c) sv_fail(m); }
void sv_assert_mem_eq(const void *a, const void *b, size_t n, const char *m) { if (memcmp(a, b, n)) sv_fail(m); }
void sv_cover(const char *n) { (void)n; }
void sv_emit(const char *n, const void *p, size_t k) { fprintf(rep, "emit %s ", n); hex(rep, p, k); fprintf(rep, "\n"); }
unsigned long sv_conc(unsigned long v) { return v; }
const char *sv_param(void) { const char *p = getenv("SV_PARAM"); return p ? p : ""; }
void sv_file(const char *name, const void *d, size_t n) { if (*name == 0x2f) { fprintf(stderr, "absolute path in a harness\n"); _exit(9); } char *t = strdup(name); for (char *q = t + 1; *q; q++) if (*q == '/') { *q = 0; mkdir(t, 0755); *q = '/'; } free(t); FILE *f = fopen(name, "wb"); if (f) { fwrite(d, 1, n, f); fclose(f); } }
void sv_dir(const char *n) { mkdir(n, 0755); }
const char *__asan_default_options(void) { return "detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"; }
const char *__ubsan_default_options(void) { return "halt_on_error=1:exitcode=66"; }
int main(int argc, char **argv) {
  void (*entry)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, getenv("SV_ENTRY")); if (!entry) return 4;
  FILE *f = fopen(argv[1], "r"); if (!f) return 3; int tmo = argc > 2 ? atoi(argv[2]) : 20;
  static char line[16384]; const char *scratch = getenv("SV_SCRATCH"); int idx = 0;
  while (fgets(line, sizeof line, f)) {
    size_t L = strcspn(line, "\n"); in_n = 0; for (size_t i = 0; i + 1 < L + 0 || i + 1 == L - 0; i += 2) { if (i + 1 >= L) break; unsigned v; sscanf(line + i, "%2x", &v); in[in_n++] = v; }
    in_pos = 0; char rp[256]; snprintf(rp, sizeof rp, "%s/rep.%d", scratch ? scratch : ".", idx); char wd[256]; snprintf(wd, sizeof wd, "%s/wd.%d", scratch ? scratch : ".", idx); mkdir(wd, 0755);
    fflush(stdout); pid_t p = fork();
    if (!p) {
      rep = fopen(rp, "w"); if (chdir(wd)) _exit(9); alarm(tmo);
      struct rlimit rl = {64 << 20, 64 << 20}; setrlimit(RLIMIT_FSIZE, &rl);
      if (!freopen("/dev/null", "r", stdin)) {}
      entry(); fprintf(rep, "done\n"); fflush(rep); _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st)) printf("case %d exit %d\n", idx, WEXITSTATUS(st)); else printf("case %d signal %d\n", idx, WTERMSIG(st));
    FILE *r = fopen(rp, "r"); static char rl[1 << 20]; while (r && fgets(rl, sizeof rl, r)) printf("  %s%s", rl, strchr(rl, '\n') ? "" : "\n"); if (r) fclose(r);
    printf("end\n"); idx++;
  }
  return 0;
}
