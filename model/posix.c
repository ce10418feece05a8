#include <sys/stat.h>
#include <string.h>
#include <stdlib.h>
#include <glob.h>
int sv_fs_lookup(const char *n, size_t *len, int *dir); int sv_fs_count(void); const char *sv_fs_name(int);
int sv_fs_root(const char *p);
int stat(const char *p, struct stat *st) { size_t l; int d; memset(st, 0, sizeof *st); if (sv_fs_root(p) || !strcmp(p, "/cwd")) { st->st_mode = S_IFDIR | 0755; return 0; } if (!sv_fs_lookup(p, &l, &d)) return -1; st->st_mode = d ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = l; return 0; }
int lstat(const char *p, struct stat *st) { return stat(p, st); }
int access(const char *p, int m) { size_t l; int d; return sv_fs_lookup(p, &l, &d) ? 0 : -1; }
static int gm(const char *p, const char *s) { for (; *p; p++, s++) { if (*p == '*') { for (;; s++) { if (gm(p + 1, s)) return 1; if (!*s || *s == '/') return 0; } } if (*p == '?') { if (!*s || *s == '/') return 0; continue; } if (*p != *s) return 0; } return !*s; }
static int gcmp(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
int glob(const char *pat, int fl, int (*ef)(const char *, int), glob_t *g) { g->gl_pathc = 0; g->gl_pathv = calloc(20, sizeof(char *)); const char *q = pat; for (int i = 0; i < sv_fs_count(); i++) if (gm(q, sv_fs_name(i))) g->gl_pathv[g->gl_pathc++] = strdup(sv_fs_name(i)); if (!g->gl_pathc) { free(g->gl_pathv); g->gl_pathv = 0; return GLOB_NOMATCH; } qsort(g->gl_pathv, g->gl_pathc, sizeof(char *), gcmp); return 0; }
void globfree(glob_t *g) { for (size_t i = 0; i < g->gl_pathc; i++) free(g->gl_pathv[i]); free(g->gl_pathv); g->gl_pathv = 0; g->gl_pathc = 0; }
