//@src cli/main.c
//@src src/plugins_remote.c
//@src src/extensions/metadata.c
//@srcflags -Dmain=apex_main -Dfopen=c_fopen -Dfclose=m_fclose -Dfflush=m_fflush -Dferror=m_ferror -Dfputs=m_fputs -Dfputc=m_fputc -Dputc=m_fputc -Dputchar=m_putchar -Dputs=m_puts -Dfwrite=m_fwrite -Dfprintf=m_fprintf -Dprintf=m_printf -Dread=m_read -Dfgets=m_fgets -Dpopen=m_popen -Dpclose=m_pclose -Dfread=m_fread -Disatty=m_isatty -Dfileno=m_fileno -Dsystem=m_system -Dunlink=m_unlink -Dremove=m_remove -Drmdir=m_rmdir -Dmkdir=m_mkdir -Drename=m_rename -Dchmod=m_chmod -Dgetcwd=m_getcwd -Dgetenv=m_getenv -Dstat=m_stat -Dlstat=m_lstat -Dopendir=m_opendir -Dreaddir=m_readdir -Dclosedir=m_closedir -Daccess=m_access -Dfork=m_fork -Dexecvp=m_execvp -Dexecv=m_execv -Dexeclp=m_execlp -fno-builtin
//@job C50 h_in_rmplugin quick=60 workers=6 bound="--uninstall-plugin ids of at most 3 characters over a . / quotes $ ` ; space * - newline, or 8 longer ones; entry there or not, folder or file; answers of 2 arbitrary bytes or none; removal that fails"
//@job C50 h_in_rmfilter quick=60 workers=6 bound="--uninstall-filter, the same; entry there as a file or folder, with no suffix or .lua .py .rb, next to others"
//@job C50 h_in_plugin quick=60 workers=6 bound="--install-plugin with ids of at most 2 of those characters, found in a directory of 3 entries whose repository has 2 of them or not; entry there already; post-install command or not; failing clone"
//@job C50 h_in_plugurl quick=60 workers=6 bound="--install-plugin with 12 URLs and shorthands, one with 2 arbitrary characters; answers; no manifest, one without id, with 8 ids or one of 2 arbitrary characters; entry there already, leftovers of an earlier attempt, failing clone"
//@job C50 h_in_filter quick=60 workers=6 bound="--install-filter with ids of at most 2 of those characters and paths out of 8 and arbitrary ones of 3 characters, in directories of 3 entries; entry there already, leftovers, failing clone or copy"
//@job C50 h_in_filturl quick=60 workers=6 bound="--install-filter with 12 URLs and shorthands, one with 2 arbitrary characters; answers; entry there already, failing clone"
//@job C51 h_ls_json quick=60 workers=6 bound="--list-plugins and --list-filters on directories of at most 2 entries whose members come in any of 6 orders, with text of at most 2 characters over a quotes backslashes brackets : , or escapes out of 9, missing and non-text members, nested values and other members"
//@job C51 h_ls_find quick=60 workers=4 bound="ids of at most 2 characters over a b quote backslash, looked up by --install-plugin in directories whose entries name it as id, title, nested or repeated"
//@job C51 h_ls_here quick=60 workers=6 bound="--list-plugins with up to 3 plugins in the folders of the project, the base directory, the git top level and the user, ids from manifest or folder name, the same or not"
#define CV_REMOTE 1
#include "cliconv.h"
#include <dirent.h>
#include <sys/stat.h>
/* ---- a file system of its own: nothing real is touched ---- */
typedef struct { char *p; int dir, exec; const char *data; } ND; static ND N[40]; static int nn;
static char *norm(const char *p) { char *o = malloc(strlen(p) + 2); size_t n = 0; while (*p) { while (*p == '/') p++; if (!*p) break; size_t k = 0; while (p[k] && p[k] != '/') k++; if (k == 1 && p[0] == '.') ; else if (k == 2 && p[0] == '.' && p[1] == '.') { while (n && o[n - 1] != '/') n--; if (n) n--; } else { if (n) o[n++] = '/'; memcpy(o + n, p, k); n += k; } p += k; } o[n] = 0; return o; }
static ND *at(const char *p) { char *q = norm(p); ND *r = 0; for (int i = 0; i < nn && !r; i++) if (N[i].p && !strcmp(N[i].p, q)) r = &N[i]; free(q); return r; }
static void put(const char *p, int dir, const char *data) { ND *d = at(p); if (!d) { if (nn == 40) sv_fail("too many files"); d = &N[nn++]; d->p = norm(p); } d->dir = dir; d->data = data; d->exec = 0; }
static const char *below(const char *p, const char *top) { size_t k = strlen(top); return !strncmp(p, top, k) && (!p[k] || p[k] == '/') ? p + k : 0; }
static int parent_ok(const char *p) { char *q = norm(p); char *s = strrchr(q, '/'); if (s) *s = 0; else *q = 0; ND *d = *q ? at(q) : 0; int ok = d && d->dir; free(q); return ok; }
static void del(const char *p) { char *q = norm(p); sv_assert(*q, "the root is not removed"); for (int i = 0; i < nn; i++) if (N[i].p && below(N[i].p, q)) N[i].p = 0; free(q); }
static int mv(const char *a, const char *b) { char *x = norm(a), *y = norm(b); if (!at(x) || at(y) || !parent_ok(y)) return -1; for (int i = 0; i < nn; i++) { const char *r; if (N[i].p && (r = below(N[i].p, x))) { B o = {0}; b_lit(&o, y); b_lit(&o, r); N[i].p = b_done(&o); } } return 0; }
static int mkp(const char *p) { char *q = norm(p); for (char *s = q; ; s++) if (*s == '/' || !*s) { char c = *s; *s = 0; ND *d = at(q); if (d && !d->dir) return 1; if (!d) put(q, 1, 0); *s = c; if (!c) break; } return 0; }
int m_stat(const char *p, struct stat *st) { memset(st, 0, sizeof *st); ND *d = at(p); if (!d) { errno = ENOENT; return -1; } st->st_mode = d->dir ? S_IFDIR | 0755 : S_IFREG | 0644; return 0; }
int m_lstat(const char *p, struct stat *st) { return m_stat(p, st); } int m_access(const char *p, int k) { (void)k; return at(p) ? 0 : -1; }
static int rm_fails, cp_fails, clone_fails, mk_fails;
int m_unlink(const char *p) { ND *d = at(p); if (!d || d->dir || rm_fails) return -1; d->p = 0; return 0; }
int m_rmdir(const char *p) { ND *d = at(p); if (!d || !d->dir || rm_fails) return -1; for (int i = 0; i < nn; i++) if (&N[i] != d && N[i].p && below(N[i].p, d->p)) return -1; d->p = 0; return 0; }
int m_remove(const char *p) { ND *d = at(p); return d && d->dir ? m_rmdir(p) : m_unlink(p); }
int m_rename(const char *a, const char *b) { return mv(a, b); }
int m_mkdir(const char *p, unsigned m) { (void)m; if (at(p) || !parent_ok(p)) return -1; put(p, 1, 0); return 0; }
int m_chmod(const char *p, unsigned m) { ND *d = at(p); if (!d) return -1; d->exec = !!(m & 0100); return 0; }
int m_fork(void) { sv_fail("programs are run by system()"); return -1; } int m_execvp(const char *f, char *const a[]) { (void)f; (void)a; sv_fail("programs are run by system()"); return -1; } int m_execv(const char *f, char *const a[]) { return m_execvp(f, a); } int m_execlp(const char *f, const char *a, ...) { (void)a; return m_execvp(f, 0); }
static DIR *dummy; static int od; static char *odp; static int odi; static struct dirent ode;
DIR *m_opendir(const char *p) { ND *d = at(p); if (!d || !d->dir) return 0; sv_assert(!od, "one folder at a time"); od = 1; odp = d->p; odi = 0; dummy = (DIR *)&ode; return dummy; }
struct dirent *m_readdir(DIR *d) { (void)d; for (; odi < nn; odi++) { const char *r; if (N[odi].p && (r = below(N[odi].p, odp)) && *r && !strchr(r + 1, '/')) { snprintf(ode.d_name, sizeof ode.d_name, "%s", r + 1); odi++; return &ode; } } return 0; }
int m_closedir(DIR *d) { (void)d; od = 0; return 0; }
/* files read: their text through a scratch file */
FILE *c_fopen(const char *p, const char *m) { ND *d = at(p); if (m[0] == 'w' || m[0] == 'a') { sv_fail("no file is written by the program itself"); return 0; } if (!d || d->dir) { errno = ENOENT; return 0; } static int k; char nm[16]; snprintf(nm, sizeof nm, "f%d", k++ % 6); sv_file(nm, d->data ? d->data : "", d->data ? strlen(d->data) : 0); return fopen(nm, m); }
/* ---- the directory, fetched by curl ---- */
static char *json; static size_t jpos; static char curlobj; static int curl_rc;
FILE *m_popen(const char *c, const char *m) { (void)m; if (starts(c, "curl ")) { jpos = 0; return (FILE *)&curlobj; } sv_assert(starts(c, "git rev-parse --show-toplevel"), "nothing else is run"); return (FILE *)(git_pipe = &gitobj); }
int m_pclose(FILE *f) { return f == (FILE *)&curlobj ? curl_rc : git_rc; }
size_t m_fread(void *p, size_t s, size_t n, FILE *f) { if (f != (FILE *)&curlobj) return fread(p, s, n, f); size_t k = json ? strlen(json) - jpos : 0; if (k > s * n) k = s * n; memcpy(p, json + jpos, k); jpos += k; return k / s; }
/* ---- the shell ---- */
typedef struct { const char *url; const char *manifest, *name; int file; } RP; static RP R[4]; static int nr; static const char *hook, *hook_in; static int hook_n, clones; static const char *dirty = "a word of an id, address or directory entry is not run by the shell";
static char *word(const char **s) { B o = {0}; const char *p = *s; while (*p == ' ') p++; if (!*p) { *s = p; return 0; } b_lit(&o, ""); while (*p && *p != ' ') { if (*p == '\'') { p++; while (*p && *p != '\'') b_c(&o, *p++); sv_assert(*p == '\'', dirty); p++; } else if (*p == '"') { p++; while (*p && *p != '"') { if (*p == '\\' && p[1] && strchr("\\\"$`", p[1])) p++; else sv_assert(*p != '$' && *p != '`', dirty); b_c(&o, *p++); } sv_assert(*p == '"', dirty); p++; } else if (*p == '\\' && p[1]) { b_c(&o, p[1]); p += 2; } else { sv_assert(!strchr("$`;&|<>()\n*?~#!{}", *p), dirty); b_c(&o, *p++); } } *s = p; char *r = o.p; return r; }
static int clone(const char *url, const char *d) { clones++; if (clone_fails) return 128; if (at(d)) return 128; if (!parent_ok(d)) mkp(d); for (int i = 0; i < nr; i++) if (!strcmp(R[i].url, url)) { char b[200]; put(d, 1, url); snprintf(b, sizeof b, "%s/code", d); put(b, 0, url); if (R[i].manifest) { snprintf(b, sizeof b, "%s/%s", d, R[i].name); put(b, 0, R[i].manifest); } if (R[i].file) { snprintf(b, sizeof b, "%s/sub", d); put(b, 1, 0); snprintf(b, sizeof b, "%s/sub/f.lua", d); put(b, 0, "FILTER"); } return 0; } return 128; }
int m_system(const char *c) {
  const char *p = c; char *w[9]; int k = 0;
  if (starts(c, "cd ")) { p = c + 3; char *d = word(&p); size_t l = strlen(c), h = hook ? strlen(hook) : 0; sv_assert(hook && l >= h && !strcmp(c + l - h, hook), "the command run is the post-install command"); ND *x = at(d); sv_assert(x && x->dir, "it is run in a folder"); hook_in = norm(d); hook_n++; return 0; }
  while (k < 8 && (w[k] = word(&p))) k++;
  w[k] = 0; int o = 1;
  if (k == 0) { sv_fail("an empty command"); return 0; }
  if (!strcmp(w[0], "[") || !strcmp(w[0], "test")) { sv_assert(k >= 3 && w[1][0] == '-', "the test is on a path"); ND *d = at(w[2]); return d && (w[1][1] == 'e' || (w[1][1] == 'd') == d->dir) ? 0 : 256; }
  if (!strcmp(w[0], "git")) { sv_assert(k > 1 && !strcmp(w[1], "clone"), "git clones"); int opts = 1; const char *a[3]; int n = 0; for (o = 2; o < k; o++) { if (opts && !strcmp(w[o], "--")) opts = 0; else if (opts && !strcmp(w[o], "--depth")) o++; else if (opts && (!strcmp(w[o], "-q") || !strcmp(w[o], "--quiet"))) ; else { sv_assert(!opts || w[o][0] != '-', "an address is not taken for an option"); if (n < 3) a[n++] = w[o]; } } sv_assert(n == 2, "git clones one address into one folder"); return n == 2 ? clone(a[0], a[1]) : 1; }
  int opts = 1; const char *a[3]; int n = 0; for (o = 1; o < k; o++) { if (opts && !strcmp(w[o], "--")) opts = 0; else if (opts && w[o][0] == '-') ; else { if (!n && !strcmp(w[0], "chmod") && w[o][0] == '+') continue; if (n < 3) a[n++] = w[o]; } }
  int two = !strcmp(w[0], "mv") || !strcmp(w[0], "cp"); sv_assert(n == 1 + two, "a command gets the paths meant for it"); if (n != 1 + two) return 1;
  if (!strcmp(w[0], "rm")) { if (rm_fails) return 256; del(a[0]); return 0; }
  if (!strcmp(w[0], "mkdir")) return mk_fails ? 256 : mkp(a[0]);
  if (!strcmp(w[0], "chmod")) { ND *d = at(a[0]); if (d) d->exec = 1; return d ? 0 : 256; }
  if (!strcmp(w[0], "mv")) { ND *d = at(a[1]); if (d && d->dir) { char b[200]; char *x = norm(a[0]); const char *l = strrchr(x, '/'); snprintf(b, sizeof b, "%s/%s", a[1], l ? l + 1 : x); return mv(a[0], b) ? 256 : 0; } return mv(a[0], a[1]) ? 256 : 0; }
  if (!strcmp(w[0], "cp")) { if (cp_fails) return 256; ND *d = at(a[0]), *e = at(a[1]); if (!d || d->dir) return 256; const char *data = d->data; if (e && e->dir) return 256; if (!parent_ok(a[1])) return 256; put(a[1], 0, data); return 0; }
  sv_fail("a known program is run"); return 1;
}
/* ---- what is expected ---- */
static ND E[40]; static int en;
static void world(int filt) { xdg = filt >= 0 && sv_choice(2) ? "c" : 0; home = "h"; mkp("c/apex/plugins"); mkp("h/.config/apex/plugins"); mkp("c/apex/filters"); mkp("h/.config/apex/filters"); put("c/apex/config.yml", 0, "k"); put("h/keep", 0, "k"); put("w", 1, 0); put("w/keep", 0, "k"); (void)filt; }
static const char *root_of(int filt) { return xdg ? (filt ? "c/apex/filters" : "c/apex/plugins") : (filt ? "h/.config/apex/filters" : "h/.config/apex/plugins"); }
static char *under(const char *r, const char *n) { B o = {0}; b_lit(&o, r); b_lit(&o, "/"); b_lit(&o, n); return b_done(&o); }
static void keep(void) { en = nn; memcpy(E, N, sizeof N); for (int i = 0; i < nn; i++) E[i].p = N[i].p ? strdup(N[i].p) : 0; }
static void same(const char *except) { /* everything before is as it was, but for what is at or below the path given */
  for (int i = 0; i < en; i++) if (E[i].p && !(except && below(E[i].p, except))) { ND *d = at(E[i].p); sv_assert(d && d->dir == E[i].dir && d->data == E[i].data && d->exec == E[i].exec, "nothing else is removed or changed"); }
  for (int i = 0; i < nn; i++) if (N[i].p && !(except && below(N[i].p, except))) { int was = 0; for (int j = 0; j < en; j++) if (E[j].p && !strcmp(E[j].p, N[i].p)) was = 1; sv_assert(was, "nothing is left anywhere else"); }
}
static int plain(const char *s) { return *s && *s != '.' && !strchr(s, '/'); }
static int hidden(const char *s) { return *s == '.' && s[1] && strcmp(s, "..") && !strchr(s, '/'); }
#define ODD "a./\"'$`; *-\n"
static char *odd(size_t max) { B o = {0}; b_lit(&o, ""); size_t n = (size_t)sv_choice((int)max + 1); b_in(&o, n, ODD); return b_done(&o); }
static char *ans(void) { int k = sv_choice(3); if (!k) return 0; B o = {0}; if (k == 1) b_in(&o, 1, "yYnN \n"); else b_not(&o, 1, ""); b_in(&o, 1, "y\nx"); return b_done(&o); }
static int yes(void) { return answer && (answer[0] == 'y' || answer[0] == 'Y'); }
static const char *const LONGID[] = {"..", ".", "../filters", "a/../b", "x; rm -rf ~", "$(touch x)", "kbd", "../../config.yml"};
static char *an_id(void) { return sv_choice(4) ? odd(3) : strdup(LONGID[sv_choice(8)]); }
static void uninstall(int filt) {
  world(filt); const char *r = root_of(filt); char *id = an_id(); answer = ans(); rm_fails = sv_choice(4) == 3;
  put(under(r, "other"), 1, 0); put(under(r, "other/x"), 0, "k"); put(under(r, "b"), 1, 0); put(under(r, "b/x"), 0, "k");
  static const char *const SUF[] = {"", ".lua", ".py", ".rb"}; int kind = sv_choice(filt ? 5 : 3), suf = filt ? sv_choice(4) : 0, there = 0; char *t = 0;
  if (plain(id) && kind) { B o = {0}; b_lit(&o, id); b_lit(&o, SUF[suf]); t = under(r, b_done(&o)); if (at(t)) return; there = kind != 2 || filt; if (kind == 2 || kind == 4) put(t, 0, "k"); else { put(t, 1, 0); put(under(t, "x"), 0, "k"); } }
  if (filt && plain(id) && kind > 2) { B o = {0}; b_lit(&o, id); b_lit(&o, ".txt"); put(under(r, b_done(&o)), 0, "k"); }
  keep(); int rc = CLI_RUN(filt ? "--uninstall-filter" : "--uninstall-plugin", id);
  if (plain(id) && there && yes() && !rm_fails) { sv_assert(rc == 0, "an installed entry is removed when asked for"); sv_assert(!at(t), "the entry is gone"); for (int i = 0; i < nn; i++) sv_assert(!N[i].p || !below(N[i].p, t), "the entry is gone"); same(t); sv_cover("removed"); return; }
  sv_assert(rc != 0, "an error is reported when nothing was removed"); same(0);
  if (!plain(id)) { sv_cover("refused"); }
}
void h_in_rmplugin(void) { uninstall(0); }
void h_in_rmfilter(void) { uninstall(1); }
static void js(B *o, const char *s) { b_lit(o, "\""); for (; *s; s++) { if (*s == '"' || *s == '\\') b_lit(o, "\\"); if (*s == '\n') b_lit(o, "\\n"); else b_c(o, *s); } b_lit(o, "\""); }
static void entry(B *o, const char *id, const char *repo, const char *path, int ord) { b_lit(o, "{ "); if (ord) { b_lit(o, "\"repo\": "); js(o, repo); b_lit(o, ", "); if (path) { b_lit(o, "\"path\": "); js(o, path); b_lit(o, ", "); } } b_lit(o, "\"id\": "); js(o, id); b_lit(o, ", \"title\": \"id\", \"description\": \"{a} \\\"id\\\": \\\"kbd\\\"\""); if (!ord) { if (path) { b_lit(o, ", \"path\": "); js(o, path); } b_lit(o, ", \"repo\": "); js(o, repo); } b_lit(o, "}"); }
static void directory(const char *key, int pos, const char *id, const char *repo, const char *path) { int ord = sv_choice(2); B o = {0}; b_lit(&o, "{\"version\": 1, \""); b_lit(&o, key); b_lit(&o, "\": [\n"); if (pos == 1) { entry(&o, id, repo, path, ord); b_lit(&o, ",\n"); } entry(&o, "first", "https://e/first", 0, ord); b_lit(&o, ",\n"); if (pos == 2) { entry(&o, id, repo, path, ord); b_lit(&o, ",\n"); } entry(&o, "last", "https://e/last", "sub/f.lua", ord); if (pos == 3) { b_lit(&o, ",\n"); entry(&o, id, repo, path, ord); } b_lit(&o, "]}\n"); json = b_done(&o); }
static void repo(const char *u, const char *m, const char *n, int f) { R[nr].url = u; R[nr].manifest = m; R[nr].name = n; R[nr++].file = f; }
static void installed(const char *t, const char *url) { ND *d = at(t), *c = at(under(t, "code")); sv_assert(d && d->dir && d->data && !strcmp(d->data, url) && c, "the repository asked for is installed under its name"); }
void h_in_plugin(void) {
  int f = sv_choice(2); world(f ? 0 : -1); const char *r = root_of(0); char *id = f ? strdup("kbd") : odd(2); B o = {0}; int pos = sv_choice(4); b_lit(&o, "https://e/"); if (f) b_in(&o, 1, "r'\"$`;"); b_lit(&o, "z"); char *url = b_done(&o); if (f && sv_choice(3) == 2) url = "-u"; int hk = f ? sv_choice(3) : 1, there = sv_choice(3); clone_fails = f && sv_choice(2); if (strchr(id, '/') && plain(id)) { if (id[0] != '/' && id[1]) return; }
  hook = hk ? "make all; echo 'x'" : 0; repo(url, hk ? (hk == 1 ? "id: kbd\npost_install: make all; echo 'x'\n" : "---\nid: other\npost_install: \"make all; echo 'x'\"\n---\n") : "id: kbd\ntitle: T\n", hk == 2 ? "plugin.yaml" : "plugin.yml", 0); repo("https://e/first", 0, 0, 0); repo("https://e/last", 0, 0, 0);
  directory("plugins", pos, id, url, 0); if (!pos && (!strcmp(id, "first") || !strcmp(id, "last"))) return;
  char *t = under(r, id); if (plain(id) && there) { if (there == 2) put(t, 0, "k"); else { put(t, 1, 0); put(under(t, "x"), 0, "k"); } } else there = 0;
  keep(); int rc = CLI_RUN("--install-plugin", id);
  if (plain(id) && pos && !there && !clone_fails) { sv_assert(rc == 0, "a plugin of the directory is installed"); installed(t, url); same(t); sv_assert(hook_n == !!hk, "the post-install command is run once"); if (hk) sv_assert(!strcmp(hook_in, t), "the post-install command is run in the plugin"); sv_cover("installed"); return; }
  sv_assert(rc != 0 && !hook_n, "an error is reported when nothing is installed"); same(0);
}
static const struct { const char *arg, *url, *name; } U[] = {{"u/r", "https://github.com/u/r.git", "r"}, {"u/r.git", "https://github.com/u/r.git", "r"}, {"https://github.com/u/r", "https://github.com/u/r.git", "r"}, {"https://github.com/u/r.git", "https://github.com/u/r.git", "r"}, {"git@github.com:u/r", "git@github.com:u/r.git", "r"}, {"git@github.com:u/r.git", "git@github.com:u/r.git", "r"}, {"https://e.org/r", "https://e.org/r", "r"}, {"https://e.org/d/r.git", "https://e.org/d/r.git", "r"}, {"ssh://git@e.org/r.git", "ssh://git@e.org/r.git", "r"}, {"git@h:r.git", "git@h:r.git", "r"}, {"http://github.com/u/r", "http://github.com/u/r.git", "r"}, {0, 0, 0}};
static char *arg_of(int u, char **url) { if (U[u].arg) { *url = strdup(U[u].url); return strdup(U[u].arg); } B o = {0}; b_lit(&o, "u"); b_in(&o, 1, "r'\"$`; -"); b_lit(&o, "/"); b_in(&o, 1, "r'\"$`; *-"); b_lit(&o, "r"); char *a = b_done(&o); B q = {0}; b_lit(&q, "https://github.com/"); b_lit(&q, a); b_lit(&q, ".git"); *url = b_done(&q); return a; }
void h_in_plugurl(void) {
  world(0); const char *r = root_of(0); char *url; int u = sv_choice(12); char *arg = arg_of(u, &url); answer = ans(); clone_fails = sv_choice(4) == 3; int m = sv_choice(5), stale = u < 2 || !U[u].arg ? sv_choice(2) : 0, there = sv_choice(3), hk = u < 2 ? sv_choice(2) : 1; char *id = 0; const char *name = U[u].arg ? "r" : arg + 3; char *man = 0;
  if (m == 1) id = strdup("kbd"); else if (m == 2) { static const char *const BAD[] = {"..", "../x", "a/b", ".x", "$(x)", "a b", "-x"}; id = strdup(BAD[sv_choice(7)]); } else if (m == 3) { B o = {0}; b_lit(&o, "k"); b_in(&o, 2, "a/'$`;.*-"); id = b_done(&o); }
  hook = hk ? "make" : 0; if (m) { B o = {0}; if (m > 3) b_lit(&o, "title: T\n"); else { b_lit(&o, "id: "); b_lit(&o, id); b_lit(&o, "\n"); } if (hk) b_lit(&o, "post_install: make\n"); man = b_done(&o); } else hk = 0;
  repo(url, man, "plugin.yml", 0); if (stale) { char *s = under(r, ".apex_install_temp"); put(s, 1, 0); put(under(s, "x"), 0, "k"); s = under(r, ".apex_install_r"); put(s, 1, 0); put(under(s, "x"), 0, "k"); }
  const char *fin = id ? id : name; char *t = under(r, fin); if (plain(fin) && there) { if (there == 2) put(t, 0, "k"); else { put(t, 1, 0); put(under(t, "x"), 0, "k"); } } else there = 0;
  keep(); int rc = CLI_RUN("--install-plugin", arg);
  for (int i = 0; i < en; i++) if (stale && E[i].p && has(E[i].p, ".apex_install_")) { E[i].p = 0; } /* leftovers may be tidied up or stay */
  for (int i = 0; i < nn; i++) if (stale && N[i].p && has(N[i].p, ".apex_install_")) { sv_assert(!has(N[i].p, "/code"), "nothing is left of a failed attempt"); N[i].p = 0; }
  sv_assert(asked || !clones, "nothing is fetched from outside the directory before asking");
  if (!yes()) { sv_assert(rc != 0 && !clones && !hook_n, "nothing is fetched without consent"); same(0); return; }
  if (!clone_fails && !there && (plain(fin)) && (id || rc == 0)) { sv_assert(rc == 0, "a plugin is installed from its repository"); installed(t, url); same(t); sv_assert(hook_n == hk, "the post-install command is run once"); if (hk) sv_assert(!strcmp(hook_in, t), "the post-install command is run in the plugin"); sv_cover("installed"); return; }
  if (id && hidden(id) && rc == 0) { same(t); return; }
  sv_assert(rc != 0 && !hook_n, "an error is reported when nothing is installed"); same(0);
}
void h_in_filter(void) {
  int f = sv_choice(3); world(f ? 1 : -1); const char *r = root_of(1); char *id = f ? strdup("unwrap") : odd(2); int pos = f == 2 ? 2 : sv_choice(4); B o = {0}; b_lit(&o, "https://e/"); if (f == 1) b_in(&o, 1, "r'$`"); b_lit(&o, "z"); char *url = b_done(&o); if (f == 1 && sv_choice(3) == 2) url = "-u"; int there = sv_choice(3), stale = f && sv_choice(2), pk = f == 1 ? sv_choice(3) : f == 2 ? 3 : sv_choice(2) * 2; clone_fails = f == 1 && sv_choice(2); cp_fails = f && sv_choice(2); if (strchr(id, '/') && plain(id)) { if (id[0] != '/' && id[1]) return; }
  static const char *const P[] = {"sub/f.lua", "code", "sub", "nosuch.lua", "sub/nosuch", "../../../../h/keep", "sub/..", ""}; char *path = 0; if (pk == 1) path = strdup(P[sv_choice(8)]); else if (pk == 2) path = strdup("sub/f.lua"); else if (pk == 3) path = odd(3);
  repo(url, 0, 0, 1); repo("https://e/first", 0, 0, 1); repo("https://e/last", 0, 0, 1); directory("filters", pos, id, url, path);
  const char *base = path ? (strrchr(path, '/') ? strrchr(path, '/') + 1 : path) : id; char *t = under(r, base); int okf = !path || (!strcmp(path, "sub/f.lua") || !strcmp(path, "code"));
  if (plain(id) && plain(base) && there) { if (there == 2) put(t, 0, "k"); else { put(t, 1, 0); put(under(t, "x"), 0, "k"); } } else there = 0;
  if (stale && plain(id)) { B q = {0}; b_lit(&q, ".apex_install_"); b_lit(&q, id); char *s = under(r, b_done(&q)); put(s, 1, 0); put(under(s, "x"), 0, "k"); }
  keep(); int rc = CLI_RUN("--install-filter", id);
  for (int i = 0; i < en; i++) if (stale && E[i].p && has(E[i].p, ".apex_install_")) { E[i].p = 0; }
  for (int i = 0; i < nn; i++) if (stale && N[i].p && has(N[i].p, ".apex_install_")) { sv_assert(!has(N[i].p, "/code"), "nothing is left of a failed attempt"); N[i].p = 0; }
  if (plain(id) && pos && !there && !clone_fails && okf && !(path && cp_fails)) { sv_assert(rc == 0, "a filter of the directory is installed"); if (!path) installed(t, url); else { ND *d = at(t); sv_assert(d && !d->dir && d->exec && (!strcmp(path, "code") ? d->data && !strcmp(d->data, url) : d->data && !strcmp(d->data, "FILTER")), "the file asked for is installed, to be run"); } same(t); sv_cover("installed"); return; }
  sv_assert(rc != 0, "an error is reported when nothing is installed"); same(0);
}
void h_in_filturl(void) {
  world(1); const char *r = root_of(1); char *url; int u = sv_choice(12); char *arg = arg_of(u, &url); answer = ans(); clone_fails = sv_choice(4) == 3; int there = sv_choice(3); const char *name = U[u].arg ? "r" : arg + 3; repo(url, 0, 0, 1); char *t = under(r, name); if (there) { if (there == 2) put(t, 0, "k"); else { put(t, 1, 0); put(under(t, "x"), 0, "k"); } }
  keep(); int rc = CLI_RUN("--install-filter", arg);
  sv_assert(asked || !clones, "nothing is fetched from outside the directory before asking");
  if (!yes()) { sv_assert(rc != 0 && !clones, "nothing is fetched without consent"); same(0); return; }
  if (!clone_fails && !there) { sv_assert(rc == 0, "a filter is installed from its repository"); installed(t, url); same(t); sv_cover("installed"); return; }
  sv_assert(rc != 0, "an error is reported when nothing is installed"); same(0);
}

/* ---- listing ---- */
typedef struct { B j, t; } TX; /* a text in JSON and as it reads */
static void tx(TX *x, int rich) {
  b_lit(&x->j, "\""); b_lit(&x->t, "");
  if (!rich) { b_lit(&x->j, "ab"); b_lit(&x->t, "ab"); }
  else if (rich == 1) { static const char *const EJ[] = {"\\\"", "\\\\", "\\/", "\\t", "\\u00e9", "\\ud83d\\ude00", "\\u0041", "\\u20AC", "\xc3\xa9"}, *const ET[] = {"\"", "\\", "/", "\t", "\xc3\xa9", "\xf0\x9f\x98\x80", "A", "\xe2\x82\xac", "\xc3\xa9"}; int e = sv_choice(9); b_lit(&x->j, "x"); b_lit(&x->t, "x"); b_lit(&x->j, EJ[e]); b_lit(&x->t, ET[e]); }
  else { int n = sv_choice(3); for (int i = 0; i < n; i++) { char c; sv_sym_(&c, 1, "hole"); sv_restrict_(&c, 1, "a\"\\{}[]:,", 9); if (c == '"' || c == '\\') b_c(&x->j, '\\'); b_c(&x->j, c); b_c(&x->t, c); } b_lit(&x->j, "z"); b_lit(&x->t, "z"); }
  b_lit(&x->j, "\"");
}
static const char *const KEY[] = {"id", "repo", "title", "author", "description", "homepage"};
static void member(B *o, int *first, const char *k, const char *v, int sp) { static const char *const SP[] = {"", " ", "\n  "}; if (!*first) b_lit(o, ","); *first = 0; b_lit(o, SP[sp]); b_lit(o, "\""); b_lit(o, k); b_lit(o, "\""); if (sp) b_lit(o, " "); b_lit(o, ":"); if (sp) b_lit(o, SP[sp]); b_lit(o, v); if (sp == 1) b_lit(o, " "); }
void h_ls_json(void) {
  put("w", 1, 0); home = "h"; int filt = sv_choice(2), n = sv_choice(3), sp = sv_choice(3), focus = sv_choice(7); B o = {0}, want = {0}; int f0 = 1;
  b_lit(&o, "{"); static const char *const OV[] = {0, "\"plugins\"", "\"filters\"", "[{\"id\":\"q\",\"repo\":\"q\"}]", "{\"plugins\":[{\"id\":\"q\",\"repo\":\"q\"}],\"filters\":[]}", "-1.5e3", "null", "\"\\\"plugins\\\": [\""}; int ov = focus == 6 ? sv_choice(8) : 0, oa = ov ? sv_choice(2) : 0;
  if (ov && !oa) member(&o, &f0, "other", OV[ov], sp);
  B arr = {0}; b_lit(&arr, "["); int shown = 0;
  for (int i = 0; i < n; i++) {
    if (i) b_lit(&arr, ","); if (sp) b_lit(&arr, "\n"); b_lit(&arr, "{"); int f1 = 1, ord = focus == 5 ? sv_choice(6) : i, miss = focus == 4 && !i ? sv_choice(7) : 0, kind = miss ? sv_choice(4) : 0, ex = focus == 3 ? sv_choice(5) : 0; TX x[6]; memset(x, 0, sizeof x); int have[6];
    static const char *const EX[] = {0, "{\"id\":\"n\",\"repo\":\"n\",\"title\":\"n\"}", "[\"id\",\"repo\",[]]", "12", "\"id\\\": \\\"w\\\"\""};
    if (ex) member(&arr, &f1, "extra", EX[ex], sp);
    for (int q = 0; q < 6; q++) { int k = ord < 3 ? (q + ord * 2) % 6 : (11 - q - ord) % 6; have[k] = miss != k + 1; int rich = !i && focus < 3 && (focus == 0 ? k == 0 : focus == 1 ? k == 1 : k == 2 + sv_conc(ord & 3)) ? 1 + sv_choice(2) : 0; if (i && !k && focus) rich = 0; tx(&x[k], rich); if (i && !k) { b_lit(&x[k].t, "2"); x[k].j.n--; b_lit(&x[k].j, "2\""); } if (have[k]) member(&arr, &f1, KEY[k], x[k].j.p, sp); else if (kind) { static const char *const NV[] = {0, "7", "null", "{\"id\":\"v\"}"}; member(&arr, &f1, KEY[k], NV[kind], sp); } }
    b_lit(&arr, "}"); if (!have[0] || !have[1]) continue; shown++;
    char b[64]; snprintf(b, sizeof b, "%-20s - ", x[0].t.p); b_lit(&want, b); b_lit(&want, have[2] ? x[2].t.p : x[0].t.p); if (have[3]) { b_lit(&want, "  (author: "); b_lit(&want, x[3].t.p); b_lit(&want, ")"); } b_lit(&want, "\n"); if (have[4]) { b_lit(&want, "    "); b_lit(&want, x[4].t.p); b_lit(&want, "\n"); } if (have[5]) { b_lit(&want, "    homepage: "); b_lit(&want, x[5].t.p); b_lit(&want, "\n"); } else { b_lit(&want, "    repo: "); b_lit(&want, x[1].t.p); b_lit(&want, "\n"); }
  }
  if (sp) b_lit(&arr, "\n"); b_lit(&arr, "]"); member(&o, &f0, filt ? "filters" : "plugins", arr.p, sp); if (ov && oa) member(&o, &f0, "other", OV[ov], sp); b_lit(&o, "}"); if (sp) b_lit(&o, "\n"); json = b_done(&o);
  int rc = CLI_RUN(filt ? "--list-filters" : "--list-plugins"); b_lit(&SO.b, ""); sv_emit("out", SO.b.p, SO.b.n);
  sv_assert(rc == 0, "the directory is listed"); const char *g = strstr(SO.b.p, filt ? "## Available Filters\n" : "## Available Plugins\n"); sv_assert(g != 0, "the available ones have a heading"); if (!g) return; g = strchr(g, '\n') + 1; if (*g == '\n') g++; b_lit(&want, ""); expect_str(g, want.p, "every entry is listed as the directory gives it"); if (shown == 2) sv_cover("two");
}
void h_ls_find(void) {
  world(-1); const char *r = root_of(0); TX id = {0}; b_lit(&id.j, "\""); b_lit(&id.t, ""); int n = 1 + sv_choice(2); for (int i = 0; i < n; i++) { char c; sv_sym_(&c, 1, "hole"); sv_restrict_(&c, 1, "ab\"\\", 4); if (c == '"' || c == '\\') b_c(&id.j, '\\'); b_c(&id.j, c); b_c(&id.t, c); } b_lit(&id.j, "\"");
  static const char *const EN[] = {"{\"id\":\"a\",\"repo\":\"R1\"}", "{\"title\":\"b\",\"id\":\"c\",\"repo\":\"R2\"}", "{\"id\":\"x\",\"repo\":\"R3\",\"more\":{\"id\":\"b\",\"repo\":\"R4\"}}", "{\"repo\":\"R5\",\"id\":\"ab\"}", "{\"id\":\"b\"}"}; B o = {0}; b_lit(&o, "{\"plugins\":["); int a = sv_choice(5), m = sv_choice(3); repo("R1", 0, 0, 0); repo("R5", 0, 0, 0); repo("OK", 0, 0, 0); b_lit(&o, EN[a]); if (m) { b_lit(&o, ",{\"repo\":\"OK\",\"id\":"); b_lit(&o, id.j.p); b_lit(&o, "}"); } if (m < 2) { b_lit(&o, ","); b_lit(&o, EN[(a + 1) % 5]); } b_lit(&o, "]}"); json = b_done(&o);
  const char *w = a == 0 && !strcmp(id.t.p, "a") ? "R1" : a == 3 && !strcmp(id.t.p, "ab") ? "R5" : m ? "OK" : (a + 1) % 5 == 0 && !strcmp(id.t.p, "a") ? "R1" : (a + 1) % 5 == 3 && !strcmp(id.t.p, "ab") ? "R5" : 0; char *t = under(r, id.t.p); keep();
  int rc = CLI_RUN("--install-plugin", id.t.p); if (w) { sv_assert(rc == 0, "an entry of the directory is found by its id"); installed(t, w); sv_cover("found"); } else { sv_assert(rc != 0 && !clones, "no entry is found by anything else than its id"); same(0); }
}
void h_ls_here(void) {
  put("w", 1, 0); put("q", 1, 0); put("g", 1, 0); wd = "g/w"; git_top = sv_choice(2) ? "g" : 0; git_rc = 0; xdg = "c"; static const char *const WH[] = {"g/w/.apex/plugins", "q/.apex/plugins", "g/.apex/plugins", "c/apex/plugins"}, *const DN[] = {"k", "m", "n"}; int n = sv_choice(4), wh[3], used[3] = {0}; char *ids[3]; B want = {0}; b_lit(&want, "");
  for (int i = 0; i < n; i++) { wh[i] = sv_choice(4); if (i && wh[i] < wh[i - 1]) return; char b[80]; snprintf(b, sizeof b, "%s/%s", WH[wh[i]], DN[i]); mkp(b); int k = sv_choice(4); ids[i] = strdup(k == 0 ? DN[i] : k == 1 ? "k" : k == 2 ? "id2" : "zz"); snprintf(b, sizeof b, "%s/%s/plugin.%s", WH[wh[i]], DN[i], i == 1 ? "yaml" : "yml"); B m = {0}; if (k) { b_lit(&m, "id: "); b_lit(&m, ids[i]); b_lit(&m, "\n"); } b_lit(&m, "title: T"); b_lit(&m, DN[i]); b_lit(&m, "\nauthor: A\n"); put(b, 0, b_done(&m)); }
  json = strdup("{\"plugins\":[{\"id\":\"id2\",\"repo\":\"R\"},{\"id\":\"av\",\"repo\":\"S\",\"title\":\"AV\"},{\"id\":\"k\",\"repo\":\"R\"}]}"); int base = sv_choice(2);
  for (int i = 0; i < n; i++) { if (wh[i] == 1 && !base) continue; if (wh[i] == 2 && !git_top) continue; used[i] = 1; for (int j = 0; j < i; j++) if (used[j] && !strcmp(ids[i], ids[j])) used[i] = 0; if (used[i]) { char b[64]; snprintf(b, sizeof b, "%-20s - T%s  (author: A)\n", ids[i], DN[i]); b_lit(&want, b); } }
  int rc = base ? CLI_RUN("--base-dir", "q", "--list-plugins") : CLI_RUN("--list-plugins"); sv_emit("out", SO.b.p, SO.b.n); sv_assert(rc == 0, "the plugins are listed");
  char *g = SO.b.p, *av = strstr(g, "## Available Plugins\n"); sv_assert(av != 0, "the available ones have a heading"); if (!av) return; int h2 = 0, hk = 0; for (int i = 0; i < n; i++) if (used[i]) { if (!strcmp(ids[i], "id2")) h2 = 1; if (!strcmp(ids[i], "k")) hk = 1; }
  sv_assert(has(av, "AV") && has(av, "\nid2 ") == !h2 && has(av, "\nk ") == !hk, "those available are the ones not installed"); char *in = strstr(g, "## Installed Plugins\n"); sv_assert(!!in == !!want.n, "the installed ones have a heading when there are some"); if (!in) return; in = strchr(in, '\n') + 2; sv_assert(strlen(in) >= want.n, "every installed plugin is listed once, the one that runs"); sv_assert_mem_eq(in, want.p, want.n, "every installed plugin is listed once, the one that runs"); sv_assert(in[want.n] == '\n', "nothing else is listed as installed"); sv_cover("installed");
}
