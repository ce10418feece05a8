//@src src/plugins.c
//@srcflags -Dopendir=m_opendir -Dreaddir=m_readdir -Dclosedir=m_closedir -Dmkdir=m_mkdir -Dpopen=m_popen -Dpclose=m_pclose -Dgetcwd=m_getcwd -Drealpath=m_realpath
//@job C44 h_pl_order quick=60 workers=6 bound="3 plugins in every directory order, 5 priorities each (one missing), names of three kinds (in different case, with a long common beginning), both phases and one unknown, failing handlers"
//@job C44 h_pl_place quick=60 workers=4 bound="a plugin in every subset of the four places, same or different names, with a repository root above, at, below, beside the current directory or none, and XDG_CONFIG_HOME"
//@job C44 h_pl_rx quick=60 workers=6 bound="17 patterns with ^, $, groups and repetitions, flags i and m, 6 replacement templates, every text of at most 5 characters over a b A newline"
//@job C44 h_pl_brx quick=60 workers=4 bound="4 patterns in a bundle's entry, flags i and m, 2 templates, every text of at most 4 characters over a A newline"
//@job C44 h_pl_tpl quick=60 workers=4 bound="every template of at most 4 characters over $ 0 1 2 9 x, on a text with two matches and an unset group"
//@job C44 h_pl_long quick=60 workers=3 max_instr=100000000 bound="texts of up to 5000 bytes, up to 500 matches, templates of up to 3000 bytes"
//@job C44 h_pl_both quick=60 workers=2 bound="two plugins of the same name in one directory or two, each in either phase, both directory orders"
//@job C44 h_pl_env quick=60 workers=4 bound="each of the three variables set, empty or unset before, a file path, with and without support directory, two handlers"
//@job C44 h_pl_man quick=60 workers=4 bound="manifests of 15 kinds: plugin.yml, plugin.yaml, flat, hidden, without ---, without phase, id or command, invalid patterns; every key order of 2"
//@job C44 h_pl_bundle quick=60 workers=4 bound="bundles of 1..3 entries of 6 kinds with and without id and phase"
#include "hl.h"
#include <regex.h>
#include <dirent.h>
#include <sys/stat.h>
#include <stdbool.h>
#include "plugins.h"
#include "extensions/metadata.h"
/* ---- regular expressions: a small matcher on the solver's side, the C library's in replays ---- */
static int atom(const char *p, const char **e, int c, int ic, int nl) { int r; if (ic && c >= 'A' && c <= 'Z') c += 32; if (*p == '.') { *e = p + 1; r = c && !(nl && c == '\n'); } else if (*p == '[') { p++; int neg = *p == '^'; if (neg) p++; r = 0; while (*p != ']') { if (*p == c) r = 1; p++; } if (neg) r = !r && !(nl && c == '\n'); r = r && c; *e = p + 1; } else { r = c && *p == c; *e = p + 1; } return r; }
typedef struct { const char *t; int ic, nl, notbol, ng; int so[10], eo[10]; } X;
static int mt(X *x, const char *p, int g, int i) { /* end of the match of p at i, or -1 */
  if (!*p) return i;
  if (*p == '^') { int ok = i == 0 ? !x->notbol : x->nl && x->t[i - 1] == '\n'; return ok ? mt(x, p + 1, g, i) : -1; }
  if (*p == '$') { int ok = !x->t[i] || (x->nl && x->t[i] == '\n'); return ok ? mt(x, p + 1, g, i) : -1; }
  if (*p == '(') { int so = x->so[g + 1], eo = x->eo[g + 1]; x->so[g + 1] = i; int r = mt(x, p + 1, g + 1, i); if (r >= 0) return r; x->so[g + 1] = so; x->eo[g + 1] = eo; const char *q = strchr(p, ')'); if (q[1] == '?') { x->so[g + 1] = x->eo[g + 1] = -1; return mt(x, q + 2, g + 1, i); } return -1; }
  if (*p == ')') { int eo = x->eo[g]; x->eo[g] = i; int r = mt(x, p[1] == '?' ? p + 2 : p + 1, g, i); if (r < 0) x->eo[g] = eo; return r; }
  const char *e; int k = 0, lo = 1, hi = 1; atom(p, &e, 0, 0, 0); if (*e == '*') { lo = 0; hi = 99999; } else if (*e == '+') hi = 99999; else if (*e == '?') lo = 0; const char *nx = lo != 1 || hi != 1 ? e + 1 : e;
  while (k < hi && atom(p, &e, x->t[i + k], x->ic, x->nl)) k++;
  for (; k >= lo; k--) { int r = mt(x, nx, g, i + k); if (r >= 0) return r; } return -1; }
static int srch(X *x, const char *p, int from) { int n = (int)strlen(x->t); for (int i = from; i <= n; i++) { for (int g = 0; g < 10; g++) x->so[g] = x->eo[g] = -1; int r = mt(x, p, 0, i); if (r >= 0) { x->so[0] = i; x->eo[0] = r; return 1; } } return 0; }
#ifndef SV_NATIVE
typedef struct { char *p; int fl; } RX;
int regcomp(regex_t *r, const char *p, int f) { int d = 0; for (const char *q = p; *q; q++) { if (*q == '(') d++; if (*q == ')') d--; if (*q == '[') { q = strchr(q, ']'); if (!q) return 1; } } if (d) return 1; RX *x = malloc(sizeof *x); x->p = strdup(p); x->fl = f; *(RX **)r = x; return 0; }
int regexec(const regex_t *r, const char *s, size_t n, regmatch_t m[], int ef) { RX *c = *(RX **)r; X x = {s, !!(c->fl & REG_ICASE), !!(c->fl & REG_NEWLINE), !!(ef & REG_NOTBOL), 0}; if (!srch(&x, c->p, 0)) return REG_NOMATCH; for (size_t i = 0; i < n; i++) { m[i].rm_so = i < 10 ? x.so[i] : -1; m[i].rm_eo = i < 10 ? x.eo[i] : -1; } return 0; }
void regfree(regex_t *r) { RX *x = *(RX **)r; free(x->p); free(x); }
#endif
/* ---- plugins on disk ---- */
typedef struct { const char *dir, *name; int kind; /* 0 dir/plugin.yml 1 dir/plugin.yaml 2 flat 3 dir without manifest 4 both */ const char *mani; const char *kv[9][2]; int nb; const char *bkv[3][8][2]; } PL;
static PL pl[4]; static int npl; static int ord[4]; static const char *git; static int git_rc;
static const char *KEYS[] = {"id", "phase", "handler.command", "priority", "timeout_ms", "pattern", "replacement", "flags"};
static PL *addp(const char *dir, const char *name) { PL *p = &pl[npl]; memset(p, 0, sizeof *p); p->dir = dir; p->name = name; p->mani = "---\nx: y\n---\n"; ord[npl] = npl; npl++; for (int i = 0; i < 8; i++) p->kv[i][0] = KEYS[i]; return p; }
static void put(PL *p) { B b = {0}; b_lit(&b, p->dir); b_c(&b, '/'); b_lit(&b, p->name); char *d = strdup(b.p); if (p->kind == 2) { sv_file(d, p->mani, strlen(p->mani)); return; } sv_dir(p->dir); sv_dir(d); if (p->kind == 3) { b_lit(&b, "/readme"); sv_file(b.p, "x", 1); return; } b_lit(&b, p->kind == 1 ? "/plugin.yaml" : "/plugin.yml"); sv_file(b.p, p->mani, strlen(p->mani)); if (p->kind == 4) { b.n -= 4; b_lit(&b, ".yaml"); sv_file(b.p, p->mani, strlen(p->mani)); } }
typedef struct { int k; char dir[64]; struct dirent e; } MD;
DIR *m_opendir(const char *p) { for (int i = 0; i < npl; i++) if (!strcmp(p, pl[i].dir)) { MD *d = calloc(1, sizeof *d); strcpy(d->dir, p); return (DIR *)d; } return 0; }
struct dirent *m_readdir(DIR *q) { MD *d = (MD *)q; while (d->k < npl) { PL *p = &pl[ord[d->k++]]; if (!strcmp(p->dir, d->dir)) { strcpy(d->e.d_name, p->name); return &d->e; } } return 0; }
int m_closedir(DIR *d) { free(d); return 0; }
static B made; int m_mkdir(const char *p, mode_t m) { (void)m; b_lit(&made, p); b_c(&made, '\n'); return 0; }
FILE *m_popen(const char *c, const char *m) { (void)c; (void)m; sv_file("gitout", git ? git : "", git ? strlen(git) : 0); return fopen("gitout", "r"); }
int m_pclose(FILE *f) { fclose(f); return git ? git_rc : 128; }
char *m_getcwd(char *b, size_t n) { strcpy(b, "wd/sub"); return n > 6 ? b : 0; }
char *m_realpath(const char *p, char *r) { (void)r; B b = {0}; b_lit(&b, "/abs/"); b_lit(&b, p); return b.p; }
static apex_metadata_item *item(const char *k, const char *v) { apex_metadata_item *m = calloc(1, sizeof *m); m->key = strdup(k); m->value = strdup(v); return m; }
static int rev; static PL *cur;
static apex_metadata_item *items(const char *(*kv)[2], int n) { apex_metadata_item *h = 0, **t = &h; for (int j = 0; j < n; j++) { int i = rev ? n - 1 - j : j; if (kv[i][0] && kv[i][1]) { apex_metadata_item *m = item(kv[i][0], kv[i][1]); *t = m; t = &m->next; } } if (!h) h = item("other", "x"); return h; }
static PL *byman(const char *f) { for (int i = 0; i < npl; i++) { B b = {0}; b_lit(&b, pl[i].dir); b_c(&b, '/'); b_lit(&b, pl[i].name); size_t n = strlen(b.p); if (!strncmp(f, b.p, n) && (pl[i].kind == 2 ? !f[n] : f[n] == '/')) return &pl[i]; } return 0; }
apex_metadata_item *apex_load_metadata_from_file(const char *f) { PL *p = byman(f); if (!p) { sv_fail("manifests are read where the plugins are"); return 0; } return items(p->kv, 8); }
apex_metadata_item **apex_extract_plugin_bundle(const char *f, size_t *n) { PL *p = byman(f); *n = 0; if (!p || !p->nb) return 0; apex_metadata_item **r = malloc(sizeof *r * p->nb); for (int i = 0; i < p->nb; i++) r[i] = items(p->bkv[i], 8); *n = p->nb; return r; }
apex_metadata_item *apex_merge_metadata(apex_metadata_item *a, ...) { __builtin_va_list v; __builtin_va_start(v, a); apex_metadata_item *h = 0; for (; a; a = __builtin_va_arg(v, apex_metadata_item *)) for (apex_metadata_item *m = a; m; m = m->next) { apex_metadata_item *q = h; while (q && strcmp(q->key, m->key)) q = q->next; if (q) { free(q->value); q->value = strdup(m->value); } else { q = item(m->key, m->value); q->next = h; h = q; } } __builtin_va_end(v); return h; }
void apex_free_metadata(apex_metadata_item *m) { while (m) { apex_metadata_item *n = m->next; free(m->key); free(m->value); free(m); m = n; } }
/* ---- the command runner (decided by C43) ---- */
static B ran; static int fails; static const char *envlog[8][3]; static int nrun; static int last_tmo; static char *dirs[8];
char *apex_run_external_plugin_command(const char *cmd, const char *dir, const char *phase, const char *id, const char *text, int tmo) { B o = {0}; if (nrun < 8) { dirs[nrun] = dir ? strdup(dir) : 0; static const char *const V[] = {"APEX_PLUGIN_DIR", "APEX_SUPPORT_DIR", "APEX_FILE_PATH"}; for (int i = 0; i < 3; i++) { const char *e = getenv(V[i]); envlog[nrun][i] = e ? strdup(e) : 0; } nrun++; } last_tmo = tmo; b_lit(&ran, id); b_c(&ran, ':'); b_lit(&ran, cmd); b_c(&ran, ':'); b_lit(&ran, phase); b_c(&ran, ';'); if (fails) { int f = fails & 1; fails >>= 1; if (f) return 0; } b_lit(&o, text); b_c(&o, '<'); b_lit(&o, id); b_c(&o, '>'); return o.p; }
static apex_options O; static void opts(void) { memset(&O, 0, sizeof O); O.enable_plugins = true; setenv("XDG_CONFIG_HOME", "cfg", 1); setenv("HOME", "home", 1); unsetenv("APEX_PROFILE"); unsetenv("APEX_PROFILE_PLUGINS"); b_lit(&ran, ""); b_lit(&made, ""); }
#define WD "wd/sub/.apex/plugins"
void h_pl_order(void) { opts(); static const char *NS[3][3] = {{"a", "b", "ab"}, {"x", "X", "_x"}, {"a-plugin-with-a-long-name-1", "a-plugin-with-a-long-name-2", "a-plugin-with-a-long-name"}}, *P[] = {0, "100", "5", "-3", "2000"}; const char **N = NS[sv_choice(3)]; static const int V[] = {100, 100, 5, -3, 2000}; int pv[3], n = 3, ph[3]; for (int i = 0; i < n; i++) { PL *p = addp(WD, N[i]); p->kv[0][1] = N[i]; int q = sv_choice(5); p->kv[3][1] = P[q]; pv[i] = V[q]; ph[i] = i == 2 ? sv_choice(3) : 0; p->kv[1][1] = ph[i] == 0 ? "pre_parse" : ph[i] == 1 ? "post_render" : "inline"; p->kv[2][1] = "c"; put(p); } static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int pm = sv_choice(6); for (int i = 0; i < 3; i++) ord[i] = PERM[pm][i]; int f0 = N == NS[0] ? sv_choice(4) : 0; fails = f0;
  apex_plugin_manager *m = apex_plugins_load(&O); if (!m) { sv_fail("plugins are found"); return; } B w = {0}, wr = {0}; b_lit(&w, "T"); b_lit(&wr, ""); int used[3] = {0}, run = 0; for (;;) { int best = -1; for (int i = 0; i < 3; i++) if (!used[i] && ph[i] == 0 && (best < 0 || pv[i] < pv[best] || (pv[i] == pv[best] && strcmp(N[i], N[best]) < 0))) best = i; if (best < 0) break; used[best] = 1; b_lit(&wr, N[best]); b_lit(&wr, ":c:pre_parse;"); if (!(f0 >> run & 1)) { b_c(&w, '<'); b_lit(&w, N[best]); b_c(&w, '>'); } run++; }
  char *r = apex_plugins_run_text_phase(m, APEX_PLUGIN_PHASE_PRE_PARSE, "T", &O); expect_str(ran.p, wr.p, "plugins run in order of priority and name"); if (!strcmp(w.p, "T")) sv_assert(!r, "no change"); else expect_str(r, w.p, "each plugin works on the result of the one before"); ran.n = 0; ran.p[0] = 0; fails = 0; r = apex_plugins_run_text_phase(m, APEX_PLUGIN_PHASE_POST_RENDER, "T", &O); if (ph[2] == 1) { B x = {0}, y = {0}; b_lit(&x, "T<"); b_lit(&x, N[2]); b_c(&x, '>'); b_lit(&y, N[2]); b_lit(&y, ":c:post_render;"); expect_str(r, x.p, "plugins run in their phase"); expect_str(ran.p, y.p, "plugins run in their phase"); } else sv_assert(!r && !*ran.p, "plugins run in their phase only"); apex_plugins_free(m); sv_cover("order"); }
void h_pl_place(void) { opts(); int same = sv_choice(2), set = sv_choice(16), xdg = sv_choice(2), vc = sv_choice(7); if (!xdg) { if (sv_choice(2)) unsetenv("XDG_CONFIG_HOME"); else setenv("XDG_CONFIG_HOME", "", 1); } static const char *N[] = {"p1", "p2", "p3", "p4"}; const char *D[] = {WD, "base/.apex/plugins", "wd/.apex/plugins", xdg ? "cfg/apex/plugins" : "home/.config/apex/plugins"}; static const char *const G[] = {0, "wd\n", "other\n", "wd/su\n", "wd/sub\n", "wd/sub/deep\n", "base\n"}; O.base_directory = "base"; git = G[vc]; if (vc == 3) D[2] = "wd/su/.apex/plugins"; if (vc == 5) D[2] = "wd/sub/deep/.apex/plugins"; B w = {0}, wr = {0}; b_lit(&w, ""); for (int i = 0; i < 4; i++) if (set >> i & 1) { PL *p = addp(D[i], N[i]); p->kv[0][1] = same ? "q" : N[i]; p->kv[1][1] = "pre_parse"; p->kv[2][1] = N[i]; put(p); if (i == 2 && vc != 1) continue; if (same && w.n) continue; b_lit(&w, same ? "q" : N[i]); b_c(&w, ':'); b_lit(&w, N[i]); b_lit(&w, ":pre_parse;"); }
  apex_plugin_manager *m = apex_plugins_load(&O); if (!w.n) { sv_assert(!m, "nothing to run"); return; } if (!m) { sv_fail("plugins are found"); return; } free(apex_plugins_run_text_phase(m, APEX_PLUGIN_PHASE_PRE_PARSE, "T", &O)); expect_str(ran.p, w.p, "plugins are found in all places; the nearest of those with the same name counts"); apex_plugins_free(m); O.enable_plugins = false; sv_assert(!apex_plugins_load(&O), "disabled plugins are not loaded"); sv_cover("place"); (void)wr; }
static int in_bundle;
static void rx(const char *pat, const char *tpl, const char *fl, const char *t) { opts(); PL *p = addp(WD, "r"); p->kv[0][1] = "r"; p->kv[1][1] = "post_render"; if (in_bundle) { p->nb = 1; for (int i = 0; i < 8; i++) { p->bkv[0][i][0] = KEYS[i]; } p->bkv[0][0][1] = "r"; p->bkv[0][1][1] = "post_render"; p->bkv[0][5][1] = pat; p->bkv[0][6][1] = tpl; p->bkv[0][7][1] = fl; } else { p->kv[5][1] = pat; p->kv[6][1] = tpl; p->kv[7][1] = fl; } put(p); X x = {t, fl && strchr(fl, 'i'), fl && strchr(fl, 'm'), 0, 0}; B w = {0}; b_lit(&w, ""); int i = 0, n = (int)strlen(t); while (i <= n && srch(&x, pat, i)) { b_mem(&w, t + i, x.so[0] - i); for (const char *q = tpl; *q; q++) if (*q == '$' && q[1] >= '0' && q[1] <= '9') { int g = *++q - '0'; if (x.so[g] >= 0) b_mem(&w, t + x.so[g], x.eo[g] - x.so[g]); } else b_c(&w, *q); i = x.eo[0]; if (x.eo[0] == x.so[0]) { if (i < n) b_c(&w, t[i]); i++; } } if (i < n) b_lit(&w, t + i); apex_plugin_manager *m = apex_plugins_load(&O); if (!m) { sv_fail("plugins are found"); return; } char *r = apex_plugins_run_text_phase(m, APEX_PLUGIN_PHASE_POST_RENDER, t, &O); if (!r) r = strdup(t); expect_str(r, w.p, "every match, and nothing else, is replaced"); sv_assert(!apex_plugins_run_text_phase(m, APEX_PLUGIN_PHASE_PRE_PARSE, t, &O), "plugins run in their phase only"); apex_plugins_free(m); free(r); }
void h_pl_rx(void) { static const char *P[] = {"a", "a+", "a*", "^a", "a$", "^", "$", "(a)(b)?", "a(.)b", "[ab]+", "^(a*)$", "b?", "[^a]", "ab", "(b)a?", "^[ab]", ".$"}, *T[] = {"", "X", "<$1>", "$0$0", "a", "$2$1"}, *FL[] = {0, "i", "m", "im"}; B b = {0}; b_in0(&b, 5, "abA\n"); char *t = b_done(&b); rx(P[sv_choice(17)], T[sv_choice(6)], FL[sv_choice(4)], t); sv_cover("rx"); }
void h_pl_brx(void) { in_bundle = 1; static const char *P[] = {"^a", "a$", "^", "[ab]"}, *T[] = {"", "<$0>"}, *FL[] = {0, "i", "m", "im", "gim"}; B b = {0}; b_in0(&b, 4, "aA\n"); char *t = b_done(&b); rx(P[sv_choice(4)], T[sv_choice(2)], FL[sv_choice(5)], t); sv_cover("brx"); }
void h_pl_tpl(void) { B b = {0}; b_in0(&b, 4, "$0129x"); char *t = b_done(&b); rx("(a)(b)?", t, 0, sv_choice(2) ? "-ab-a-" : "abaa"); sv_cover("tpl"); }
void h_pl_long(void) { int k = sv_choice(3); B t = {0}, r = {0}; static const int L[] = {1, 100, 4999}; if (k == 0) { b_fill(&t, 'b', L[sv_choice(3)]); b_c(&t, 'a'); b_fill(&t, 'b', L[sv_choice(3)]); b_lit(&r, "$1$1"); rx("(a)", r.p, 0, t.p); } else if (k == 1) { int n = sv_choice(2) ? 500 : 40; for (int i = 0; i < n; i++) b_lit(&t, "ab"); b_lit(&r, sv_choice(2) ? "xyz$1" : ""); rx(sv_choice(2) ? "(a)" : "(a)(b)?", r.p, 0, t.p); } else { b_lit(&t, "-a-a"); b_fill(&r, 'r', L[sv_choice(3)] > 4000 ? 3000 : 200); rx("a", r.p, 0, t.p); } sv_cover("long"); }
static void same(const char *n, const char *old) { const char *e = getenv(n); if (old) { if (!e) { sv_fail("the environment is restored"); return; } expect_str(e, old, "the environment is restored"); } else sv_assert(!e, "the environment is restored"); }
void h_pl_both(void) { opts(); int b1 = sv_choice(2), b2 = sv_choice(2), sw = sv_choice(2), d2 = sv_choice(2); PL *p = addp(WD, "a"); p->kv[0][1] = "n"; p->kv[1][1] = b1 ? "pre_parse" : "post_render"; p->kv[2][1] = "c1"; put(p); PL *q = addp(d2 ? "cfg/apex/plugins" : WD, "b"); q->kv[0][1] = "n"; q->kv[1][1] = b2 ? "pre_parse" : "post_render"; q->kv[2][1] = "c2"; put(q); if (sw) { ord[0] = 1; ord[1] = 0; }
  apex_plugin_manager *m = apex_plugins_load(&O); if (!m) { sv_fail("plugins are found"); return; } const char *first = sw && !d2 ? "c2" : "c1"; for (int ph = 0; ph < 2; ph++) { const char *want = b1 == ph && b2 == ph ? first : b1 == ph ? "c1" : b2 == ph ? "c2" : 0; ran.n = 0; ran.p[0] = 0; free(apex_plugins_run_text_phase(m, ph ? APEX_PLUGIN_PHASE_PRE_PARSE : APEX_PLUGIN_PHASE_POST_RENDER, "T", &O)); B w = {0}; b_lit(&w, ""); if (want) { b_lit(&w, "n:"); b_lit(&w, want); b_lit(&w, ph ? ":pre_parse;" : ":post_render;"); } expect_str(ran.p, w.p, "of those with the same name in a phase one counts"); } apex_plugins_free(m); sv_cover("both"); }
void h_pl_env(void) { opts(); static const char *V[] = {"APEX_PLUGIN_DIR", "APEX_SUPPORT_DIR", "APEX_FILE_PATH"}; const char *old[3]; for (int i = 0; i < 3; i++) { int was = sv_choice(3); if (was) { old[i] = was == 1 ? "old" : ""; setenv(V[i], old[i], 1); } else { old[i] = 0; unsetenv(V[i]); } } int sup = sv_choice(3), fp = sv_choice(2), two = sv_choice(2); if (sup == 0) unsetenv("XDG_CONFIG_HOME"); if (sup == 1) { unsetenv("XDG_CONFIG_HOME"); unsetenv("HOME"); } O.input_file_path = fp ? "dir/f.md" : 0; for (int i = 0; i < 1 + two; i++) { PL *p = addp(WD, i ? "b" : "a"); p->kv[0][1] = i ? "bid" : "aid"; p->kv[1][1] = "pre_parse"; p->kv[2][1] = "c"; p->kv[4][1] = "750"; put(p); } fails = sv_choice(2);
  apex_plugin_manager *m = apex_plugins_load(&O); if (!m) { sv_fail("plugins are found"); return; } free(apex_plugins_run_text_phase(m, APEX_PLUGIN_PHASE_PRE_PARSE, "T", &O)); sv_assert(nrun == 1 + two, "each plugin is run once"); sv_assert(last_tmo == 750, "the time limit is the manifest's"); for (int i = 0; i < nrun; i++) { expect_str(envlog[i][0], i ? "/abs/" WD "/b" : "/abs/" WD "/a", "APEX_PLUGIN_DIR is the plugin's directory"); expect_str(dirs[i], i ? "/abs/" WD "/b" : "/abs/" WD "/a", "a command runs in its plugin's directory"); if (sup == 1) { sv_assert(!envlog[i][1] == !old[1], "no support directory"); } else { B s = {0}; b_lit(&s, sup == 2 ? "cfg/apex/support/" : "home/.config/apex/support/"); b_lit(&s, i ? "bid" : "aid"); expect_str(envlog[i][1], s.p, "APEX_SUPPORT_DIR is the plugin's own"); b_c(&s, '\n'); sv_assert(has(made.p, s.p), "the support directory is created"); } expect_str(envlog[i][2], fp ? "dir/f.md" : "", "APEX_FILE_PATH is the input file"); } for (int i = 0; i < 3; i++) same(V[i], old[i]); apex_plugins_free(m); sv_cover("env"); }
void h_pl_man(void) { opts(); rev = sv_choice(2); int k = sv_choice(17); const char *nm = k == 14 ? "_x" : k == 15 ? "A.yml" : k == 16 ? "-p.d" : k == 2 ? "f.yml" : k == 3 ? "f.yaml" : k == 4 ? "f.txt" : k == 5 ? ".hid" : "d"; PL *p = addp(WD, nm); p->kv[0][1] = "n"; p->kv[1][1] = "pre_parse"; p->kv[2][1] = "c"; int run = 1; const char *id = "n", *cmd = "c"; switch (k) { case 1: p->kind = 1; break; case 2: case 3: case 15: p->kind = 2; break; case 4: p->kind = 2; run = 0; break; case 5: run = 0; break; case 6: p->mani = "id: x\n"; run = 0; break; case 7: p->kv[1][1] = 0; run = 0; break; case 8: p->kv[0][1] = 0; id = "d"; break; case 9: p->kind = 3; run = 0; break; case 10: p->kv[2][0] = "handler_command"; break; case 11: p->kv[2][1] = 0; p->kv[5][1] = "("; p->kv[6][1] = "x"; run = 0; break; case 12: p->kv[5][1] = "T"; p->kv[6][1] = "x"; break; case 13: p->kind = 4; } put(p); int other = sv_choice(2); if (other) { PL *q = addp(WD, "zz"); q->kv[0][1] = "z"; q->kv[1][1] = "pre_parse"; q->kv[2][1] = "cz"; put(q); if (sv_choice(2)) { ord[0] = 1; ord[1] = 0; } }
  apex_plugin_manager *m = apex_plugins_load(&O); B w = {0}; b_lit(&w, ""); if (run) { b_lit(&w, id); b_c(&w, ':'); b_lit(&w, cmd); b_lit(&w, ":pre_parse;"); } if (other) b_lit(&w, "z:cz:pre_parse;"); if (m) free(apex_plugins_run_text_phase(m, APEX_PLUGIN_PHASE_PRE_PARSE, "T", &O)); expect_str(ran.p, w.p, "every usable manifest, and no other, is a plugin"); if (run && nrun) { B d = {0}; b_lit(&d, "/abs/" WD); if (p->kind != 2) { b_c(&d, '/'); b_lit(&d, nm); } expect_str(dirs[0], d.p, "a command runs in its plugin's directory"); expect_str(envlog[0][0], d.p, "APEX_PLUGIN_DIR is the plugin's directory"); } if (m) apex_plugins_free(m); sv_cover("man"); }
void h_pl_bundle(void) { opts(); PL *p = addp(WD, "bun"); if (sv_choice(2)) p->kv[0][1] = "bun"; p->nb = 1 + sv_choice(3); static const char *ID[] = {"k1", "k2", "k3"}; B w = {0}, w2 = {0}; b_lit(&w, ""); b_lit(&w2, "T"); rev = sv_choice(2); for (int i = 0; i < p->nb; i++) { int k = sv_choice(6); static const char *const bk[] = {"id", "phase", "handler.command", "pattern", "replacement", "priority"}; for (int j = 0; j < 6; j++) p->bkv[i][j][0] = bk[j]; p->bkv[i][0][1] = ID[i]; p->bkv[i][1][1] = k == 1 ? "block" : k == 2 ? 0 : "pre_parse"; if (k == 3) { p->bkv[i][3][1] = "T"; p->bkv[i][4][1] = "[T]"; } else if (k == 4) { p->bkv[i][3][1] = "[T"; p->bkv[i][4][1] = "[T]"; } else p->bkv[i][2][1] = "c"; if (k == 5) p->bkv[i][0][1] = "k1"; }
  put(p); /* reference: entries in order of name (equal priority), the first of a name counts */ for (int q = 0; q < 3; q++) { int done = 0; for (int i = 0; i < p->nb && !done; i++) { if (strcmp(p->bkv[i][0][1], ID[q])) continue; const char *ph = p->bkv[i][1][1]; if (!ph || strcmp(ph, "pre_parse")) continue; if (p->bkv[i][3][1] && !strcmp(p->bkv[i][3][1], "[T")) continue; done = 1; if (p->bkv[i][2][1]) { b_lit(&w, ID[q]); b_lit(&w, ":c:pre_parse;"); b_c(&w2, '<'); b_lit(&w2, ID[q]); b_c(&w2, '>'); } else { B n = {0}; b_lit(&n, ""); for (char *s = w2.p; *s; s++) if (*s == 'T') b_lit(&n, "[T]"); else b_c(&n, *s); w2 = n; } } }
  apex_plugin_manager *m = apex_plugins_load(&O); char *r = m ? apex_plugins_run_text_phase(m, APEX_PLUGIN_PHASE_PRE_PARSE, "T", &O) : 0; expect_str(ran.p, w.p, "every usable entry of a bundle is a plugin"); if (!r) r = strdup("T"); expect_str(r, w2.p, "every usable entry of a bundle is a plugin"); if (m) apex_plugins_free(m); sv_cover("bundle"); (void)cur; }
